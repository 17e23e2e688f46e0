//! C21: interactive-feature writers emit the documented entries.
use mc::*;
use pdf_writer::writers::Transition;
use pdf_writer::*;

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C21");
    let t = tables::interactive();
    tab::explore(c, &t);
    kinds::explore(
        c,
        &[
            "annotation", "form_field", "file_spec", "embedded_file", "signature_field_lock",
            "signature_seed_value",
        ],
    );
    // A rectangle as a quadrilateral: its corners, counterclockwise.
    c.phase("rectangles");
    let at = [0.0f32, -1.0, 2.5, 7.0, 1e9, 1e-9];
    par(at.len().pow(4), |i| {
        let [x1, y1, x2, y2] = [0, 1, 2, 3].map(|k| at[i / at.len().pow(k) % at.len()]);
        let mut ch = Chunk::new();
        let all = [Rect::new(x1, y1, x2, y2), Rect { x1: y2, y1: x2, x2: y1, y2: x1 }];
        ch.annotation(Ref::new(1)).quad_points(all.iter().flat_map(|r| r.to_quad_points()));
        let want = [x1, y1, x2, y1, x2, y2, x1, y2, y2, x2, y1, x2, y1, x1, y2, x1];
        let got = pdf::parse_chunk(ch.as_bytes()).map(|o| o[0].val.get("QuadPoints").cloned());
        let ok = match &got {
            Ok(Some(pdf::V::Arr(v))) => {
                v.len() == want.len() && v.iter().zip(&want).all(|(a, b)| match a {
                    pdf::V::Int(i) => *i as f32 == *b,
                    pdf::V::Real(r) => r.parse() == Ok(*b),
                    _ => false,
                })
            }
            _ => false,
        };
        let what = format!("quad points {x1} {y1} {x2} {y2}");
        c.check(ok, &what, || format!("{what}: {got:?}, expected {want:?}"));
        c.states_by_construction(1);
        c.steps(2);
        c.traces_n(1);
    });
    // The specification defines the opaque flag of transitions as a boolean.
    c.phase("opaque");
    for v in [0.0, 1.0] {
        let mut ch = Chunk::new();
        ch.indirect(Ref::new(1)).start::<Transition>().opaque(v);
        let o = pdf::parse_chunk(ch.as_bytes()).unwrap();
        let want = pdf::V::Bool(v != 0.0);
        c.check(o[0].val.get("B") == Some(&want), "Transition opaque value type", || {
            format!("Transition::opaque({v}) writes {:?}, the entry is a boolean", o[0].val.get("B"))
        });
    }
    c.finish()
}
