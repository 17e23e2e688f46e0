//! C22: document-structure writers emit the documented entries.
use mc::*;
use pdf_writer::*;

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C22");
    tab::explore(c, &tables::document());
    kinds::explore(
        c,
        &[
            "pages", "page", "outline", "outline_item", "destination", "destinations",
            "struct_element", "namespace", "metadata", "name_tree", "number_tree",
        ],
    );
    // The two objects only a document can start.
    c.phase("document");
    let n = kinds::KINDS.len();
    par(n * 8, |i| {
        let k = &kinds::KINDS[i / 8];
        let (info_first, extra, pretty) = (i & 1 > 0, i & 2 > 0, i & 4 > 0);
        let mut pdf = Pdf::with_settings(gen::settings(pretty));
        let mut order = vec![3, 4];
        if info_first {
            order.reverse();
        }
        for id in &order {
            if *id == 3 {
                let mut w = pdf.catalog(Ref::new(3));
                if extra {
                    w.version(2, 0);
                }
            } else {
                let mut w = pdf.document_info(Ref::new(4));
                if extra {
                    w.author(TextStr("a"));
                }
            }
            (k.write)(&mut pdf, Ref::new(id + 10));
        }
        let out = pdf.finish();
        let r = (|| -> Result<(), String> {
            let f = pdf::parse_doc(&out, None)?;
            let cat = model::x(if extra { "<</Type /Catalog /Version /2.0>>" } else { "<</Type /Catalog>>" });
            let info = model::x(if extra { "<</Author (a)>>" } else { "<<>>" });
            for (id, want) in [(3, cat), (4, info)] {
                let o = f.objs.iter().find(|o| o.num == id).ok_or("missing object")?;
                if !model::matches(&want, &o.val) {
                    return Err(format!("object {id}: expected {}", want.show()));
                }
            }
            Ok(())
        })();
        c.states_by_construction(1);
        c.steps(5);
        c.traces_n(1);
        let what = format!("{} info_first={info_first} extra={extra} pretty={pretty}", k.name);
        if let Err(e) = r {
            c.fail(&what, || format!("{what}: {e}\n{}", model::show_out(&out)));
        }
    });
    c.finish()
}
