//! C23: font, colour, image and resource writers emit the documented entries.
use mc::model::{self, X};
use mc::*;
use pdf_writer::writers::*;
use pdf_writer::*;

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C23");
    tab::explore(c, &tables::graphics());
    kinds::explore(
        c,
        &[
            "image_xobject", "form_xobject", "ext_graphics", "type1_font", "type3_font",
            "type0_font", "cid_font", "font_descriptor", "cmap", "color_space",
            "function_shading", "stream_shading", "tiling_pattern", "shading_pattern",
            "icc_profile", "sampled_function", "exponential_function", "stitching_function",
            "post_script_function",
        ],
    );
    calibrated(c);
    findings(c);
    c.finish()
}

/// The predefined calibrated spaces describe the colour spaces they are named
/// after: white point, gamma and primaries of the standards.
fn calibrated(c: &Ctx) {
    c.phase("predefined spaces");
    type Rgb = (&'static str, fn(ColorSpace), [f64; 3], f64, [(f64, f64); 3]);
    let d65 = [0.9505, 1.0, 1.0888];
    let d50 = [0.9642, 1.0, 0.8251];
    let cc = [0.9807, 1.0, 1.1822];
    let ee = [1.0, 1.0, 1.0];
    let rgbs: [Rgb; 7] = [
        ("srgb", |s| s.srgb(), d65, 2.2, [(0.64, 0.33), (0.30, 0.60), (0.15, 0.06)]),
        ("adobe_rgb", |s| s.adobe_rgb(), d65, 2.2, [(0.64, 0.33), (0.21, 0.71), (0.15, 0.06)]),
        ("display_p3", |s| s.display_p3(), d65, 2.6, [(0.68, 0.32), (0.265, 0.69), (0.15, 0.06)]),
        ("pro_photo", |s| s.pro_photo(), d50, 1.8, [(0.734699, 0.265301), (0.159597, 0.840403), (0.036598, 0.000105)]),
        ("eci_rgb", |s| s.eci_rgb(), d50, 1.8, [(0.67, 0.33), (0.21, 0.71), (0.14, 0.08)]),
        ("ntsc", |s| s.ntsc(), cc, 2.2, [(0.67, 0.33), (0.21, 0.71), (0.14, 0.08)]),
        ("pal", |s| s.pal(), d65, 2.2, [(0.64, 0.33), (0.29, 0.60), (0.15, 0.06)]),
    ];
    let num = |v: &pdf::V| -> Vec<f64> {
        match v {
            pdf::V::Arr(a) => a.iter().filter_map(tab_num).collect(),
            v => tab_num(v).into_iter().collect(),
        }
    };
    let read = |name: &str, f: &dyn Fn(ColorSpace), pretty: bool| -> Result<(Vec<u8>, pdf::V), String> {
        let mut ch = Chunk::with_settings(gen::settings(pretty));
        f(ch.color_space(Ref::new(1)));
        c.states_by_construction(1);
        c.steps(1);
        c.traces_n(1);
        let o = pdf::parse_chunk(ch.as_bytes())?;
        match &o[0].val {
            pdf::V::Arr(a) if a.len() == 2 => match &a[0] {
                pdf::V::Name(n) => Ok((n.clone(), a[1].clone())),
                _ => Err(format!("{name}: no family name")),
            },
            _ => Err(format!("{name}: not an array of two")),
        }
    };
    for (name, f, white, gamma, prim) in rgbs {
        for pretty in [false, true] {
            let r = read(name, &f, pretty).and_then(|(fam, d)| {
                let close = |a: &[f64], b: &[f64], eps: f64| {
                    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= eps)
                };
                let g = |k: &str| d.get(k).map(&num).unwrap_or_default();
                let (w, gm, m) = (g("WhitePoint"), g("Gamma"), g("Matrix"));
                if fam != b"CalRGB" {
                    return Err("family".into());
                }
                if let pdf::V::Dict(e) = &d {
                    if e.len() != 3 {
                        return Err("number of entries".into());
                    }
                }
                if !close(&w, &white, 0.002) {
                    return Err(format!("white point {w:?}, expected {white:?}"));
                }
                if !close(&gm, &[gamma; 3], 0.002) {
                    return Err(format!("gamma {gm:?}, expected {gamma}"));
                }
                if m.len() != 9 {
                    return Err(format!("matrix {m:?}"));
                }
                // Each column's chromaticity is the primary's; the columns add
                // up to the white point.
                for i in 0..3 {
                    let col = &m[3 * i..3 * i + 3];
                    let s: f64 = col.iter().sum();
                    if !close(&[col[0] / s, col[1] / s], &[prim[i].0, prim[i].1], 0.003) {
                        return Err(format!("primary {i}: {col:?} is {:.4} {:.4}", col[0] / s, col[1] / s));
                    }
                }
                let sum: Vec<f64> = (0..3).map(|j| m[j] + m[3 + j] + m[6 + j]).collect();
                if !close(&sum, &white, 0.003) {
                    return Err(format!("sum of columns {sum:?}"));
                }
                Ok(())
            });
            if let Err(e) = r {
                c.fail(&format!("predefined {name}"), || format!("ColorSpace::{name}: {e}"));
            }
        }
    }
    type Gray = (&'static str, fn(ColorSpace, Option<f32>), [f64; 3], bool);
    let grays: [Gray; 4] = [
        ("d65_gray", |s, _| s.d65_gray(), d65, true),
        ("d50_gray", |s, g| s.d50_gray(g), d50, false),
        ("c_gray", |s, _| s.c_gray(), cc, true),
        ("e_gray", |s, g| s.e_gray(g), ee, false),
    ];
    for (name, f, white, fixed) in grays {
        for gamma in [None, Some(0.0f32), Some(1.0), Some(2.2), Some(0.45), Some(-1.0), Some(1e9), Some(1e-9)] {
            for pretty in [false, true] {
                let r = read(name, &|s| f(s, gamma), pretty).and_then(|(fam, d)| {
                    let w = d.get("WhitePoint").map(&num).unwrap_or_default();
                    let want = if fixed { Some(2.2) } else { gamma };
                    let ok = fam == b"CalGray"
                        && matches!(&d, pdf::V::Dict(e) if e.len() == 1 + want.is_some() as usize)
                        && w.len() == 3
                        && (0..3).all(|i| (w[i] - white[i]).abs() <= 0.002)
                        && want.is_none_or(|g| d.get("Gamma").is_some_and(|v| model::matches(&X::F(g), v)));
                    if ok { Ok(()) } else { Err(format!("{d:?}")) }
                });
                if let Err(e) = r {
                    c.fail(&format!("predefined {name}"), || format!("ColorSpace::{name}({gamma:?}): {e}"));
                }
            }
        }
    }
}

fn tab_num(v: &pdf::V) -> Option<f64> {
    match v {
        pdf::V::Int(i) => Some(*i as f64),
        pdf::V::Real(s) => s.parse().ok(),
        _ => None,
    }
}

/// Entries whose typed call cannot write the specified type.
fn findings(c: &Ctx) {
    c.phase("entry types");
    let one = |f: &dyn Fn(&mut Chunk)| {
        let mut ch = Chunk::new();
        f(&mut ch);
        pdf::parse_chunk(ch.as_bytes()).unwrap().remove(0).val
    };
    let v = one(&|ch| {
        ch.indirect(Ref::new(1)).start::<ExtGraphicsState>().font(Name(b"F"), 2.0);
    });
    let f = v.get("Font").cloned();
    let ok = matches!(&f, Some(pdf::V::Arr(a)) if matches!(a[0], pdf::V::Ref(..)));
    c.check(ok, "ExtGraphicsState font type", || {
        format!("ExtGraphicsState::font writes {f:?}, the font must be an indirect reference")
    });
    // What the writers of these dictionaries accept as values is in their type.
    let mut ch = Chunk::new();
    let mut cs = ch.indirect(Ref::new(1)).start::<ColorSpace>().device_n([Name(b"a")]);
    cs.alternate_color_space_ref(Ref::new(2));
    cs.tint_ref(Ref::new(3));
    let mut attrs = cs.attrs();
    let t = std::any::type_name_of_val(&attrs.colorants());
    c.check(t.matches("Dict<").count() < 2, "DeviceNAttrs colorants value type", || {
        format!("DeviceNAttrs::colorants can only hold dictionaries ({t}), its values are Separation spaces")
    });
    let t = std::any::type_name_of_val(&attrs.mixing_hints().dot_gain());
    c.check(!t.contains("f32"), "DeviceNMixingHints dot gain value type", || {
        format!("DeviceNMixingHints::dot_gain can only hold numbers ({t}), its values are functions")
    });
}
