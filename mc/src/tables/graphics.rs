//! Fonts, colour spaces, patterns, shadings, functions, images, forms, groups,
//! graphics-state parameters, resources, output intents, decode parameters.
use crate::model::{x, X};
use crate::dom::{bytes, f32s, i32s, refs, slices, wide_list, wide_lists};
use crate::tab::*;
use crate::{stream_table, table, value_table};
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

fn n(s: &str) -> X {
    X::Name(s.as_bytes().to_vec())
}
const BYTES: &[u8] = &[0, 255, 32, 65, 127, 128];
const SHORTS: &[u16] = &[400, 0, 65535, 32767, 32768, 256, 255];

/// The device spaces of `alternate_device`. The crate does not export their
/// type, so that it can only be named by inference: this picks the variant with
/// the given name.
pub fn device<T: std::fmt::Debug + Copy>(variant: &str) -> T {
    assert_eq!(std::mem::size_of::<T>(), 1);
    (0..3u8)
        .map(|i| unsafe { std::mem::transmute_copy::<u8, T>(&i) })
        .find(|v| format!("{v:?}") == variant)
        .expect("no such device color space")
}

fn nonzero(i: usize) -> f32 {
    let v = f32s()[i];
    if v == 0.0 { 7.0 } else { v }
}
fn panose(i: usize) -> [u8; 12] {
    std::array::from_fn(|p| if p == i / 256 { i as u8 } else { p as u8 })
}

pub fn graphics() -> Vec<Table> {
    let mut o = vec![];
    fonts(&mut o);
    colors(&mut o);
    patterns(&mut o);
    functions(&mut o);
    xobjects(&mut o);
    states(&mut o);
    o
}

fn info_x(r: &[u8], d: &[u8], s: i32) -> X {
    X::Dict(vec![
        (b"Registry".to_vec(), X::Str(r.to_vec())),
        (b"Ordering".to_vec(), X::Str(d.to_vec())),
        (b"Supplement".to_vec(), X::I(s as i64)),
    ])
}

fn fonts(o: &mut Vec<Table>) {
    table!(o; Dict "Type1Font" "<</Type /Font /Subtype /Type1>>" Type1Font {
        name name "Name";
        name base_font "BaseFont";
        wide "first_char" "FirstChar" 256, |i| X::I(i as i64), |w| w.first_char(i as u8);
        do |t| { for v in BYTES { t.push(format!("first_char({v})"), vec![("FirstChar", X::I(*v as i64))], Box::new(move |w| { w.first_char(*v); })); } };
        wide "last_char" "LastChar" 256, |i| X::I(i as i64), |w| w.last_char(i as u8);
        do |t| { for v in BYTES { t.push(format!("last_char({v})"), vec![("LastChar", X::I(*v as i64))], Box::new(move |w| { w.last_char(*v); })); } };
        f32s widths "Widths";
        refr font_descriptor "FontDescriptor";
        name encoding_predefined "Encoding";
        sub encoding_custom "Encoding" "<</Type /Encoding>>";
        refr to_unicode "ToUnicode";
    });
    table!(o; Dict "Type3Font" "<</Type /Font /Subtype /Type3>>" Type3Font {
        name name "Name";
        rect bbox "FontBBox";
        arr 6 matrix "FontMatrix";
        call "char_procs+" {"CharProcs": "<</a 7 0 R / 1 0 R>>"} |w| { w.char_procs().pair(Name(b"a"), Ref::new(7)).pair(Name(b""), Ref::new(1)); };
        also "char_procs" {"CharProcs": "<<>>"} |w| { w.char_procs(); };
        wide "first_char" "FirstChar" 256, |i| X::I(i as i64), |w| w.first_char(i as u8);
        do |t| { for v in BYTES { t.push(format!("first_char({v})"), vec![("FirstChar", X::I(*v as i64))], Box::new(move |w| { w.first_char(*v); })); } };
        wide "last_char" "LastChar" 256, |i| X::I(i as i64), |w| w.last_char(i as u8);
        do |t| { for v in BYTES { t.push(format!("last_char({v})"), vec![("LastChar", X::I(*v as i64))], Box::new(move |w| { w.last_char(*v); })); } };
        f32s widths "Widths";
        refr font_descriptor "FontDescriptor";
        name encoding_predefined "Encoding";
        sub encoding_custom "Encoding" "<</Type /Encoding>>";
        sub resources "Resources" "<<>>";
        refr to_unicode "ToUnicode";
    });
    table!(o; Dict "Encoding" "<</Type /Encoding>>" Encoding {
        name base_encoding "BaseEncoding";
        call "differences+" {"Differences": "[0 /a / 255]"} |w| {
            w.differences().consecutive(0, [Name(b"a"), Name(b"")]).consecutive(255, []);
        };
        also "differences" {"Differences": "[]"} |w| { w.differences(); };
    });
    table!(o; Dict "Type0Font" "<</Type /Font /Subtype /Type0>>" Type0Font {
        name base_font "BaseFont";
        name encoding_predefined "Encoding";
        refr encoding_cmap "Encoding";
        do |t| { for v in REFS { t.push(format!("descendant_font({v})"), vec![("DescendantFonts", X::Arr(vec![X::Ref(*v as i64)]))], Box::new(move |w| { w.descendant_font(Ref::new(*v)); })); } };
        refr to_unicode "ToUnicode";
    });
    table!(o; Dict "CidFont" "<</Type /Font>>" CidFont {
        en subtype "Subtype" { CidFontType::Type0 => "/CIDFontType0", CidFontType::Type2 => "/CIDFontType2" };
        name base_font "BaseFont";
        wide "system_info.registry" "CIDSystemInfo" bytes().len(), |i| info_x(&bytes()[i], b"x", 3), |w| w.system_info(SystemInfo { registry: Str(&bytes()[i]), ordering: Str(b"x"), supplement: 3 });
        wide "system_info.ordering" "CIDSystemInfo" bytes().len(), |i| info_x(b"x", &bytes()[i], 3), |w| w.system_info(SystemInfo { registry: Str(b"x"), ordering: Str(&bytes()[i]), supplement: 3 });
        wide "system_info.supplement" "CIDSystemInfo" i32s().len(), |i| info_x(b"Adobe", b"Identity", i32s()[i]), |w| w.system_info(SystemInfo { registry: Str(b"Adobe"), ordering: Str(b"Identity"), supplement: i32s()[i] });
        do |t| {
            for r in STRS { for d in STRS { for s in [0, 7, i32::MAX] {
                t.push(format!("system_info({r:?}, {d:?}, {s})"), vec![("CIDSystemInfo", info_x(r, d, s))], Box::new(move |w| {
                    w.system_info(SystemInfo { registry: Str(r), ordering: Str(d), supplement: s });
                }));
            } } }
        };
        refr font_descriptor "FontDescriptor";
        f32 default_width "DW";
        call "widths+" {"W": "[0 [1.0 2.5] 65535 [] 3 4 -1.0]"} |w| {
            w.widths().consecutive(0, [1.0, 2.5]).consecutive(65535, []).same(3, 4, -1.0);
        };
        also "widths" {"W": "[]"} |w| { w.widths(); };
        name cid_to_gid_map_predefined "CIDToGIDMap";
        refr cid_to_gid_map_stream "CIDToGIDMap";
    });
    table!(o; Dict "FontDescriptor" "<</Type /FontDescriptor>>" FontDescriptor {
        name name "FontName";
        str family "FontFamily";
        en stretch "FontStretch" {
            FontStretch::UltraCondensed => "/UltraCondensed", FontStretch::ExtraCondensed => "/ExtraCondensed",
            FontStretch::Condensed => "/Condensed", FontStretch::SemiCondensed => "/SemiCondensed",
            FontStretch::Normal => "/Normal", FontStretch::SemiExpanded => "/SemiExpanded",
            FontStretch::Expanded => "/Expanded", FontStretch::ExtraExpanded => "/ExtraExpanded",
            FontStretch::UltraExpanded => "/UltraExpanded" };
        wide "weight" "FontWeight" 1 << 16, |i| X::I(i as i64), |w| w.weight(i as u16);
        do |t| { for v in SHORTS { t.push(format!("weight({v})"), vec![("FontWeight", X::I(*v as i64))], Box::new(move |w| { w.weight(*v); })); } };
        flags flags "Flags" FontFlags;
        rect bbox "FontBBox";
        f32 italic_angle "ItalicAngle";
        f32 ascent "Ascent";
        f32 descent "Descent";
        f32 leading "Leading";
        f32 cap_height "CapHeight";
        f32 x_height "XHeight";
        f32 stem_v "StemV";
        f32 stem_h "StemH";
        f32 avg_width "AvgWidth";
        f32 max_width "MaxWidth";
        f32 missing_width "MissingWidth";
        refr font_file "FontFile";
        refr font_file2 "FontFile2";
        refr font_file3 "FontFile3";
        str char_set "CharSet";
        wide "style" "Style" 12 * 256, |i| X::Dict(vec![(b"Panose".to_vec(), X::Str(panose(i).to_vec()))]), |w| { let p = panose(i); w.style(p[0], p[1], p[2..].try_into().unwrap()) };
        do |t| {
            for (c, s, p) in [(1u8, 2u8, [3u8, 4, 5, 6, 7, 8, 9, 10, 11, 12]), (0, 0, [0; 10]), (255, 254, [40, 41, 92, 13, 10, 0, 128, 255, 9, 32]), (40, 41, [41; 10])] {
                let mut b = vec![c, s];
                b.extend(p);
                t.push(format!("style({c}, {s}, {p:?})"), vec![("Style", X::Dict(vec![(b"Panose".to_vec(), X::Str(b))]))], Box::new(move |w| { w.style(c, s, p); }));
            }
        };
        sub descriptor_override "FD" "<<>>";
        refr cid_set "CIDSet";
    });
    table!(o; Dict "FontDescriptorOverride" "<<>>" FontDescriptorOverride {
        do |t| {
            type F = fn() -> CjkClass;
            let classes: [(&str, F); 19] = [
                ("Alphabetic", || CjkClass::Alphabetic), ("AlphaNum", || CjkClass::AlphaNum),
                ("Dingbats", || CjkClass::Dingbats), ("DingbatsRot", || CjkClass::DingbatsRot),
                ("Generic", || CjkClass::Generic), ("GenericRot", || CjkClass::GenericRot),
                ("Hangul", || CjkClass::Hangul), ("Hanja", || CjkClass::Hanja),
                ("Hanzi", || CjkClass::Hanzi), ("HRoman", || CjkClass::HRoman),
                ("HRomanRot", || CjkClass::HRomanRot), ("HKana", || CjkClass::HKana),
                ("HKanaRot", || CjkClass::HKanaRot), ("HojoKanji", || CjkClass::HojoKanji),
                ("Kana", || CjkClass::Kana), ("Kanji", || CjkClass::Kanji),
                ("Proportional", || CjkClass::Proportional),
                ("ProportionalRot", || CjkClass::ProportionalRot), ("Ruby", || CjkClass::Ruby),
            ];
            for (k, c) in classes {
                t.next();
                t.push(format!("cjk_class({k}).ascent"), vec![(k, x("<</Type /FontDescriptor /Ascent 2.0>>"))], Box::new(move |w| { w.cjk_class(c()).ascent(2.0); }));
                t.push(format!("cjk_class({k})"), vec![(k, x("<</Type /FontDescriptor>>"))], Box::new(move |w| { w.cjk_class(c()); }));
                for r in REFS {
                    t.push(format!("cjk_class_ref({k}, {r})"), vec![(k, X::Ref(*r as i64))], Box::new(move |w| { w.cjk_class_ref(c(), Ref::new(*r)); }));
                }
            }
            for k in ["My", "", "a b"] {
                t.next();
                t.push(format!("custom_class({k:?})"), vec![(k, x("<</Type /FontDescriptor>>"))], Box::new(move |w| { w.custom_class(Name(k.as_bytes())); }));
                t.push(format!("custom_class({k:?}).descent"), vec![(k, x("<</Type /FontDescriptor /Descent 2.0>>"))], Box::new(move |w| { w.custom_class(Name(k.as_bytes())).descent(2.0); }));
                t.push(format!("custom_class_ref({k:?})"), vec![(k, X::Ref(6))], Box::new(move |w| { w.custom_class_ref(Name(k.as_bytes()), Ref::new(6)); }));
            }
        };
    });
    stream_table!(o; "Cmap" "<</Type /CMap>>" Cmap |ch, id, d| ch.cmap(id, d), {
        name name "CMapName";
        wide "system_info.registry" "CIDSystemInfo" bytes().len(), |i| info_x(&bytes()[i], b"x", 3), |w| w.system_info(SystemInfo { registry: Str(&bytes()[i]), ordering: Str(b"x"), supplement: 3 });
        wide "system_info.ordering" "CIDSystemInfo" bytes().len(), |i| info_x(b"x", &bytes()[i], 3), |w| w.system_info(SystemInfo { registry: Str(b"x"), ordering: Str(&bytes()[i]), supplement: 3 });
        wide "system_info.supplement" "CIDSystemInfo" i32s().len(), |i| info_x(b"Adobe", b"Identity", i32s()[i]), |w| w.system_info(SystemInfo { registry: Str(b"Adobe"), ordering: Str(b"Identity"), supplement: i32s()[i] });
        do |t| {
            for r in STRS { for d in STRS { for s in [0, -1, i32::MAX] {
                t.push(format!("system_info({r:?}, {d:?}, {s})"), vec![("CIDSystemInfo", info_x(r, d, s))], Box::new(move |w| {
                    w.system_info(SystemInfo { registry: Str(r), ordering: Str(d), supplement: s });
                }));
            } } }
        };
        call "writing_mode(Horizontal)" {"WMode": 0} |w| { w.writing_mode(WMode::Horizontal); };
        also "writing_mode(Vertical)" {"WMode": 1} |w| { w.writing_mode(WMode::Vertical); };
        refr use_cmap_stream "UseCMap";
        name use_cmap_predefined "UseCMap";
    });
}

fn cal(kind: &str, e: Vec<(&str, X)>) -> X {
    X::Arr(vec![
        n(kind),
        X::Dict(e.into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v)).collect()),
    ])
}

fn colors(o: &mut Vec<Table>) {
    value_table!(o; "ColorSpace" {
        "icc_based", "[/ICCBased 5 0 R]" => |o| o.start::<ColorSpace>().icc_based(Ref::new(5));
        "device_rgb", "/DeviceRGB" => |o| o.start::<ColorSpace>().device_rgb();
        "device_cmyk", "/DeviceCMYK" => |o| o.start::<ColorSpace>().device_cmyk();
        "device_gray", "/DeviceGray" => |o| o.start::<ColorSpace>().device_gray();
        "pattern", "[/Pattern /DeviceRGB]" => |o| o.start::<ColorSpace>().pattern(Name(b"DeviceRGB"));
        "pattern()", "[/Pattern /]" => |o| o.start::<ColorSpace>().pattern(Name(b""));
        "indexed", "[/Indexed /DeviceRGB 1 (\\000\\377\\\\\\)\\()]" => |o| o.start::<ColorSpace>().indexed(Name(b"DeviceRGB"), 1, b"\x00\xff\\)(");
        "indexed()", "[/Indexed / 255 ()]" => |o| o.start::<ColorSpace>().indexed(Name(b""), 255, b"");
        "indexed crlf", "[/Indexed /a 0 <0d0a0d>]" => |o| o.start::<ColorSpace>().indexed(Name(b"a"), 0, b"\r\n\r");
        "separation device", "[/Separation /Spot#20One /DeviceCMYK 6 0 R]" => |o| {
            o.start::<ColorSpace>().separation(Name(b"Spot One")).alternate_device(device("Cmyk")).tint_ref(Ref::new(6));
        };
        "separation ref, exponential", "[/Separation / 7 0 R <</FunctionType 2 /N 2.0>>]" => |o| {
            o.start::<ColorSpace>().separation(Name(b"")).alternate_color_space_ref(Ref::new(7)).tint_exponential().n(2.0);
        };
        "separation array, stitching", "[/Separation /S [/ICCBased 8 0 R] <</FunctionType 3 /Functions [6 0 R]>>]" => |o| {
            let mut s = o.start::<ColorSpace>().separation(Name(b"S"));
            s.alternate_color_space().icc_based(Ref::new(8));
            s.tint_stitching().functions([Ref::new(6)]);
        };
        "device_n device", "[/DeviceN [/a / /b#20c] /DeviceGray 6 0 R]" => |o| {
            o.start::<ColorSpace>().device_n([Name(b"a"), Name(b""), Name(b"b c")]).alternate_device(device("Gray")).tint_ref(Ref::new(6));
        };
        "device_n attrs", "[/DeviceN [] /DeviceRGB <</FunctionType 2>> <</Subtype /NChannel>>]" => |o| {
            let mut d = o.start::<ColorSpace>().device_n([]);
            d.alternate_device(device("Rgb"));
            d.tint_exponential();
            d.attrs().subtype(DeviceNSubtype::NChannel);
        };
    });
    // Calibrated spaces with all choices of optional entries.
    let mut t: Tab<dyn for<'a> Fn(Obj<'a>) + Send + Sync, dyn for<'a> Fn(Obj<'a>, usize) + Send + Sync> = Tab::new();
    let w = [0.5, 1.0, 0.25];
    let b = [0.0, 0.125, 2.0];
    for m in 0..8 {
        let (bp, g, mx) = (m & 1 > 0, m & 2 > 0, m & 4 > 0);
        let mut e = vec![("WhitePoint", f32s_x(&w))];
        if bp {
            e.push(("BlackPoint", f32s_x(&b)));
        }
        let mut rgb = e.clone();
        let mut gray = e.clone();
        let mut lab = e;
        let gamma = [2.2, 1.5, 0.5];
        let matrix: [f32; 9] = std::array::from_fn(|i| i as f32 + 0.5);
        let range = [-100.0, 100.0, -50.5, 0.0];
        if g {
            rgb.push(("Gamma", f32s_x(&gamma)));
            gray.push(("Gamma", X::F(1.75)));
            lab.push(("Range", f32s_x(&range)));
        }
        if mx {
            rgb.push(("Matrix", f32s_x(&matrix)));
        }
        t.next();
        t.push(format!("cal_rgb {m:03b}"), vec![("", cal("CalRGB", rgb))], Box::new(move |o| {
            o.start::<ColorSpace>().cal_rgb(w, bp.then_some(b), g.then_some(gamma), mx.then_some(matrix))
        }));
        if !mx {
            t.next();
            t.push(format!("cal_gray {m:03b}"), vec![("", cal("CalGray", gray))], Box::new(move |o| {
                o.start::<ColorSpace>().cal_gray(w, bp.then_some(b), g.then_some(1.75))
            }));
            t.next();
            t.push(format!("lab {m:03b}"), vec![("", cal("Lab", lab))], Box::new(move |o| {
                o.start::<ColorSpace>().lab(w, bp.then_some(b), g.then_some(range))
            }));
        }
    }
    for v in I32S {
        for name in NAMES {
            for s in STRS {
                let want = X::Arr(vec![n("Indexed"), X::Name(name.to_vec()), X::I(*v as i64), X::Str(s.to_vec())]);
                t.next();
                t.push(format!("indexed({:?}, {v}, {s:?})", Name(name)), vec![("", want)], Box::new(move |o| {
                    o.start::<ColorSpace>().indexed(Name(name), *v, s)
                }));
            }
        }
    }
    for l in lists(NAMES) {
        for d in 0..3 {
            let dev = ["DeviceRGB", "DeviceCMYK", "DeviceGray"][d];
            let id = ["Rgb", "Cmyk", "Gray"][d];
            let want = X::Arr(vec![
                n("DeviceN"),
                X::Arr(l.iter().map(|s| X::Name(s.to_vec())).collect()),
                n(dev),
                X::Ref(9),
            ]);
            let l2 = l.clone();
            t.next();
            t.push(format!("device_n {dev} {l:?}"), vec![("", want)], Box::new(move |o| {
                o.start::<ColorSpace>().device_n(crate::tab::user(l2.iter().map(|s| Name(s)))).alternate_device(device(id)).tint_ref(Ref::new(9));
            }));
            let name = l.first().copied().unwrap_or(b"None");
            let want = X::Arr(vec![n("Separation"), X::Name(name.to_vec()), n(dev), X::Ref(9)]);
            t.next();
            t.push(format!("separation {dev} {:?}", Name(name)), vec![("", want)], Box::new(move |o| {
                o.start::<ColorSpace>().separation(Name(name)).alternate_device(device(id)).tint_ref(Ref::new(9));
            }));
        }
    }
    // Every argument over a wide domain.
    let nf = f32s().len();
    let at = move |k: usize, i: usize| -> Vec<f32> { (0..k).map(|p| if p == i / nf { f32s()[i % nf] } else { 0.5 }).collect() };
    fn arr<const N: usize>(v: &[f32]) -> [f32; N] {
        v.try_into().unwrap()
    }
    t.wide("cal_rgb", "", 18 * nf, move |i| {
        let v = at(18, i);
        cal("CalRGB", vec![("WhitePoint", f32s_x(&v[..3])), ("BlackPoint", f32s_x(&v[3..6])), ("Gamma", f32s_x(&v[6..9])), ("Matrix", f32s_x(&v[9..]))])
    }, Box::new(move |o, i| {
        let v = at(18, i);
        o.start::<ColorSpace>().cal_rgb(arr(&v[..3]), Some(arr(&v[3..6])), Some(arr(&v[6..9])), Some(arr(&v[9..])))
    }));
    t.wide("cal_gray", "", 7 * nf, move |i| {
        let v = at(7, i);
        cal("CalGray", vec![("WhitePoint", f32s_x(&v[..3])), ("BlackPoint", f32s_x(&v[3..6])), ("Gamma", X::F(v[6]))])
    }, Box::new(move |o, i| {
        let v = at(7, i);
        o.start::<ColorSpace>().cal_gray(arr(&v[..3]), Some(arr(&v[3..6])), Some(v[6]))
    }));
    t.wide("lab", "", 10 * nf, move |i| {
        let v = at(10, i);
        cal("Lab", vec![("WhitePoint", f32s_x(&v[..3])), ("BlackPoint", f32s_x(&v[3..6])), ("Range", f32s_x(&v[6..]))])
    }, Box::new(move |o, i| {
        let v = at(10, i);
        o.start::<ColorSpace>().lab(arr(&v[..3]), Some(arr(&v[3..6])), Some(arr(&v[6..])))
    }));
    t.wide("icc_based", "", refs().len(), |i| X::Arr(vec![n("ICCBased"), X::Ref(refs()[i] as i64)]), Box::new(|o, i| o.start::<ColorSpace>().icc_based(Ref::new(refs()[i]))));
    let name = |i: usize| X::Name(bytes()[i].clone());
    let nb = bytes().len();
    t.wide("pattern", "", nb, move |i| X::Arr(vec![n("Pattern"), name(i)]), Box::new(|o, i| o.start::<ColorSpace>().pattern(Name(&bytes()[i]))));
    t.wide("indexed base", "", nb, move |i| X::Arr(vec![n("Indexed"), name(i), X::I(1), X::Str(b"ab".to_vec())]), Box::new(|o, i| o.start::<ColorSpace>().indexed(Name(&bytes()[i]), 1, b"ab")));
    t.wide("indexed hival", "", i32s().len(), |i| X::Arr(vec![n("Indexed"), n("DeviceRGB"), X::I(i32s()[i] as i64), X::Str(b"ab".to_vec())]), Box::new(|o, i| o.start::<ColorSpace>().indexed(Name(b"DeviceRGB"), i32s()[i], b"ab")));
    t.wide("indexed lookup", "", nb, |i| X::Arr(vec![n("Indexed"), n("DeviceRGB"), X::I(1), X::Str(bytes()[i].clone())]), Box::new(|o, i| o.start::<ColorSpace>().indexed(Name(b"DeviceRGB"), 1, &bytes()[i])));
    t.wide("separation", "", nb, move |i| X::Arr(vec![n("Separation"), name(i), n("DeviceCMYK"), X::Ref(6)]), Box::new(|o, i| {
        o.start::<ColorSpace>().separation(Name(&bytes()[i])).alternate_device(device("Cmyk")).tint_ref(Ref::new(6));
    }));
    t.wide("device_n", "", nb, move |i| X::Arr(vec![n("DeviceN"), X::Arr(vec![name(i)]), n("DeviceGray"), X::Ref(6)]), Box::new(|o, i| {
        o.start::<ColorSpace>().device_n([Name(&bytes()[i])]).alternate_device(device("Gray")).tint_ref(Ref::new(6));
    }));
    t.wide("device_n list", "", wide_lists(NAMES, slices()), |i| X::Arr(vec![n("DeviceN"), X::Arr(wide_list(NAMES, slices(), i).iter().map(|v| X::Name(v.to_vec())).collect()), n("DeviceGray"), X::Ref(6)]), Box::new(|o, i| {
        let l = wide_list(NAMES, slices(), i);
        o.start::<ColorSpace>().device_n(l.iter().map(|v| Name(v))).alternate_device(device("Gray")).tint_ref(Ref::new(6));
    }));
    t.wide("separation refs", "", refs().len(), |i| X::Arr(vec![n("Separation"), n("a"), X::Ref(refs()[i] as i64), X::Ref(refs()[refs().len() - 1 - i] as i64)]), Box::new(|o, i| {
        o.start::<ColorSpace>().separation(Name(b"a")).alternate_color_space_ref(Ref::new(refs()[i])).tint_ref(Ref::new(refs()[refs().len() - 1 - i]));
    }));
    let Tab { vars, calls, wide, wcalls, .. } = t;
    o.push(Table {
        name: "ColorSpace (calibrated, indexed, special)",
        kind: Kind::Value,
        base: X::Null,
        vars,
        stream: false,
        wide,
        run_wide: Box::new(move |ch, place, m, i| with_obj(ch, place, |obj| wcalls[m](obj, i))),
        run: Box::new(move |ch, place, seq| with_obj(ch, place, |obj| calls[seq[0]](obj))),
    });
    table!(o; Dict "DeviceNAttrs" "<<>>" DeviceNAttrs {
        en subtype "Subtype" { DeviceNSubtype::DeviceN => "/DeviceN", DeviceNSubtype::NChannel => "/NChannel" };
        call "colorants" {"Colorants": "<<>>"} |w| { w.colorants(); };
        call "process" {"Process": "<<>>"} |w| { w.process(); };
        also "process+" {"Process": "<</ColorSpace /DeviceCMYK>>"} |w| { w.process().color_space(Name(b"DeviceCMYK")); };
        call "mixing_hints" {"MixingHints": "<<>>"} |w| { w.mixing_hints(); };
        also "mixing_hints+" {"MixingHints": "<</Solidities <</a 0.5>> /PrintingOrder [/a]>>"} |w| {
            let mut m = w.mixing_hints();
            m.solidities().pair(Name(b"a"), 0.5);
            m.printing_order([Name(b"a")]);
        };
    });
    table!(o; Dict "DeviceNProcess" "<<>>" DeviceNProcess {
        name color_space "ColorSpace";
        call "color_space_array" {"ColorSpace": "[/ICCBased 3 0 R]"} |w| w.color_space_array().icc_based(Ref::new(3));
        names components "Components";
    });
    table!(o; Dict "DeviceNMixingHints" "<<>>" DeviceNMixingHints {
        call "solidities" {"Solidities": "<<>>"} |w| { w.solidities(); };
        also "solidities+" {"Solidities": "<</a 0.0 / 1.0 /Default 0.5>>"} |w| { w.solidities().pairs([(Name(b"a"), 0.0), (Name(b""), 1.0), (Name(b"Default"), 0.5)]); };
        names printing_order "PrintingOrder";
        call "dot_gain" {"DotGain": "<<>>"} |w| { w.dot_gain(); };
    });
    stream_table!(o; "IccProfile" "<<>>" IccProfile |ch, id, d| ch.icc_profile(id, d), {
        do |t| { for v in [1, 3, 4] { t.push(format!("n({v})"), vec![("N", X::I(v as i64))], Box::new(move |w| { w.n(v); })); } };
        call "alternate.device_cmyk" {"Alternate": "/DeviceCMYK"} |w| w.alternate().device_cmyk();
        also "alternate.lab" {"Alternate": "[/Lab <</WhitePoint [1.0 1.0 1.0]>>]"} |w| w.alternate().lab([1.0; 3], None, None);
        name alternate_name "Alternate";
        f32s range "Range";
        refr metadata "Metadata";
    });
    table!(o; Dict "SeparationInfo" "<<>>" SeparationInfo {
        refs pages "Pages";
        name device_colorant "DeviceColorant";
        wide "device_colorant_str" "DeviceColorant" crate::dom::texts().len(), |i| X::Text(crate::dom::texts()[i].clone()), |w| w.device_colorant_str(&crate::dom::texts()[i]);
        do |t| { for v in TEXTS { t.push(format!("device_colorant_str({v:?})"), vec![("DeviceColorant", X::Text(v.to_string()))], Box::new(move |w| { w.device_colorant_str(v); })); } };
        call "color_space" {"ColorSpace": "[/Separation /a /DeviceGray 7 0 R]"} |w| {
            w.color_space().separation(Name(b"a")).alternate_device(device("Gray")).tint_ref(Ref::new(7));
        };
    });
    table!(o; Dict "OutputIntent" "<</Type /OutputIntent>>" OutputIntent {
        en subtype "S" { OutputIntentSubtype::PDFX => "/GTS_PDFX", OutputIntentSubtype::PDFA => "/GTS_PDFA1",
            OutputIntentSubtype::PDFE => "/ISO_PDFE1", OutputIntentSubtype::Custom(Name(b"a b")) => "/a#20b",
            OutputIntentSubtype::Custom(Name(b"")) => "/" };
        ltext output_condition "OutputCondition";
        ltext output_condition_identifier "OutputConditionIdentifier";
        text registry_name "RegistryName";
        ltext info "Info";
        refr dest_output_profile "DestOutputProfile";
    });
}

fn patterns(o: &mut Vec<Table>) {
    stream_table!(o; "TilingPattern" "<</Type /Pattern /PatternType 1>>" TilingPattern |ch, id, d| ch.tiling_pattern(id, d), {
        en paint_type "PaintType" { PaintType::Colored => 1, PaintType::Uncolored => 2 };
        en tiling_type "TilingType" { TilingType::ConstantSpacing => 1, TilingType::NoDistortion => 2,
            TilingType::FastConstantSpacing => 3 };
        rect bbox "BBox";
        wide "x_step" "XStep" f32s().len(), |i| X::F(nonzero(i)), |w| w.x_step(nonzero(i));
        do |t| { for v in F32S.iter().filter(|v| **v != 0.0) { t.push(format!("x_step({v})"), vec![("XStep", X::F(*v))], Box::new(move |w| { w.x_step(*v); })); } };
        wide "y_step" "YStep" f32s().len(), |i| X::F(nonzero(i)), |w| w.y_step(nonzero(i));
        do |t| { for v in F32S.iter().filter(|v| **v != 0.0) { t.push(format!("y_step({v})"), vec![("YStep", X::F(*v))], Box::new(move |w| { w.y_step(*v); })); } };
        sub resources "Resources" "<<>>";
        arr 6 matrix "Matrix";
    });
    table!(o; Dict "ShadingPattern" "<</Type /Pattern /PatternType 2>>" ShadingPattern {
        sub function_shading "Shading" "<<>>";
        refr shading_ref "Shading";
        arr 6 matrix "Matrix";
        sub ext_graphics "ExtGState" "<</Type /ExtGState>>";
    });
    table!(o; Dict "FunctionShading" "<<>>" FunctionShading {
        en shading_type "ShadingType" { FunctionShadingType::Function => 1, FunctionShadingType::Axial => 2,
            FunctionShadingType::Radial => 3 };
        call "color_space.device_rgb" {"ColorSpace": "/DeviceRGB"} |w| w.color_space().device_rgb();
        also "color_space.icc" {"ColorSpace": "[/ICCBased 3 0 R]"} |w| w.color_space().icc_based(Ref::new(3));
        f32s background "Background";
        rect bbox "BBox";
        bool anti_alias "AntiAlias";
        arr 4 domain "Domain";
        arr 6 matrix "Matrix";
        refr function "Function";
        f32s coords "Coords";
        do |t| { for i in 0..4 { let v = [i & 1 > 0, i & 2 > 0]; t.push(format!("extend({v:?})"), vec![("Extend", X::Arr(v.map(X::Bool).to_vec()))], Box::new(move |w| { w.extend(v); })); } };
    });
    stream_table!(o; "StreamShading" "<<>>" StreamShading |ch, id, d| ch.stream_shading(id, d), {
        en shading_type "ShadingType" { StreamShadingType::FreeformGouraud => 4,
            StreamShadingType::LatticeGouraud => 5, StreamShadingType::CoonsPatch => 6,
            StreamShadingType::TensorProductPatch => 7 };
        call "color_space.device_gray" {"ColorSpace": "/DeviceGray"} |w| w.color_space().device_gray();
        also "color_space.indexed" {"ColorSpace": "[/Indexed /a 0 (b)]"} |w| w.color_space().indexed(Name(b"a"), 0, b"b");
        f32s background "Background";
        rect bbox "BBox";
        bool anti_alias "AntiAlias";
        refr function "Function";
        i32 bits_per_coordinate "BitsPerCoordinate";
        i32 bits_per_component "BitsPerComponent";
        i32 bits_per_flag "BitsPerFlag";
        f32s decode "Decode";
        i32 vertices_per_row "VerticesPerRow";
    });
}

fn functions(o: &mut Vec<Table>) {
    stream_table!(o; "SampledFunction" "<</FunctionType 0>>" SampledFunction |ch, id, d| ch.sampled_function(id, d), {
        f32s domain "Domain";
        f32s range "Range";
        i32s size "Size";
        i32 bits_per_sample "BitsPerSample";
        en order "Order" { InterpolationOrder::Linear => 1, InterpolationOrder::Cubic => 3 };
        f32s encode "Encode";
        f32s decode "Decode";
    });
    table!(o; Dict "ExponentialFunction" "<</FunctionType 2>>" ExponentialFunction {
        f32s domain "Domain";
        f32s range "Range";
        f32s c0 "C0";
        f32s c1 "C1";
        f32 n "N";
    });
    table!(o; Dict "StitchingFunction" "<</FunctionType 3>>" StitchingFunction {
        f32s domain "Domain";
        f32s range "Range";
        refs functions "Functions";
        f32s bounds "Bounds";
        f32s encode "Encode";
    });
    stream_table!(o; "PostScriptFunction" "<</FunctionType 4>>" PostScriptFunction |ch, id, d| ch.post_script_function(id, d), {
        f32s domain "Domain";
        f32s range "Range";
    });
}

fn xobjects(o: &mut Vec<Table>) {
    stream_table!(o; "ImageXObject" "<</Type /XObject /Subtype /Image>>" ImageXObject |ch, id, d| ch.image_xobject(id, d), {
        i32 width "Width";
        i32 height "Height";
        call "color_space.device_rgb" {"ColorSpace": "/DeviceRGB"} |w| w.color_space().device_rgb();
        also "color_space.pattern" {"ColorSpace": "[/Pattern /a]"} |w| w.color_space().pattern(Name(b"a"));
        name color_space_name "ColorSpace";
        i32 bits_per_component "BitsPerComponent";
        en intent "Intent" { RenderingIntent::AbsoluteColorimetric => "/AbsoluteColorimetric",
            RenderingIntent::RelativeColorimetric => "/RelativeColorimetric",
            RenderingIntent::Saturation => "/Saturation", RenderingIntent::Perceptual => "/Perceptual" };
        bool image_mask "ImageMask";
        i32s color_mask "Mask";
        refr stencil_mask "Mask";
        f32s decode "Decode";
        bool interpolate "Interpolate";
        refs alternates "Alternates";
        refr s_mask "SMask";
        en s_mask_in_data "SMaskInData" { SMaskInData::Ignore => 0, SMaskInData::Use => 1, SMaskInData::Preblended => 2 };
        i32 struct_parent "StructParent";
        f32s matte "Matte";
        refr metadata "Metadata";
        subs associated_files "AF" "<</Type /Filespec>>";
        call "filter" {"Filter": "/DCTDecode"} |w| { w.filter(Filter::DctDecode); };
        sub decode_parms "DecodeParms" "<<>>";
    });
    stream_table!(o; "FormXObject" "<</Type /XObject /Subtype /Form>>" FormXObject |ch, id, d| ch.form_xobject(id, d), {
        rect bbox "BBox";
        arr 6 matrix "Matrix";
        sub resources "Resources" "<<>>";
        sub group "Group" "<</Type /Group>>";
        i32 struct_parent "StructParent";
        i32 struct_parents "StructParents";
        sub reference "Ref" "<<>>";
        refr metadata "Metadata";
        date last_modified "LastModified";
        subs associated_files "AF" "<</Type /Filespec>>";
    });
    table!(o; Dict "Group" "<</Type /Group>>" Group {
        unit transparency "S" "/Transparency";
        call "color_space.device_rgb" {"CS": "/DeviceRGB"} |w| w.color_space().device_rgb();
        also "color_space.icc" {"CS": "[/ICCBased 3 0 R]"} |w| w.color_space().icc_based(Ref::new(3));
        bool isolated "I";
        bool knockout "K";
    });
    table!(o; Dict "Reference" "<<>>" Reference {
        sub file_spec "F" "<</Type /Filespec>>";
        i32 page_number "Page";
        ltext page_label "Page";
        wide "id first" "ID" bytes().len(), |i| X::Arr(vec![X::Str(bytes()[i].clone()), X::Str(b"x".to_vec())]), |w| w.id([Str(&bytes()[i]), Str(b"x")]);
        wide "id second" "ID" bytes().len(), |i| X::Arr(vec![X::Str(b"x".to_vec()), X::Str(bytes()[i].clone())]), |w| w.id([Str(b"x"), Str(&bytes()[i])]);
        wide "id same" "ID" bytes().len(), |i| X::Arr(vec![X::Str(bytes()[i].clone()); 2]), |w| w.id([Str(&bytes()[i]); 2]);
        do |t| {
            for a in STRS { for b in STRS {
                t.push(format!("id({a:?}, {b:?})"), vec![("ID", X::Arr(vec![X::Str(a.to_vec()), X::Str(b.to_vec())]))], Box::new(move |w| { w.id([Str(a), Str(b)]); }));
            } }
        };
    });
    stream_table!(o; "Stream" "<<>>" Stream |ch, id, d| ch.stream(id, d), {
        en filter "Filter" {
            Filter::AsciiHexDecode => "/ASCIIHexDecode", Filter::Ascii85Decode => "/ASCII85Decode",
            Filter::LzwDecode => "/LZWDecode", Filter::FlateDecode => "/FlateDecode",
            Filter::RunLengthDecode => "/RunLengthDecode", Filter::CcittFaxDecode => "/CCITTFaxDecode",
            Filter::Jbig2Decode => "/JBIG2Decode", Filter::DctDecode => "/DCTDecode",
            Filter::JpxDecode => "/JPXDecode", Filter::Crypt => "/Crypt",
        };
        sub decode_parms "DecodeParms" "<<>>";
    });
    table!(o; Dict "DecodeParms" "<<>>" DecodeParms {
        en predictor "Predictor" {
            Predictor::None => 1, Predictor::Tiff => 2, Predictor::PngNone => 10,
            Predictor::PngSub => 11, Predictor::PngUp => 12, Predictor::PngAverage => 13,
            Predictor::PngPaeth => 14, Predictor::PngOptimum => 15,
        };
        wide "colors" "Colors" refs().len(), |i| X::I(refs()[i] as i64), |w| w.colors(refs()[i]);
        do |t| { for v in I32S.iter().filter(|v| **v > 0) { t.push(format!("colors({v})"), vec![("Colors", X::I(*v as i64))], Box::new(move |w| { w.colors(*v); })); } };
        do |t| { for v in [1, 2, 4, 8, 16] { t.push(format!("bits_per_component({v})"), vec![("BitsPerComponent", X::I(v as i64))], Box::new(move |w| { w.bits_per_component(v); })); } };
        i32 columns "Columns";
        call "early_change(true)" {"EarlyChange": 1} |w| { w.early_change(true); };
        also "early_change(false)" {"EarlyChange": 0} |w| { w.early_change(false); };
        i32 k "K";
        bool end_of_line "EndOfLine";
        bool encoded_byte_align "EncodedByteAlign";
        i32 rows "Rows";
        bool end_of_block "EndOfBlock";
        bool black_is_1 "BlackIs1";
        i32 damaged_rows_before_error "DamagedRowsBeforeError";
        refr jbig2_globals "JBIG2Globals";
        call "color_transform(true)" {"ColorTransform": 1} |w| { w.color_transform(true); };
        also "color_transform(false)" {"ColorTransform": 0} |w| { w.color_transform(false); };
        unit crypt_type "Type" "/CryptFilterDecodeParms";
        name name "Name";
    });
}

fn states(o: &mut Vec<Table>) {
    table!(o; Dict "Resources" "<<>>" Resources {
        anydict x_objects "XObject";
        anydict fonts "Font";
        anydict color_spaces "ColorSpace";
        anydict patterns "Pattern";
        anydict shadings "Shading";
        anydict ext_g_states "ExtGState";
        do |t| {
            let all = [("PDF", 0), ("Text", 1), ("ImageB", 2), ("ImageC", 3), ("ImageI", 4)];
            for l in lists(&all) {
                t.push(format!("proc_sets {l:?}"), vec![("ProcSet", X::Arr(l.iter().map(|s| n(s.0)).collect()))], Box::new(move |w| {
                    w.proc_sets(l.iter().map(|s| match s.1 {
                        0 => ProcSet::Pdf, 1 => ProcSet::Text, 2 => ProcSet::ImageGrayscale,
                        3 => ProcSet::ImageColor, _ => ProcSet::ImageIndexed,
                    }));
                }));
            }
        };
        unit proc_sets_all "ProcSet" "[/PDF /Text /ImageB /ImageC /ImageI]";
        call "properties x2" {"Properties": "<</a <</MCID 3>> / <<>>>>"} |w| {
            let mut p = w.properties();
            p.insert(Name(b"a")).identify(3);
            p.insert(Name(b""));
        };
        also "properties x0" {"Properties": "<<>>"} |w| { w.properties(); };
    });
    table!(o; Dict "ExtGraphicsState" "<</Type /ExtGState>>" ExtGraphicsState {
        f32 line_width "LW";
        en line_cap "LC" { LineCapStyle::ButtCap => 0, LineCapStyle::RoundCap => 1,
            LineCapStyle::ProjectingSquareCap => 2 };
        en line_join "LJ" { LineJoinStyle::MiterJoin => 0, LineJoinStyle::RoundJoin => 1,
            LineJoinStyle::BevelJoin => 2 };
        f32 miter_limit "ML";
        do |t| {
            for l in lists(F32S) { for p in F32S {
                t.push(format!("dash_pattern({l:?}, {p})"), vec![("D", X::Arr(vec![f32s_x(&l), X::F(*p)]))], Box::new({ let l = l.clone(); move |w| { w.dash_pattern(crate::tab::user(l.iter().copied()), *p); } }));
            } }
        };
        en rendering_intent "RI" { RenderingIntent::AbsoluteColorimetric => "/AbsoluteColorimetric",
            RenderingIntent::RelativeColorimetric => "/RelativeColorimetric",
            RenderingIntent::Saturation => "/Saturation", RenderingIntent::Perceptual => "/Perceptual" };
        bool overprint "OP";
        bool overprint_fill "op";
        en overprint_mode "OPM" { OverprintMode::OverrideAllColorants => 0, OverprintMode::IgnoreZeroChannel => 1 };
        refr black_generation "BG";
        unit black_generation_default "BG2" "/Default";
        refr undercolor_removal "UCR";
        unit undercolor_removal_default "UCR2" "/Default";
        refr transfer "TR";
        unit transfer_default "TR2" "/Default";
        refr halftone "HT";
        unit halftone_default "HT" "/Default";
        f32 flatness "FL";
        f32 smoothness "SM";
        bool stroke_adjustment "SA";
        en blend_mode "BM" {
            BlendMode::Normal => "/Normal", BlendMode::Multiply => "/Multiply",
            BlendMode::Screen => "/Screen", BlendMode::Overlay => "/Overlay",
            BlendMode::Darken => "/Darken", BlendMode::Lighten => "/Lighten",
            BlendMode::ColorDodge => "/ColorDodge", BlendMode::ColorBurn => "/ColorBurn",
            BlendMode::HardLight => "/HardLight", BlendMode::SoftLight => "/SoftLight",
            BlendMode::Difference => "/Difference", BlendMode::Exclusion => "/Exclusion",
            BlendMode::Hue => "/Hue", BlendMode::Saturation => "/Saturation",
            BlendMode::Color => "/Color", BlendMode::Luminosity => "/Luminosity" };
        sub soft_mask "SMask" "<</Type /Mask>>";
        name soft_mask_name "SMask";
        f32 stroking_alpha "CA";
        f32 non_stroking_alpha "ca";
        bool alpha_source "AIS";
        bool text_knockout "TK";
    });
    table!(o; Dict "SoftMask" "<</Type /Mask>>" SoftMask {
        en subtype "S" { MaskType::Alpha => "/Alpha", MaskType::Luminosity => "/Luminosity" };
        refr group "G";
        f32s backdrop "BC";
        refr transfer_function "TR";
    });
}
