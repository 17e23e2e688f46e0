//! Every way to begin an indirect object, each with a minimal content and the
//! value it must read back as.

use crate::model::{x, X};
use pdf_writer::*;

pub struct Kind {
    pub name: &'static str,
    pub write: fn(&mut Chunk, Ref),
    pub want: &'static str,
    pub data: Option<&'static [u8]>,
}

impl Kind {
    pub fn want(&self) -> X {
        let mut v = x(self.want);
        if let (X::Dict(d), Some(data)) = (&mut v, self.data) {
            d.insert(0, (b"Length".to_vec(), X::I(data.len() as i64)));
        }
        v
    }
}

macro_rules! kinds {
    ($($name:literal, $want:literal, $data:expr, |$c:ident, $r:ident| $e:expr;)*) => {
        &[$(Kind { name: $name, want: $want, data: $data, write: |$c, $r| { $e } }),*]
    };
}

const D: &[u8] = b"9 0 obj\n1\nendobj\nendstream\n";

pub const KINDS: &[Kind] = kinds![
    "int", "7", None, |c, r| c.indirect(r).primitive(7);
    "stream", "<<>>", Some(D), |c, r| drop(c.stream(r, D));
    "array", "[1 (a)]", None, |c, r| drop(c.indirect(r).array().item(1).item(Str(b"a")));
    "dict", "<</A 1 /B 9 0 R>>", None, |c, r| drop(c.indirect(r).dict().pair(Name(b"A"), 1).pair(Name(b"B"), Ref::new(9)));
    "empty stream", "<<>>", Some(b""), |c, r| drop(c.stream(r, b""));
    "null", "null", None, |c, r| c.indirect(r).primitive(Null);
    "name", "/N", None, |c, r| c.indirect(r).primitive(Name(b"N"));
    "empty array", "[]", None, |c, r| drop(c.indirect(r).array());
    "empty dict", "<<>>", None, |c, r| drop(c.indirect(r).dict());
    "nested", "[[<</A [1]>>]]", None, |c, r| drop(c.indirect(r).array().push().array().push().dict().insert(Name(b"A")).array().item(1));
    "pages", "<</Type /Pages>>", None, |c, r| drop(c.pages(r));
    "page", "<</Type /Page>>", None, |c, r| drop(c.page(r));
    "outline", "<</Type /Outlines>>", None, |c, r| drop(c.outline(r));
    "outline_item", "<<>>", None, |c, r| drop(c.outline_item(r));
    "destination", "[5 0 R /Fit]", None, |c, r| c.destination(r).page(Ref::new(5)).fit();
    "destinations", "<</D [5 0 R /FitB]>>", None, |c, r| c.destinations(r).insert(Name(b"D")).page(Ref::new(5)).fit_bounding_box();
    "file_spec", "<</Type /Filespec>>", None, |c, r| drop(c.file_spec(r));
    "embedded_file", "<</Type /EmbeddedFile>>", Some(D), |c, r| drop(c.embedded_file(r, D));
    "struct_element", "<</Type /StructElem>>", None, |c, r| drop(c.struct_element(r));
    "namespace", "<</Type /Namespace>>", None, |c, r| drop(c.namespace(r));
    "metadata", "<</Type /Metadata /Subtype /XML>>", Some(D), |c, r| drop(c.metadata(r, D));
    "image_xobject", "<</Type /XObject /Subtype /Image>>", Some(D), |c, r| drop(c.image_xobject(r, D));
    "form_xobject", "<</Type /XObject /Subtype /Form>>", Some(D), |c, r| drop(c.form_xobject(r, D));
    "ext_graphics", "<</Type /ExtGState>>", None, |c, r| drop(c.ext_graphics(r));
    "type1_font", "<</Type /Font /Subtype /Type1>>", None, |c, r| drop(c.type1_font(r));
    "type3_font", "<</Type /Font /Subtype /Type3>>", None, |c, r| drop(c.type3_font(r));
    "type0_font", "<</Type /Font /Subtype /Type0>>", None, |c, r| drop(c.type0_font(r));
    "cid_font", "<</Type /Font>>", None, |c, r| drop(c.cid_font(r));
    "font_descriptor", "<</Type /FontDescriptor>>", None, |c, r| drop(c.font_descriptor(r));
    "cmap", "<</Type /CMap>>", Some(D), |c, r| drop(c.cmap(r, D));
    "color_space", "/DeviceRGB", None, |c, r| c.color_space(r).device_rgb();
    "function_shading", "<<>>", None, |c, r| drop(c.function_shading(r));
    "stream_shading", "<<>>", Some(D), |c, r| drop(c.stream_shading(r, D));
    "tiling_pattern", "<</Type /Pattern /PatternType 1>>", Some(D), |c, r| drop(c.tiling_pattern(r, D));
    "shading_pattern", "<</Type /Pattern /PatternType 2>>", None, |c, r| drop(c.shading_pattern(r));
    "icc_profile", "<<>>", Some(D), |c, r| drop(c.icc_profile(r, D));
    "sampled_function", "<</FunctionType 0>>", Some(D), |c, r| drop(c.sampled_function(r, D));
    "exponential_function", "<</FunctionType 2>>", None, |c, r| drop(c.exponential_function(r));
    "stitching_function", "<</FunctionType 3>>", None, |c, r| drop(c.stitching_function(r));
    "post_script_function", "<</FunctionType 4>>", Some(D), |c, r| drop(c.post_script_function(r, D));
    "name_tree", "<<>>", None, |c, r| drop(c.name_tree::<Ref>(r));
    "number_tree", "<<>>", None, |c, r| drop(c.number_tree::<i32>(r));
    "annotation", "<</Type /Annot>>", None, |c, r| drop(c.annotation(r));
    "form_field", "<<>>", None, |c, r| drop(c.form_field(r));
    "signature_field_lock", "<</Type /SigFieldLock>>", None, |c, r| drop(c.signature_field_lock(r));
    "signature_seed_value", "<</Type /SV>>", None, |c, r| drop(c.signature_seed_value(r));
];

/// Every constructor of these kinds writes exactly its documented object, next
/// to every other kind and in both layouts.
pub fn explore(c: &crate::Ctx, names: &[&str]) {
    use crate::gen::{layout, settings};
    c.phase("constructors");
    let n = KINDS.len();
    for name in names {
        assert!(KINDS.iter().any(|k| k.name == *name), "{name}");
    }
    crate::par(n * n * n, |i| {
        let ks: Vec<&Kind> = crate::seq(i, n, 3).iter().map(|j| &KINDS[*j]).collect();
        if !names.contains(&ks[1].name) {
            return;
        }
        for pretty in [false, true] {
            let mut ch = Chunk::with_settings(settings(pretty));
            for (j, k) in ks.iter().enumerate() {
                (k.write)(&mut ch, Ref::new(j as i32 * 3 + 1));
            }
            let what = || {
                format!("{} {}", ks.iter().map(|k| k.name).collect::<Vec<_>>().join("; "), layout(pretty))
            };
            match crate::pdf::parse_chunk(ch.as_bytes()) {
                Err(e) => c.fail(&what(), || format!("{}: {e}", what())),
                Ok(objs) => {
                    let ok = objs.len() == 3
                        && objs.iter().zip(&ks).enumerate().all(|(j, (o, k))| {
                            o.num == j as i64 * 3 + 1
                                && o.gen == 0
                                && crate::model::matches(&k.want(), &o.val)
                                && o.stream.as_deref() == k.data
                        });
                    c.check(ok, &what(), || {
                        format!("{}\n{}", what(), crate::model::show_out(ch.as_bytes()))
                    });
                }
            }
        }
        c.states_by_construction(2);
        c.steps(6);
        c.traces_n(2);
    });
}
