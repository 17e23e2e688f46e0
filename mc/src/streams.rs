//! Stream objects: every constructor, and calls on their dictionaries.

use crate::model::{x, X};
use pdf_writer::types::Predictor;
use pdf_writer::*;

pub type Body<'f> = &'f mut dyn FnMut(&mut Stream<'_>);

pub struct Ctor {
    pub name: &'static str,
    pub base: &'static str,
    pub run: fn(&mut Chunk, Ref, &[u8], Body),
}

macro_rules! ctors {
    ($($m:ident $base:literal;)*) => {
        &[$(Ctor { name: stringify!($m), base: $base, run: |c, id, data, f| {
            let mut w = c.$m(id, data);
            f(&mut w);
        } }),*]
    };
}

pub const CTORS: &[Ctor] = ctors![
    stream "<<>>";
    form_xobject "<</Type /XObject /Subtype /Form>>";
    image_xobject "<</Type /XObject /Subtype /Image>>";
    metadata "<</Type /Metadata /Subtype /XML>>";
    embedded_file "<</Type /EmbeddedFile>>";
    cmap "<</Type /CMap>>";
    stream_shading "<<>>";
    tiling_pattern "<</Type /Pattern /PatternType 1>>";
    icc_profile "<<>>";
    sampled_function "<</FunctionType 0>>";
    post_script_function "<</FunctionType 4>>";
];

/// A call on the stream dictionary.
pub struct Call {
    pub label: String,
    pub key: &'static str,
    pub val: X,
    pub run: Box<dyn Fn(&mut Stream<'_>) + Send + Sync>,
}

pub fn calls() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    macro_rules! c {
        ($($l:literal $k:literal $x:expr, |$s:ident| $e:expr;)*) => {
            $(v.push(Call { label: $l.into(), key: $k, val: X::from($x), run: Box::new(|$s| { let _ = $e; }) });)*
        };
    }
    c![
        "filter(Flate)" "Filter" "/FlateDecode", |s| { s.filter(Filter::FlateDecode); };
        "pair int" "A" 5, |s| { s.pair(Name(b"A"), 5); };
        "decode_parms+" "DecodeParms" "<</Predictor 15 /Columns 4>>", |s| { s.decode_parms().predictor(Predictor::PngOptimum).columns(4); };
        "pair name" "B" "/", |s| { s.pair(Name(b"B"), Name(b"")); };
        "insert array" "C" "[true]", |s| { s.insert(Name(b"C")).array().item(true); };
        "insert dict" "D" "<</Length 3>>", |s| { s.insert(Name(b"D")).dict().pair(Name(b"Length"), 3); };
        "pair str" "E" "(>>\\nstream\\nendstream\\nendobj\\n)", |s| { s.pair(Name(b"E"), Str(b">>\nstream\nendstream\nendobj\n")); };
        "decode_parms" "DecodeParms" "<<>>", |s| { s.decode_parms(); };
        "insert arrays" "F" "[[] [<<>>]]", |s| {
            let mut a = s.insert(Name(b"F")).array();
            a.push().array();
            a.push().array().push().dict();
        };
        "pairs" "G" 1, |s| { s.pairs([(Name(b"G"), 1)]); };
        "pair ref" "H" "3 0 R", |s| { s.pair(Name(b"H"), Ref::new(3)); };
        "stream key" "stream" "null", |s| { s.pair(Name(b"stream"), Null); };
        "empty key" "" -1, |s| { s.pair(Name(b""), -1); };
    ];
    for (f, n) in [
        (Filter::AsciiHexDecode, "ASCIIHexDecode"),
        (Filter::Ascii85Decode, "ASCII85Decode"),
        (Filter::LzwDecode, "LZWDecode"),
        (Filter::RunLengthDecode, "RunLengthDecode"),
        (Filter::CcittFaxDecode, "CCITTFaxDecode"),
        (Filter::Jbig2Decode, "JBIG2Decode"),
        (Filter::DctDecode, "DCTDecode"),
        (Filter::JpxDecode, "JPXDecode"),
        (Filter::Crypt, "Crypt"),
    ] {
        v.push(Call {
            label: format!("filter({f:?})"),
            key: "Filter",
            val: crate::model::name(n),
            run: Box::new(move |s| {
                s.filter(f);
            }),
        });
    }
    v
}

pub fn want(ctor: &Ctor, data: &[u8], calls: &[Call], s: &[usize]) -> X {
    let mut v = x(ctor.base);
    if let X::Dict(d) = &mut v {
        d.insert(0, (b"Length".to_vec(), X::I(data.len() as i64)));
        d.extend(s.iter().map(|i| (calls[*i].key.as_bytes().to_vec(), calls[*i].val.clone())));
    }
    v
}
