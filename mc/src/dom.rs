//! Wide argument domains for single calls of typed writers.
//!
//! The tables call every method with a few boundary arguments in many contexts;
//! here is every value of a dense range, for one call each, so that a method
//! treating particular values specially is seen.

use crate::ctx::{seq, sizes};
use pdf_writer::Date;
use std::sync::OnceLock;

/// Keywords of the format and other words a method may know about.
pub const WORDS: &[&str] = &[
    "-1", ".0", ".notdef", "0", "0.0000001184", "1", "1.7", "2.0", "2.5", "4.22", "42000000000000", "78",
    "A", "AA", "AB", "ABCD", "ABCDEFGH", "AC", "AF", "AFRelationship", "AIS", "AN", "AP", "ARIA-1.1",
    "AS", "ASCII85Decode", "ASCIIHexDecode", "AbsoluteColorimetric", "AcroForm", "Action", "ActualText", "AddRevInfo", "Adobe", "After", "All", "Alpha",
    "AlphaNum", "Alphabetic", "Alt", "Alternate", "AlternatePresentations", "Alternates", "Alternative", "Annot", "Annots", "AntiAlias", "AppearanceFilter", "Art",
    "ArtBox", "Artifact", "Ascent", "Aside", "Attached", "Author", "Auto", "AvgWidth", "B", "BBox", "BC", "BE",
    "BG", "BG2", "BM", "BS", "BT", "BX", "Background", "BackgroundColor", "BaseEncoding", "BaseFont", "BaseVersion", "BaselineShift",
    "Bates", "Before", "BibEntry", "BitsPerComponent", "BitsPerCoordinate", "BitsPerFlag", "BitsPerSample", "Bl", "Black", "BlackIs1", "BlackPoint", "BleedBox",
    "Blinds", "Block", "BlockAlign", "BlockQuote", "Border", "BorderColor", "BorderStyle", "BorderThickness", "Both", "Bottom", "Bounds", "Box",
    "Browser", "Btn", "C", "C0", "C1", "CA", "CCITTFaxDecode", "CD", "CIDFontType0", "CIDFontType2", "CIDSet", "CIDSystemInfo",
    "CIDToGIDMap", "CMap", "CMapName", "CO", "CS", "CSS-1", "CSS-1.00", "CSS-2", "CSS-2.00", "CSS-3", "CT", "CalGray",
    "CalRGB", "Calibri", "CapHeight", "Caption", "Catalog", "Center", "CenterWindow", "Cert", "Ch", "CharProcs", "CharSet", "CheckSum",
    "Checked", "Circle", "ClassMap", "Code", "ColSpan", "Color", "ColorBurn", "ColorDodge", "ColorSpace", "ColorTransform", "Colorants", "Colors",
    "Column", "ColumnCount", "ColumnGap", "ColumnWidths", "Columns", "Comment", "Components", "Condensed", "Contents", "ContinuedFrom", "ContinuedList", "Coords",
    "Count", "Courier", "Cover", "CreationDate", "Creator", "CropBox", "Crypt", "CryptFilterDecodeParms", "Cyan", "D", "DA", "DCTDecode",
    "DP", "DR", "DS", "DV", "DW", "DamagedRowsBeforeError", "Darken", "Dashed", "Data", "Decimal", "Decode", "DecodeParms",
    "Default", "DefaultCMYK", "DefaultGray", "DefaultRGB", "Desc", "DescendantFonts", "Descent", "Description", "Dest", "DestOutputProfile", "Dests", "DeveloperExtensions",
    "DeviceCMYK", "DeviceColorant", "DeviceGray", "DeviceN", "DeviceRGB", "Di", "Difference", "Differences", "DigestMethod", "Dingbats", "DingbatsRot", "Direction",
    "Disc", "DisplayDocTitle", "Dissolve", "Distribute", "Div", "Dm", "Document", "DocumentFragment", "Domain", "DotGain", "Dotted", "Double",
    "Dur", "E", "EF", "EMC", "ET", "EX", "EarlyChange", "Em", "EmbeddedFile", "EmbeddedFiles", "Encode", "EncodedByteAlign",
    "Encoding", "EncryptedPayload", "End", "EndIndent", "EndOfBlock", "EndOfLine", "Endnote", "Exclude", "Exclusion", "Expanded", "ExtGState", "Extend",
    "ExtensionLevel", "Extensions", "ExtraCondensed", "ExtraExpanded", "F", "F1", "F2", "FB", "FD", "FENote", "FL", "FS",
    "FT", "Fade", "False", "Ff", "Fields", "Figure", "FileAttachment", "Filespec", "Filter", "First", "FirstChar", "Fit",
    "FitB", "FitBH", "FitBV", "FitH", "FitR", "FitV", "FitWindow", "Flags", "FlateDecode", "Fly", "Fo", "Font",
    "FontBBox", "FontDescriptor", "FontFamily", "FontFile", "FontFile2", "FontFile3", "FontMatrix", "FontName", "FontStretch", "FontWeight", "Footer", "Footnote",
    "Form", "FormData", "Formula", "FullScreen", "Function", "FunctionType", "Functions", "G", "Gamma", "Generic", "GenericRot", "Glitter",
    "GlyphOrientationVertical", "GoTo", "GoToR", "Good", "Graph", "Groove", "Group", "H", "H1", "H2", "H3", "H4",
    "H5", "H6", "H65535", "HKana", "HKanaRot", "HRoman", "HRomanRot", "HT", "HTML-3.20", "HTML-4.01", "HTML-5.00", "Hangul",
    "Hanja", "Hanzi", "HardLight", "Header", "Headers", "Height", "Help", "Helvetica", "Helvetica-Bold", "Hi", "Hi2", "Hidden",
    "HideMenubar", "HideToolbar", "Highlight", "HojoKanji", "Hue", "I", "ICCBased", "ID", "IDS", "IDTree", "IF", "IX",
    "Identity", "Identity-H", "Identity-V", "Image", "ImageB", "ImageC", "ImageI", "ImageMask", "ImportData", "Include", "Index", "Indexed",
    "Info", "Inline", "InlineAlign", "Insert", "Inset", "Intent", "Interpolate", "IsMap", "Issuer", "ItalicAngle", "JBIG2Decode", "JBIG2Globals",
    "JPXDecode", "JS", "Japan1", "JavaScript", "Justify", "K", "Kana", "Kanji", "Key", "Key1", "Key2", "Key3",
    "Key4", "Key5", "Key6", "Key7", "KeyUsage", "Keywords", "Kids", "L", "L2R", "LBody", "LC", "LI",
    "LJ", "LW", "LZWDecode", "Lab", "Lang", "Last", "LastChar", "LastModified", "Launch", "Layout", "Lbl", "Leading",
    "Left", "LegalAttestation", "Length", "Lighten", "Limits", "Line", "LineHeight", "LineNum", "LineThrough", "Link", "List", "ListNumbering",
    "Lock", "LockDocument", "LowerAlpha", "LowerRoman", "LrTb", "Luminosity", "M", "MCD", "MCID", "MCR", "MCS", "MDP",
    "MK", "ML", "MR", "MacRomanEncoding", "Magenta", "MarkInfo", "Marked", "Mask", "Matrix", "Matte", "MaxLen", "MaxWidth",
    "MediaBox", "MediaClip", "MediaPermissions", "MediaPlayParams", "Metadata", "Middle", "MissingWidth", "MixingHints", "ModDate", "Multiply", "MyFont", "MyImage",
    "MyPattern", "N", "NChannel", "NM", "NS", "NSO", "Name", "Names", "Namespace", "Namespaces", "Nested", "NewParagraph",
    "NewWindow", "Next", "NoRef", "NonFullScreenPageMode", "NonStruct", "None", "Nonself", "Normal", "Note", "NoteType", "Noto", "NotoSans",
    "Nums", "O", "OBJR", "OEB-1.00", "OID", "OP", "OPM", "Obj", "Off", "Ok", "OneColumn", "Opt",
    "Order", "Ordered", "Ordering", "Outlines", "OutputCondition", "OutputConditionIdentifier", "OutputIntent", "OutputIntents", "Outset", "Overlay", "Overline", "P",
    "PC", "PDF", "PI", "PO", "PV", "Padding", "Page", "PageLabel", "PageLabels", "PageLayout", "PageMode", "PageNum",
    "Pages", "Pagination", "PaintType", "Panose", "Paperclip", "Paragraph", "Params", "Parent", "ParentTree", "ParentTreeNextKey", "Part", "Pattern",
    "PatternType", "Perceptual", "Pg", "Phoneme", "PhoneticAlphabet", "Placement", "Predictor", "Prev", "PrintField", "PrintingOrder", "Private", "ProcSet",
    "Process", "Producer", "PronunciationLexicon", "Properties", "Proportional", "ProportionalRot", "Push", "PushPin", "Q", "QuadPoints", "Quality", "Quote",
    "R", "R2L", "RB", "RC", "RDFa-1.10", "RI", "RIPEMD160", "RP", "RT", "RTF-1.05", "RV", "Range",
    "Reasons", "Rect", "Redaction", "Ref", "Reference", "Registry", "RegistryName", "RelativeColorimetric", "Rendition", "Renditions", "ResetForm", "Resources",
    "Ridge", "Right", "RlTb", "Role", "RoleMap", "RoleMapNS", "Root", "Rotate", "Row", "RowSpan", "Rows", "Ruby",
    "RubyAlign", "RubyPosition", "RunLengthDecode", "S", "SA", "SHA1", "SHA256", "SHA384", "SHA512", "SM", "SMask", "SMaskInData",
    "SR", "SS", "SV", "SVCert", "SW", "Safe", "Saturation", "Schema", "Scope", "Screen", "Sect", "Self",
    "SemiCondensed", "SemiExpanded", "Separation", "SeparationInfo", "Shading", "ShadingType", "Short", "Sig", "SigFieldLock", "SigFlags", "SignaturePolicyCommitmentType", "SignaturePolicyHashAlgorithm",
    "SignaturePolicyHashValue", "SignaturePolicyOID", "SinglePage", "Size", "SoftLight", "Solid", "Solidities", "Source", "SpaceAfter", "SpaceBefore", "Span", "Split",
    "Square", "Squiggly", "St", "Start", "StartIndent", "StemH", "StemV", "Stm", "StmOwn", "StrikeOut", "Strong", "StructElem",
    "StructParent", "StructParents", "StructTreeRoot", "Style", "Sub", "SubFilter", "Subj", "Subject", "SubjectDN", "SubmitForm", "Subtype", "Summary",
    "Sup", "Supplement", "Suspects", "Symbol", "T", "TBody", "TBorderStyle", "TD", "TEMPACCESS", "TEMPALWAYS", "TEMPEXTRACT", "TEMPNEVER",
    "TF", "TFoot", "TH", "THead", "TI", "TK", "TM", "TOC", "TOCI", "TP", "TPadding", "TR",
    "TR2", "TU", "Table", "Tabs", "Tag", "TbRl", "Templates", "Test", "Test1", "Text", "TextAlign", "TextDecorationColor",
    "TextDecorationThickness", "TextDecorationType", "TextIndent", "TextPosition", "Thumb", "TilingType", "TimeStamp", "Times-Roman", "Title", "ToUnicode", "Top", "Trans",
    "Transparency", "Trapped", "TrimBox", "True", "TwoColumnLeft", "TwoColumnRight", "TwoPageLeft", "TwoPageRight", "Tx", "Type", "Type0", "Type1",
    "Type3", "U", "UCR", "UCR2", "UCS", "UF", "URI", "URL", "URLS", "URLType", "UltraCondensed", "UltraExpanded",
    "Uncover", "Underline", "Unknown", "Unordered", "Unsafe", "Unspecified", "UpperAlpha", "UpperRoman", "UseAttachments", "UseCMap", "UseNone", "UseOC",
    "UseOutlines", "UseThumbs", "UserProperties", "UserUnit", "V", "Value", "Version", "VerticesPerRow", "ViewerPreferences", "W", "WC", "WMode",
    "WP", "WS", "WT", "Warichu", "Watermark", "WhitePoint", "Widget", "Width", "Widths", "WinAnsiEncoding", "Wipe", "WritingMode",
    "X", "XHeight", "XML", "XML-1.00", "XObject", "XRef", "XStep", "XYZ", "YStep", "Yellow", "Yes", "ZapfDingbats",
    "a", "abs", "adbe.pkcs7.detached", "add", "and", "application#2Fpdf", "atan", "auto", "bitshift", "ca", "cb", "ceiling",
    "checked", "copy", "cos", "cvi", "cvr", "div", "dup", "endobj", "endstream", "eq", "exch", "exp",
    "f", "false", "floor", "ge", "gt", "idiv", "if", "ifelse", "index", "ipa", "lb", "le",
    "ln", "log", "lt", "mod", "mul", "n", "ne", "neg", "neutral", "not", "null", "obj",
    "off", "on", "op", "or", "pb", "pop", "q", "r", "rb", "roll", "round", "sRGB",
    "sin", "space", "sqrt", "stream", "sub", "trailer", "true", "truncate", "tv", "x-sampa", "xor", "xref",
    "zh-Latn-pinyin", "zh-Latn-wadegile",
];

fn once<T: 'static>(c: &'static OnceLock<Vec<T>>, f: impl FnOnce() -> Vec<T>) -> &'static [T] {
    c.get_or_init(f)
}
fn thorough() -> bool {
    static T: OnceLock<bool> = OnceLock::new();
    *T.get_or_init(|| std::env::args().any(|a| a == "thorough"))
}

/// All small integers and those around powers of two and ten.
pub fn i32s() -> &'static [i32] {
    static C: OnceLock<Vec<i32>> = OnceLock::new();
    once(&C, || {
        let mut v: Vec<i64> = if thorough() { (-70_000..=70_000).collect() } else { (-1100..=10_100).collect() };
        for b in [2i64, 10] {
            let mut p = b;
            while p < 1 << 33 {
                v.extend((-3..=3).flat_map(|d| [p + d, -p + d]));
                p *= b;
            }
        }
        let mut v: Vec<i32> = v.into_iter().filter_map(|i| i.try_into().ok()).collect();
        v.sort();
        v.dedup();
        v
    })
}
/// Object numbers.
pub fn refs() -> &'static [i32] {
    static C: OnceLock<Vec<i32>> = OnceLock::new();
    once(&C, || i32s().iter().copied().filter(|i| *i > 0).collect())
}
/// Multiples of small fractions, scaled, and neighbours of powers.
pub fn f32s() -> &'static [f32] {
    static C: OnceLock<Vec<f32>> = OnceLock::new();
    once(&C, || {
        let big = thorough();
        let mut v: Vec<f32> = vec![];
        v.extend((-if big { 100_000 } else { 1100 }..=if big { 100_000 } else { 1100 }).map(|i| i as f32));
        v.extend((-300..=300).map(|i| i as f32 / 100.0));
        v.extend((-200..=200).flat_map(|i| [i as f32 / 8.0, i as f32 * 0.1, i as f32 / 3.0]));
        for e in -40..=38 {
            for d in [1.0, 1.5, 2.0, 2.5, 5.0, 7.25, 9.999_999] {
                let x = (d * 10f64.powi(e)) as f32;
                v.extend([x, -x]);
            }
        }
        for e in -140..=127 {
            let x = 2f32.powi(e);
            v.extend([x, -x, f32::from_bits(x.to_bits() + 1), f32::from_bits(x.to_bits().max(1) - 1)]);
        }
        v.extend([f32::MAX, f32::MIN, f32::EPSILON, 1.0 + f32::EPSILON, 1.0 - f32::EPSILON, std::f32::consts::PI]);
        v.sort_by(|a, b| a.total_cmp(b));
        v.dedup_by_key(|f| f.to_bits());
        // The sign of zero is not kept.
        v.retain(|f| f.is_finite() && f.to_bits() != 1 << 31);
        v
    })
}
/// All byte strings of one byte (thorough: two), of two special bytes, words.
pub fn bytes() -> &'static [Vec<u8>] {
    static C: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    once(&C, || {
        let mut v: Vec<Vec<u8>> = vec![vec![]];
        for i in 0..256 {
            v.push(vec![i as u8]);
        }
        let alpha: Vec<u8> = if thorough() { (0..=255).collect() } else { b"\0\t\n\r !#%()/<>[]\\{}~09aR\x7f\x80\xfe\xff\xef\xbb\xbf".to_vec() };
        let n = alpha.len();
        v.extend((0..n * n).map(|i| seq(i, n, 2).iter().map(|j| alpha[*j]).collect()));
        v.extend(WORDS.iter().map(|w| w.as_bytes().to_vec()));
        v.extend(sizes(if thorough() { 70_000 } else { 1100 }).into_iter().map(|n| (0..n).map(|i| b"abc ()\\\xff"[i % 8]).collect()));
        v.sort();
        v.dedup();
        v
    })
}
/// All characters of the basic plane up to a bound and around its borders,
/// pairs of special ones, words.
pub fn texts() -> &'static [String] {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    once(&C, || {
        let mut v: Vec<String> = vec![String::new()];
        let max = if thorough() { 0x11_0000 } else { 0x250 };
        let step = |i: u32| if i < 0x1_0000 { 1 } else { 17 };
        let mut i = 0;
        while i < max {
            v.extend(char::from_u32(i).map(String::from));
            i += step(i);
        }
        for p in [0x2000u32, 0x20ac, 0x2122, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x1_0000, 0x1_f600, 0x10_ffff] {
            v.extend((p - 3..=p + 3).filter_map(char::from_u32).map(String::from));
        }
        let alpha: Vec<char> = "a \n\r()\\\u{1b}\u{0}\u{7f}\u{80}\u{a0}\u{ad}\u{e9}\u{fe}\u{ff}\u{18}\u{2022}\u{20ac}\u{feff}\u{fffe}\u{1f600}".chars().collect();
        let n = alpha.len();
        v.extend((0..n * n).map(|i| seq(i, n, 2).iter().map(|j| alpha[*j]).collect::<String>()));
        v.extend(WORDS.iter().map(|w| w.to_string()));
        for n in sizes(if thorough() { 70_000 } else { 1100 }) {
            v.push("x".repeat(n));
            v.push("\u{e9}(".repeat(n / 2));
        }
        v.sort();
        v.dedup();
        v
    })
}
/// Coordinates of rectangles.
pub const COORDS: &[f32] = &[0.0, 1.0, -1.5, 612.0, 100.25, -200.0, 595.0, 842.0, 792.0];
pub fn rects() -> usize {
    COORDS.len().pow(4) + num_sets(4)
}
pub fn rect(i: usize) -> [f32; 4] {
    match i.checked_sub(COORDS.len().pow(4)) {
        Some(j) => num_set::<4>(j),
        None => std::array::from_fn(|k| COORDS[seq(i, COORDS.len(), 4)[k]]),
    }
}
/// Dates with components in a dense range.
pub fn dates() -> &'static [(Date, String)] {
    static C: OnceLock<Vec<(Date, String)>> = OnceLock::new();
    once(&C, || {
        let mut v: Vec<(Date, String)> = (0..=9999).step_by(if thorough() { 1 } else { 23 }).map(|y| (Date::new(y), format!("D:{y:04}"))).collect();
        let d = Date::new(1970);
        for m in 1..=12 {
            v.push((d.month(m), format!("D:1970{m:02}")));
            for day in 1..=31 {
                v.push((d.month(m).day(day), format!("D:1970{m:02}{day:02}")));
            }
        }
        let d = d.month(1).day(1);
        for h in 0..24 {
            v.push((d.hour(h), format!("D:19700101{h:02}")));
            for m in 0..60 {
                v.push((d.hour(h).minute(m), format!("D:19700101{h:02}{m:02}")));
                v.push((d.hour(h).minute(1).second(m), format!("D:19700101{h:02}01{m:02}")));
            }
        }
        let d = d.hour(0).minute(0).second(0);
        for h in -23i8..=23 {
            for m in [0u8, 1, 15, 30, 45, 59] {
                let zone = match (h, m) {
                    (0, 0) => "Z".to_string(),
                    _ => format!("{}{:02}'{m:02}", if h < 0 { '-' } else { '+' }, h.abs()),
                };
                v.push((d.utc_offset_hour(h).utc_offset_minute(m), format!("D:19700101000000{zone}")));
            }
        }
        v
    })
}
/// Lists: all short ones over the alphabet, long ones of one or more elements.
pub fn list<T: Clone>(alpha: &[T], i: usize) -> Vec<T> {
    let n = alpha.len();
    let mut i = i;
    for len in 0..=3 {
        if i < n.pow(len) {
            return seq(i, n, len as usize).into_iter().map(|j| alpha[j].clone()).collect();
        }
        i -= n.pow(len);
    }
    let s = long_lists();
    let (len, k) = (s[i / 5], i % 5);
    (0..len)
        .map(|j| alpha[match k {
            0 => 0,
            1 => j % n,
            2 => n - 1 - j % n,
            3 => j * 5 / 3 % n,
            _ => if j + 1 == len { n - 1 } else { 1 % n },
        }].clone())
        .collect()
}
fn long_lists() -> &'static [usize] {
    static C: OnceLock<Vec<usize>> = OnceLock::new();
    once(&C, || sizes(if thorough() { 5000 } else { 260 }))
}
pub fn lists(n: usize) -> usize {
    1 + n + n * n + n * n * n + 5 * long_lists().len()
}
/// Lists as above, then those with one element of a wide domain.
pub fn wide_list<T: Clone>(alpha: &[T], wide: &[T], i: usize) -> Vec<T> {
    match i.checked_sub(lists(alpha.len())) {
        None => list(alpha, i),
        Some(j) if j < wide.len() => vec![wide[j].clone()],
        Some(j) => vec![alpha[0].clone(), wide[j - wide.len()].clone(), alpha[1].clone()],
    }
}
pub fn wide_lists<T>(alpha: &[T], wide: &[T]) -> usize {
    lists(alpha.len()) + 2 * wide.len()
}
/// The byte strings and texts of the domains.
pub fn slices() -> &'static [&'static [u8]] {
    static C: OnceLock<Vec<&'static [u8]>> = OnceLock::new();
    once(&C, || bytes().iter().map(|b| &b[..]).collect())
}
pub fn strs() -> &'static [&'static str] {
    static C: OnceLock<Vec<&'static str>> = OnceLock::new();
    once(&C, || texts().iter().map(|b| &b[..]).collect())
}
/// Which bits to set: few, all but few, runs.
pub fn flag_sets() -> &'static [u32] {
    static C: OnceLock<Vec<u32>> = OnceLock::new();
    once(&C, || {
        let mut v = vec![];
        for a in 0..32 {
            for b in 0..32 {
                for c in 0..32 {
                    v.extend([1u32 << a | 1 << b | 1 << c, !(1u32 << a | 1 << b | 1 << c)]);
                }
                v.push((u64::from(u32::MAX) >> a) as u32 & (u64::from(u32::MAX) << b) as u32);
            }
        }
        v.extend(0..4096);
        v.sort();
        v.dedup();
        v
    })
}

/// Arguments of methods with several numbers: every number of the domain in
/// every position, then all combinations of a few, then the same number
/// everywhere and the defaults and customary values of the format.
pub fn num_sets(k: usize) -> usize {
    k * f32s().len() + grid(k).len().pow(k as u32) + f32s().len() + customary(k).len()
}
fn customary(k: usize) -> Vec<Vec<f32>> {
    const A: &[&[f32]] = &[
        &[880.0, -1000.0],
        &[-100.0, 100.0],
        &[-128.0, 127.0],
        &[0.0, 255.0],
        &[0.9505, 1.0, 1.089],
        &[0.9642, 1.0, 0.8249],
        &[0.95047, 1.0, 1.08883],
        &[0.9505, 1.0, 1.0888],
        &[2.2, 2.2, 2.2],
        &[0.0, 0.0, 612.0, 792.0],
        &[0.0, 0.0, 595.0, 842.0],
        &[0.0, 0.0, 595.28, 841.89],
        &[0.0, 0.0, 1000.0, 1000.0],
        &[0.0, 0.0, 0.0, 1.0],
        &[1.0, 0.0, 0.0, 1.0, 0.0, 0.0],
        &[0.001, 0.0, 0.0, 0.001, 0.0, 0.0],
        &[1.0, 0.0, 0.0, 1.0, 10.0, 20.0],
        &[0.0, 1.0, -1.0, 0.0, 0.0, 0.0],
        &[1.0, 0.0, 0.0, -1.0, 0.0, 842.0],
        &[1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0],
        &[0.4124, 0.2126, 0.0193, 0.3576, 0.7152, 0.1192, 0.1805, 0.0722, 0.9505],
    ];
    let mut v: Vec<Vec<f32>> = A.iter().filter(|a| a.len() == k).map(|a| a.to_vec()).collect();
    for p in [[0.0f32, 1.0], [1.0, 0.0], [-100.0, 100.0], [-1.0, 1.0], [0.0, 255.0], [1.0, 1000.0]] {
        v.push((0..k).map(|i| p[i % 2]).collect());
    }
    v
}
fn grid(k: usize) -> &'static [f32] {
    const G: &[f32] = &[0.0, 1.0, -1.0, 0.5, 12.0, 2.0, -0.5, 100.0, 0.25, 255.0, 3.0, 0.75, -7.5, 1e-6, 10.0, 0.1, 0.333, 72.0, 0.299, 0.587, 0.114, 1e6, 595.0, 842.0, -90.0, 612.0];
    match k {
        0 => &[],
        1..=3 => G,
        4 => &G[..10],
        5 => &G[..6],
        6 => &G[..5],
        _ => &G[..2],
    }
}
pub fn num_set<const K: usize>(i: usize) -> [f32; K] {
    let n = f32s().len();
    let g = grid(K).len().pow(K as u32);
    std::array::from_fn(|p| match i.checked_sub(K * n) {
        None if p == i / n => f32s()[i % n],
        None => p as f32 * 2.25 + 1.0,
        Some(j) if j >= g + n => customary(K)[j - g - n][p],
        Some(j) if j >= g => f32s()[j - g],
        Some(j) => grid(K)[j / grid(K).len().pow(p as u32) % grid(K).len()],
    })
}
