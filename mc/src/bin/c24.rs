//! C24: flags and enumerated options encode to their specified values.
use mc::model::{matches, x, X};
use mc::tab::{Place, PLACES};
use mc::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

fn main() {
    guard(explore)
}

/// What to do with one flag set: how it is put together, how it is written.
struct Flags {
    name: &'static str,
    key: &'static str,
    /// Bit position (from 1) the specification gives each member.
    members: Vec<(&'static str, u32)>,
    /// Write the set with these members, built in one of several ways.
    write: Box<dyn Fn(Obj, &[usize], usize) + Sync>,
    all: u32,
}

macro_rules! flags {
    ($out:ident; $T:ident $key:literal |$o:ident, $f:ident| $w:expr; $($m:ident $bit:literal)*) => {
        $out.push(Flags {
            name: stringify!($T),
            key: $key,
            members: vec![$((stringify!($m), $bit)),*],
            write: Box::new(|$o, set, how| {
                let m = || set.iter().map(|i| {
                    let all: [fn() -> $T; [$($bit),*].len()] = [$(|| $T::$m),*];
                    all[*i]()
                });
                let $f = match how {
                    0 => m().fold($T::empty(), |a, b| a | b),
                    1 => {
                        let mut s = $T::empty();
                        m().for_each(|b| s.insert(b));
                        s
                    }
                    2 => {
                        // Everything but the rest.
                        let mut s = $T::all();
                        s.remove($T::all() - m().fold($T::empty(), |a, b| a.union(b)));
                        s
                    }
                    _ => $T::from_bits_truncate(m().fold(0, |a, b| a | b.bits())),
                };
                $w;
            }),
            all: $T::all().bits() as u32,
        });
    };
}

fn flag_types() -> Vec<Flags> {
    let mut o: Vec<Flags> = vec![];
    flags!(o; FormActionFlags "Flags" |o, f| { o.start::<Action>().form_flags(f); };
        INCLUDE_EXCLUDE 1 INCLUDE_NO_VALUE_FIELDS 2 EXPORT_FORMAT 3 GET_METHOD 4 SUBMIT_COORDINATES 5 XFDF 6
        INCLUDE_APPEND_SAVES 7 INCLUDE_ANNOTATIONS 8 SUBMIT_PDF 9 CANONICAL_FORMAT 10
        EXCLUDE_NON_USER_ANNOTS 11 EXCLUDE_F_KEY 12 EMBED_FORM 14);
    flags!(o; AnnotationFlags "F" |o, f| { o.start::<Annotation>().flags(f); };
        INVISIBLE 1 HIDDEN 2 PRINT 3 NO_ZOOM 4 NO_ROTATE 5 NO_VIEW 6 READ_ONLY 7 LOCKED 8 TOGGLE_NO_VIEW 9
        LOCKED_CONTENTS 10);
    flags!(o; FontFlags "Flags" |o, f| { o.start::<FontDescriptor>().flags(f); };
        FIXED_PITCH 1 SERIF 2 SYMBOLIC 3 SCRIPT 4 NON_SYMBOLIC 6 ITALIC 7 ALL_CAP 17 SMALL_CAP 18 FORCE_BOLD 19);
    flags!(o; SigFlags "SigFlags" |o, f| { o.start::<Form>().sig_flags(f); };
        SIGNATURES_EXIST 1 APPEND_ONLY 2);
    flags!(o; SignatureSeedValueFlags "Ff" |o, f| { o.start::<SignatureSeedValue>().constraint_flags(f); };
        FILTER 1 SUB_FILTER 2 VERSION 3 REASONS 4 LEGAL_ATTESTATION 5 ADD_REV_INFO 6 DIGEST_METHOD 7
        LOCK_DOCUMENT 8 APPEARANCE_FILTER 9);
    flags!(o; CertificateSeedValueFlags "Ff" |o, f| { o.start::<CertificateSeedValue>().constraint_flags(f); };
        SUBJECT 1 ISSUER 2 OID 3 SUBJECT_DN 4 KEY_USAGE 6 URL 7);
    flags!(o; FieldFlags "Ff" |o, f| { o.start::<Field>().field_flags(f); };
        READ_ONLY 1 REQUIRED 2 NO_EXPORT 3 MULTILINE 13 PASSWORD 14 NO_TOGGLE_TO_OFF 15 RADIO 16 PUSHBUTTON 17
        COMBO 18 EDIT 19 SORT 20 FILE_SELECT 21 MULTI_SELECT 22 DO_NOT_SPELL_CHECK 23 DO_NOT_SCROLL 24 COMB 25
        RADIOS_IN_UNISON 26 RICH_TEXT 26 COMMIT_ON_SEL_CHANGE 27);
    flags!(o; OutlineItemFlags "F" |o, f| { o.start::<OutlineItem>().flags(f); };
        ITALIC 1 BOLD 2);
    o
}

fn explore() {
    let c = Ctx::new("C24");
    flag_sets(c);
    key_usage(c);
    enums(c);
    content(c);
    defaults(c);
    c.finish()
}

fn flag_sets(c: &Ctx) {
    for t in flag_types() {
        c.phase(t.name);
        let n = t.members.len();
        let all = t.members.iter().fold(0u32, |a, (_, b)| a | 1 << (b - 1));
        c.check(all == t.all, &format!("{} members", t.name), || {
            format!("{} has the members {:#b}, expected {all:#b}", t.name, t.all)
        });
        c.note(&format!("{} sets", t.name), 1u64 << n);
        par(1 << n, |m| {
            let set: Vec<usize> = (0..n).filter(|i| m >> i & 1 > 0).collect();
            let bits = set.iter().fold(0i64, |a, i| a | 1i64 << (t.members[*i].1 - 1));
            let show = || set.iter().map(|i| t.members[*i].0).collect::<Vec<_>>().join(" | ");
            for how in 0..4 {
                for (pretty, place) in [(true, Place::Indirect), (false, Place::InDict)] {
                    let mut ch = Chunk::with_settings(gen::settings(pretty));
                    tab::with_obj(&mut ch, place, |o| (t.write)(o, &set, how));
                    let v = pdf::parse_chunk(ch.as_bytes()).map(|mut o| o.remove(0).val);
                    let got = match (&v, place) {
                        (Ok(v), Place::Indirect) => v.get(t.key),
                        (Ok(v), _) => v.get("K").and_then(|v| v.get(t.key)),
                        _ => None,
                    };
                    c.check(got == Some(&pdf::V::Int(bits)), &format!("{} {}", t.name, show()), || {
                        format!("{}: {} is written as {got:?}, expected {bits}", t.name, show())
                    });
                    c.traces_n(1);
                }
            }
            c.states_by_construction(1);
            c.steps(set.len() as u64 + 1);
        });
    }
}

/// The certificate key usage: a string of nine tri-state positions.
fn key_usage(c: &Ctx) {
    c.phase("CertificateKeyUsage");
    let tri = |i: usize| [None, Some(false), Some(true)][i];
    par(3usize.pow(9), |i| {
        let s = seq(i, 3, 9);
        let mk = |s: &[usize]| CertificateKeyUsage {
            digital_signature: tri(s[0]),
            non_repudiation: tri(s[1]),
            key_encipherment: tri(s[2]),
            data_encipherment: tri(s[3]),
            key_agreement: tri(s[4]),
            key_cert_sign: tri(s[5]),
            crl_sign: tri(s[6]),
            encipher_only: tri(s[7]),
            decipher_only: tri(s[8]),
        };
        let text = |s: &[usize]| s.iter().map(|i| b"X01"[*i]).collect::<Vec<u8>>();
        let r: Vec<usize> = s.iter().rev().copied().collect();
        for pretty in [false, true] {
            for list in [vec![&s], vec![&s, &r], vec![&r, &s, &s]] {
                let mut ch = Chunk::with_settings(gen::settings(pretty));
                ch.indirect(Ref::new(1)).start::<CertificateSeedValue>().key_usage(list.iter().map(|s| mk(s)));
                let want = X::Arr(list.iter().map(|s| X::Str(text(s))).collect());
                let v = pdf::parse_chunk(ch.as_bytes());
                let ok = v.as_ref().is_ok_and(|o| o[0].val.get("KeyUsage").is_some_and(|v| matches(&want, v)));
                c.check(ok, &format!("key usage {}", want.show()), || {
                    format!("expected {}, output {}", want.show(), show_out(ch.as_bytes()))
                });
                c.traces_n(1);
            }
        }
        c.states_by_construction(1);
        c.steps(6);
    });
}

/// Methods which take enumerated options in another way than one per call.
const OTHER: &[&str] = &[
    "owner(", "attached", "digest_method", "line_height", "glyph_orientation", "checked(", "proc_sets", "cjk_class",
    "border_style", "t_border_style", "blend_mode", "insert(", "kind(", "kind_2(",
];

/// Every option of every enumeration, with every other call of the writer
/// before and after.
fn enums(c: &Ctx) {
    let mut options = 0;
    let mut groups = 0;
    for t in [tables::interactive(), tables::document(), tables::graphics()].iter().flatten() {
        let en: Vec<usize> = (0..t.vars.len())
            .filter(|i| t.vars[*i].en || OTHER.iter().any(|o| t.vars[*i].label.starts_with(o)))
            .collect();
        if en.is_empty() {
            continue;
        }
        c.phase(t.name);
        options += en.len();
        groups += en.iter().map(|i| t.vars[*i].group).collect::<std::collections::HashSet<_>>().len();
        // Options are distinct.
        for i in &en {
            for j in &en {
                if i < j && t.vars[*i].en && t.vars[*j].en && t.vars[*i].group == t.vars[*j].group {
                    assert_ne!(t.vars[*i].entries, t.vars[*j].entries, "{}", t.show(&[*i, *j]));
                }
            }
        }
        par(en.len(), |i| {
            for place in t.places() {
                for p in [false, true] {
                    t.explore_one(c, &[en[i]], *place, p);
                    c.traces_n(1);
                    c.steps(1);
                }
            }
            c.states_by_construction(1);
            if t.kind == tab::Kind::Value {
                return;
            }
            for j in 0..t.vars.len() {
                for s in [[en[i], j], [j, en[i]]] {
                    if t.compatible(&s) {
                        t.explore_one(c, &s, t.places()[j % t.places().len()], (i + j) % 2 == 0);
                        c.states_by_construction(1);
                        c.traces_n(1);
                        c.steps(2);
                    }
                }
            }
            // All of the writer's other methods at once, around it.
            for k in 0..t.plain().len() {
                let mut s = vec![];
                for (n, v) in t.plain().into_iter().enumerate() {
                    if n == k {
                        s.push(en[i]);
                    }
                    let keep = t.compatible(&[en[i], v]) && {
                        let mut s2: Vec<usize> = s.iter().copied().filter(|v| *v != en[i]).collect();
                        s2.push(v);
                        t.compatible(&s2)
                    };
                    if keep {
                        s.push(v);
                    }
                }
                if t.compatible(&s) {
                    t.explore_one(c, &s, PLACES[0], k % 2 == 0);
                    c.states_by_construction(1);
                    c.traces_n(1);
                    c.steps(s.len() as u64);
                }
            }
        });
    }
    c.note("enumerations in writers", groups);
    c.note("options in writers", options);
}

/// What an option is when it is left out: the specification names the value a
/// reader assumes when the entry is absent.
fn defaults(c: &Ctx) {
    c.phase("defaults");
    let mut n = 0;
    macro_rules! d {
        ($($T:ty => $v:expr),* $(,)?) => {$(
            n += 1;
            let (a, b): ($T, $T) = (Default::default(), $v);
            c.check(a == b, concat!("default of ", stringify!($T)), || {
                format!("{}::default() is {a:?}, the specification assumes {b:?}", stringify!($T))
            });
        )*};
    }
    d!(
        AnnotationIcon => AnnotationIcon::Note, TextPosition => TextPosition::CaptionOnly, IconScale => IconScale::Always,
        IconScaleType => IconScaleType::Proportional, HighlightEffect => HighlightEffect::Invert,
        WritingMode => WritingMode::LtrTtb, LayoutBorderStyle => LayoutBorderStyle::None, TextAlign => TextAlign::Start,
        BlockAlign => BlockAlign::Before, InlineAlign => InlineAlign::Start, LineHeight => LineHeight::Normal,
        LayoutTextPosition => LayoutTextPosition::Normal, TextDecorationType => TextDecorationType::None,
        GlyphOrientationVertical => GlyphOrientationVertical::Auto, RubyAlign => RubyAlign::Distribute,
        RubyPosition => RubyPosition::Before, ListNumbering => ListNumbering::None, FieldState => FieldState::Unchecked,
        RenderingIntent => RenderingIntent::RelativeColorimetric, TextRenderingMode => TextRenderingMode::Fill,
        BlendMode => BlendMode::Normal, OverprintMode => OverprintMode::OverrideAllColorants,
        AssociationKind => AssociationKind::Unspecified, WMode => WMode::Horizontal, Quadding => Quadding::Left,
        InterpolationOrder => InterpolationOrder::Linear, Predictor => Predictor::None, TempFileType => TempFileType::Never,
        PageLayout => PageLayout::SinglePage, PageMode => PageMode::UseNone, PhoneticAlphabet => PhoneticAlphabet::Ipa,
        Direction => Direction::L2R, TrappingStatus => TrappingStatus::Unknown, TransitionStyle => TransitionStyle::R,
        TransitionAngle => TransitionAngle::LeftToRight, SMaskInData => SMaskInData::Ignore,
    );
    c.note("defaults", n);
    c.states_by_construction(n);
    c.steps(n);
    c.traces_n(n);
}

/// Enumerated operands of content streams.
fn content(c: &Ctx) {
    c.phase("content operands");
    type Call = Box<dyn Fn(&mut Content) + Sync>;
    let mut v: Vec<(String, &'static str, X, Call)> = vec![];
    macro_rules! e {
        ($op:literal $m:ident $($e:expr => $v:expr),* $(,)?) => {
            $(v.push((format!("{}({})", stringify!($m), stringify!($e)), $op, x($v), Box::new(|c| { c.$m($e); })));)*
        };
    }
    e!("J" set_line_cap LineCapStyle::ButtCap => "0", LineCapStyle::RoundCap => "1",
        LineCapStyle::ProjectingSquareCap => "2");
    e!("j" set_line_join LineJoinStyle::MiterJoin => "0", LineJoinStyle::RoundJoin => "1",
        LineJoinStyle::BevelJoin => "2");
    e!("ri" set_rendering_intent RenderingIntent::AbsoluteColorimetric => "/AbsoluteColorimetric",
        RenderingIntent::RelativeColorimetric => "/RelativeColorimetric",
        RenderingIntent::Saturation => "/Saturation", RenderingIntent::Perceptual => "/Perceptual");
    use TextRenderingMode as T;
    e!("Tr" set_text_rendering_mode T::Fill => "0", T::Stroke => "1", T::FillStroke => "2", T::Invisible => "3",
        T::FillClip => "4", T::StrokeClip => "5", T::FillStrokeClip => "6", T::Clip => "7");
    use ColorSpaceOperand as S;
    e!("cs" set_fill_color_space S::DeviceGray => "/DeviceGray", S::DeviceRgb => "/DeviceRGB",
        S::DeviceCmyk => "/DeviceCMYK", S::Pattern => "/Pattern", S::Named(Name(b"x y")) => "/x#20y");
    e!("CS" set_stroke_color_space S::DeviceGray => "/DeviceGray", S::DeviceRgb => "/DeviceRGB",
        S::DeviceCmyk => "/DeviceCMYK", S::Pattern => "/Pattern", S::Named(Name(b"")) => "/");
    let n = v.len();
    c.note("options in content streams", n);
    par(n * n * n * 2, |i| {
        let s = seq(i / 2, n, 3);
        let mut ct = Content::with_settings(gen::settings(i % 2 == 0));
        for j in &s {
            (v[*j].3)(&mut ct);
        }
        let out = ct.finish();
        let what = || s.iter().map(|j| v[*j].0.clone()).collect::<Vec<_>>().join("; ");
        let ok = pdf::parse_content(out.as_slice()).is_ok_and(|ops| {
            ops.len() == 3
                && ops.iter().zip(&s).all(|(o, j)| {
                    o.operator == v[*j].1.as_bytes() && o.operands.len() == 1 && matches(&v[*j].2, &o.operands[0])
                })
        });
        c.check(ok, &what(), || format!("{}: {}", what(), show_out(out.as_slice())));
        c.states_by_construction(1);
        c.steps(3);
        c.traces_n(1);
    });
}
