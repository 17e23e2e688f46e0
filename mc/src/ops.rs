//! The operations of content streams: every method with boundary arguments and
//! the operators and operands it must write.

use crate::dom::{self, bytes, f32s, i32s, texts};
use crate::gen::{Mode, MODES, P, PRIMS, T};
use crate::model::{matches, name, X};
use crate::pdf;
use crate::tab::{own, user};
use crate::with_prim;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

pub type Run = Box<dyn Fn(&mut Content) + Send + Sync>;

pub struct COp {
    pub label: String,
    /// Index of the method this is a variant of.
    pub group: usize,
    /// Is this the plainest variant of its method?
    pub plain: bool,
    pub run: Run,
    pub want: Vec<(&'static str, Vec<X>)>,
}

/// One operation over a wide domain of operands.
pub struct WOp {
    pub op: &'static str,
    pub n: usize,
    pub want: Box<dyn Fn(usize) -> Vec<X> + Send + Sync>,
    pub run: Box<dyn Fn(&mut Content, usize) + Send + Sync>,
}

pub struct Ops {
    pub v: Vec<COp>,
    pub wide: Vec<WOp>,
    group: usize,
    fresh: bool,
}

/// Boundary numbers.
pub const F: &[f32] = &[
    7.5, 0.0, 3.0, -1.5, 1e-7, -0.25, 1e9, 16777216.0, -2147483600.0, 3.4028235e38, 1.1754944e-38,
];
/// Boundary names; the first is the plain one.
pub const N: &[&[u8]] = &[b"Nm", b"", b"0", b"R", b"a b", b"/", b"#20", b"BT", b"(", b"\xff\x00"];
/// Boundary strings.
pub const S: &[&[u8]] = &[b"Str", b"", b"(", b")\\", b"\n", b"\xff", b"ET", b"<>", b"a(b)c"];
pub const TX: &[&str] = &["Text", "", "\u{e9}", "(", "\u{1f600}x"];

fn fs(v: &[f32]) -> Vec<X> {
    v.iter().map(|f| X::F(*f)).collect()
}
fn nm(b: &[u8]) -> X {
    X::Name(b.to_vec())
}

impl Ops {
    fn next(&mut self) {
        self.group += 1;
        self.fresh = true;
    }
    fn add(
        &mut self,
        label: String,
        want: Vec<(&'static str, Vec<X>)>,
        run: impl Fn(&mut Content) + Send + Sync + 'static,
    ) {
        self.v.push(COp {
            label,
            group: self.group,
            plain: std::mem::take(&mut self.fresh),
            run: Box::new(run),
            want,
        });
    }
    fn wide(
        &mut self,
        op: &'static str,
        n: usize,
        want: impl Fn(usize) -> Vec<X> + Send + Sync + 'static,
        run: impl Fn(&mut Content, usize) + Send + Sync + 'static,
    ) {
        self.wide.push(WOp { op, n, want: Box::new(want), run: Box::new(run) });
    }
    /// An operation without operands.
    fn nullary(&mut self, op: &'static str, f: fn(&mut Content) -> &mut Content) {
        self.next();
        self.add(op.to_string(), vec![(op, vec![])], move |c| {
            f(c);
        });
    }
    /// An operation with `K` numbers: distinct ones first, then every boundary
    /// number in every position.
    fn nums<const K: usize>(
        &mut self,
        op: &'static str,
        fixed: fn([f32; K]) -> Vec<X>,
        f: fn(&mut Content, [f32; K]),
    ) {
        self.next();
        let base: [f32; K] = std::array::from_fn(|i| i as f32 * 2.25 + 1.0);
        let mut sets = vec![base];
        for i in 0..K {
            for v in F {
                let mut a = base;
                a[i] = *v;
                sets.push(a);
            }
        }
        sets.push([0.0; K]);
        sets.push([-0.5; K]);
        for a in sets {
            self.add(format!("{op}{a:?}"), vec![(op, fixed(a))], move |c| f(c, a));
        }
        self.wide(op, dom::num_sets(K), move |i| fixed(dom::num_set(i)), move |c, i| f(c, dom::num_set(i)));
    }
    fn simple<const K: usize>(&mut self, op: &'static str, f: fn(&mut Content, [f32; K])) {
        self.nums(op, |a| fs(&a), f)
    }
    fn named(&mut self, op: &'static str, f: fn(&mut Content, Name)) {
        self.next();
        for n in N {
            self.add(format!("{op} {:?}", Name(n)), vec![(op, vec![nm(n)])], move |c| f(c, Name(n)));
        }
        self.wide(op, bytes().len(), |i| vec![nm(&bytes()[i])], move |c, i| f(c, Name(&bytes()[i])));
    }
}

/// The sequences of a session on a property list or an artifact.
type Prop = (&'static str, X, fn(&mut PropertyList));
type Art = (&'static str, X, fn(&mut Artifact));

pub fn props() -> Vec<Prop> {
    vec![
        ("MCID", X::I(3), |p| {
            p.identify(3);
        }),
        ("MCID", X::I(0), |p| {
            p.identify(0);
        }),
        ("MCID", X::I(i32::MAX as i64), |p| {
            p.identify(i32::MAX);
        }),
        ("ActualText", X::Text("t".into()), |p| {
            p.actual_text(TextStr("t"));
        }),
        ("ActualText", X::Text("\u{e9})".into()), |p| {
            p.actual_text(TextStr("\u{e9})"));
        }),
        ("ActualText", X::Lang(vec![("en".into(), "x".into())]), |p| {
            p.actual_text(TextStrWithLang(&[(LanguageIdentifier::from_lang("en").unwrap(), "x")]));
        }),
        ("Lang", X::Str(b"(".to_vec()), |p| {
            p.pair(Name(b"Lang"), Str(b"("));
        }),
        ("", X::Name(vec![]), |p| {
            p.pair(Name(b""), Name(b""));
        }),
    ]
}

pub fn arts() -> Vec<Art> {
    macro_rules! e {
        ($k:literal $m:ident $($v:expr => $n:literal),*) => {
            vec![$(($k, X::Name($n.to_vec()), (|a: &mut Artifact| { a.$m($v); }) as fn(&mut Artifact))),*]
        };
    }
    use ArtifactAttachment as AA;
    use ArtifactSubtype as AS;
    use ArtifactType as AT;
    let mut v: Vec<Art> = e!("Type" kind AT::Pagination => b"Pagination", AT::Layout => b"Layout",
        AT::Page => b"Page", AT::Background => b"Background", AT::Inline => b"Inline");
    v.extend(e!("Subtype" subtype AS::Header => b"Header", AS::Footer => b"Footer",
        AS::Watermark => b"Watermark", AS::PageNumber => b"PageNum", AS::Bates => b"Bates",
        AS::LineNumber => b"LineNum", AS::Redaction => b"Redaction",
        AS::Custom(Name(b"")) => b"", AS::Custom(Name(b"XX_a b")) => b"XX_a b"));
    v.push(("BBox", X::Arr(fs(&[0.0, -1.5, 10.25, 7.0])), |a| {
        a.bounding_box(Rect::new(0.0, -1.5, 10.25, 7.0));
    }));
    v.push(("Attached", X::Arr(vec![]), |a| {
        a.attached([]);
    }));
    v.push(("Attached", X::Arr(vec![name("Top")]), |a| {
        a.attached([AA::Top]);
    }));
    v.push((
        "Attached",
        X::Arr(vec![name("Left"), name("Right"), name("Bottom"), name("Top")]),
        |a| {
            a.attached([AA::Left, AA::Right, AA::Bottom, AA::Top]);
        },
    ));
    v
}

/// All operations.
pub fn ops() -> Vec<COp> {
    all().v
}

/// The operations over wide domains.
pub fn wide() -> Vec<WOp> {
    let mut o = all();
    o.wides();
    o.wide
}

impl Ops {
    /// The domains of the operations that are not just names or numbers.
    fn wides(&mut self) {
        let abs = |i: usize| f32s()[i].abs();
        let nf = f32s().len();
        let nb = bytes().len();
        self.wide("w", nf, move |i| fs(&[abs(i)]), move |c, i| drop(c.set_line_width(abs(i))));
        self.wide("i", 101, |i| vec![X::I(i as i64)], |c, i| drop(c.set_flatness(i as i32)));
        self.wide("d", dom::lists(F.len()), |i| vec![X::Arr(fs(&dom::list(F, i))), X::F(0.0)], |c, i| drop(c.set_dash_pattern(user(dom::list(F, i).into_iter()), 0.0)));
        self.wide("d", nf, |i| vec![X::Arr(fs(&[f32s()[i]])), X::F(f32s()[f32s().len() - 1 - i])], |c, i| {
            c.set_dash_pattern([f32s()[i]], f32s()[f32s().len() - 1 - i]);
        });
        self.wide("Tf", nb, |i| vec![nm(&bytes()[i]), X::F(12.0)], |c, i| drop(c.set_font(Name(&bytes()[i]), 12.0)));
        self.wide("Tf", nf, |i| vec![nm(b"F1"), X::F(f32s()[i])], |c, i| drop(c.set_font(Name(b"F1"), f32s()[i])));
        let s = |i: usize| vec![X::Str(bytes()[i].clone())];
        self.wide("Tj", nb, s, |c, i| drop(c.show(Str(&bytes()[i]))));
        self.wide("'", nb, s, |c, i| drop(c.next_line_show(Str(&bytes()[i]))));
        self.wide("\"", nb, |i| vec![X::F(1.0), X::F(0.0), X::Str(bytes()[i].clone())], |c, i| {
            c.next_line_show_and_set_word_and_char_spacing(1.0, 0.0, Str(&bytes()[i]));
        });
        self.wide("\"", dom::num_sets(2), |i| fs(&dom::num_set::<2>(i)).into_iter().chain([X::Str(b"x".to_vec())]).collect(), |c, i| {
            let [a, b] = dom::num_set(i);
            c.next_line_show_and_set_word_and_char_spacing(a, b, Str(b"x"));
        });
        self.wide("TJ", nb, |i| vec![X::Arr(vec![X::Str(bytes()[i].clone()), X::F(1.0), X::Str(bytes()[i].clone())])], |c, i| {
            c.show_positioned().items().show(Str(&bytes()[i])).adjust(1.0).show(Str(&bytes()[i]));
        });
        self.wide("TJ", nf, |i| vec![X::Arr(vec![X::F(f32s()[i]), X::Str(b"a".to_vec()), X::F(f32s()[i]), X::F(f32s()[i])])], |c, i| {
            c.show_positioned().items().adjust(f32s()[i]).show(Str(b"a")).adjust(f32s()[i]).adjust(f32s()[i]);
        });
        self.wide("CS", nb, |i| vec![nm(&bytes()[i])], |c, i| drop(c.set_stroke_color_space(Name(&bytes()[i]))));
        self.wide("cs", nb, |i| vec![nm(&bytes()[i])], |c, i| drop(c.set_fill_color_space(Name(&bytes()[i]))));
        self.wide("CS", nb, |i| vec![nm(&bytes()[i])], |c, i| drop(c.set_stroke_color_space(ColorSpaceOperand::Named(Name(&bytes()[i])))));
        self.wide("cs", nb, |i| vec![nm(&bytes()[i])], |c, i| drop(c.set_fill_color_space(ColorSpaceOperand::Named(Name(&bytes()[i])))));
        let nl = dom::lists(F.len());
        let l = |i: usize| fs(&dom::list(F, i));
        self.wide("SCN", nl, l, |c, i| drop(c.set_stroke_color(user(dom::list(F, i).into_iter()))));
        self.wide("scn", nl, l, |c, i| drop(c.set_fill_color(user(dom::list(F, i).into_iter()))));
        let lp = |i: usize| fs(&dom::list(F, i)).into_iter().chain([nm(b"P")]).collect::<Vec<_>>();
        self.wide("SCN", nl, lp, |c, i| drop(c.set_stroke_pattern(user(dom::list(F, i).into_iter()), Name(b"P"))));
        self.wide("scn", nl, lp, |c, i| drop(c.set_fill_pattern(user(dom::list(F, i).into_iter()), Name(b"P"))));
        let n4 = dom::num_sets(4);
        self.wide("SCN", n4, |i| fs(&dom::num_set::<4>(i)), |c, i| drop(c.set_stroke_color(dom::num_set::<4>(i))));
        self.wide("scn", n4, |i| fs(&dom::num_set::<4>(i)), |c, i| drop(c.set_fill_color(dom::num_set::<4>(i))));
        let pn = |i: usize| vec![X::F(0.5), nm(&bytes()[i])];
        self.wide("SCN", nb, pn, |c, i| drop(c.set_stroke_pattern([0.5], Name(&bytes()[i]))));
        self.wide("scn", nb, pn, |c, i| drop(c.set_fill_pattern([0.5], Name(&bytes()[i]))));
        let dict = |k: &[u8], v: X| X::Dict(vec![(k.to_vec(), v)]);
        let ni = i32s().len();
        let nt = texts().len();
        self.wide("DP", nb, |i| vec![nm(&bytes()[i]), nm(b"P")], |c, i| c.marked_content_point_with_properties(Name(&bytes()[i])).properties_named(Name(b"P")));
        self.wide("BDC", nb, |i| vec![nm(&bytes()[i]), nm(b"P")], |c, i| c.begin_marked_content_with_properties(Name(&bytes()[i])).properties_named(Name(b"P")));
        self.wide("DP", nb, |i| vec![nm(b"T"), nm(&bytes()[i])], |c, i| c.marked_content_point_with_properties(Name(b"T")).properties_named(Name(&bytes()[i])));
        self.wide("BDC", nb, |i| vec![nm(b"T"), nm(&bytes()[i])], |c, i| c.begin_marked_content_with_properties(Name(b"T")).properties_named(Name(&bytes()[i])));
        self.wide("BDC", nb, move |i| vec![nm(&bytes()[i]), dict(b"MCID", X::I(0))], |c, i| drop(c.begin_marked_content_with_properties(Name(&bytes()[i])).properties().identify(0)));
        self.wide("BDC", ni, move |i| vec![nm(b"P"), dict(b"MCID", X::I(i32s()[i] as i64))], |c, i| drop(c.begin_marked_content_with_properties(Name(b"P")).properties().identify(i32s()[i])));
        self.wide("DP", ni, move |i| vec![nm(b"P"), dict(b"MCID", X::I(i32s()[i] as i64))], |c, i| drop(c.marked_content_point_with_properties(Name(b"P")).properties().identify(i32s()[i])));
        self.wide("BDC", nt, move |i| vec![nm(b"Span"), dict(b"ActualText", X::Text(texts()[i].clone()))], |c, i| {
            c.begin_marked_content_with_properties(Name(b"Span")).properties().actual_text(TextStr(&texts()[i]));
        });
        self.wide("BDC", dom::rects(), move |i| vec![nm(b"Artifact"), dict(b"BBox", X::Arr(fs(&dom::rect(i))))], |c, i| {
            let [a, b, d, e] = dom::rect(i);
            c.begin_marked_content_with_properties(Name(b"Artifact")).properties().artifact().bounding_box(Rect::new(a, b, d, e));
        });
        // All numbers of operands and raw operands of the domains.
        self.wide("xx", ni, |i| vec![X::I(i32s()[i] as i64)], |c, i| drop(c.op("xx").operand(i32s()[i])));
        self.wide("xx", nf, |i| vec![X::F(f32s()[i])], |c, i| drop(c.op("xx").operand(f32s()[i])));
        self.wide("xx", nb, |i| vec![nm(&bytes()[i]), nm(&bytes()[i])], |c, i| drop(c.op("xx").operand(Name(&bytes()[i])).operand(Name(&bytes()[i]))));
        self.wide("xx", nb, |i| vec![X::Str(bytes()[i].clone())], |c, i| drop(c.op("xx").operand(Str(&bytes()[i]))));
        self.wide("xx", nt, |i| vec![X::Text(texts()[i].clone())], |c, i| drop(c.op("xx").operand(TextStr(&texts()[i]))));
    }
}

fn all() -> Ops {
    let mut o = Ops { v: vec![], wide: vec![], group: 0, fresh: true };
    // Special graphics state.
    o.nullary("q", |c| c.save_state());
    o.nullary("Q", |c| c.restore_state());
    o.simple("cm", |c, a: [f32; 6]| {
        c.transform(a);
    });
    // General graphics state.
    o.next();
    for w in F.iter().filter(|w| **w >= 0.0) {
        o.add(format!("w {w}"), vec![("w", fs(&[*w]))], |c| {
            c.set_line_width(*w);
        });
    }
    macro_rules! ints {
        ($op:literal $m:ident $($v:expr => $n:expr),* $(,)?) => {
            o.next();
            $(o.add(format!("{} {}", $op, stringify!($v)), vec![($op, vec![X::I($n)])], |c| { c.$m($v); });)*
        };
    }
    ints!("J" set_line_cap LineCapStyle::ButtCap => 0, LineCapStyle::RoundCap => 1,
        LineCapStyle::ProjectingSquareCap => 2);
    ints!("j" set_line_join LineJoinStyle::MiterJoin => 0, LineJoinStyle::RoundJoin => 1,
        LineJoinStyle::BevelJoin => 2);
    o.simple("M", |c, [a]| {
        c.set_miter_limit(a);
    });
    o.next();
    let dashes: &[&[f32]] = &[&[3.0, 2.5], &[], &[0.0], &[1.0, -2.0, 0.5], &[1e-7], &[3e9, 1.0]];
    for d in dashes {
        for p in [0.0f32, 4.5, -1.0, 1e9] {
            o.add(
                format!("d {d:?} {p}"),
                vec![("d", vec![X::Arr(fs(d)), X::F(p)])],
                move |c| {
                    c.set_dash_pattern(user(d.iter().copied()), p);
                },
            );
        }
    }
    macro_rules! names {
        ($op:literal $m:ident $($v:expr => $n:literal),* $(,)?) => {
            o.next();
            $(o.add(format!("{} {}", $op, stringify!($v)), vec![($op, vec![nm($n)])], |c| { c.$m($v); });)*
        };
    }
    names!("ri" set_rendering_intent
        RenderingIntent::AbsoluteColorimetric => b"AbsoluteColorimetric",
        RenderingIntent::RelativeColorimetric => b"RelativeColorimetric",
        RenderingIntent::Saturation => b"Saturation",
        RenderingIntent::Perceptual => b"Perceptual");
    ints!("i" set_flatness 50 => 50, 0 => 0, 1 => 1, 99 => 99, 100 => 100);
    o.named("gs", |c, n| {
        c.set_parameters(n);
    });
    // Path construction and painting.
    o.simple("m", |c, [x, y]| {
        c.move_to(x, y);
    });
    o.simple("l", |c, [x, y]| {
        c.line_to(x, y);
    });
    o.simple("c", |c, [a, b, d, e, f, g]| {
        c.cubic_to(a, b, d, e, f, g);
    });
    o.simple("v", |c, [a, b, d, e]| {
        c.cubic_to_initial(a, b, d, e);
    });
    o.simple("y", |c, [a, b, d, e]| {
        c.cubic_to_final(a, b, d, e);
    });
    o.nullary("h", |c| c.close_path());
    o.simple("re", |c, [a, b, d, e]| {
        c.rect(a, b, d, e);
    });
    o.nullary("S", |c| c.stroke());
    o.nullary("s", |c| c.close_and_stroke());
    o.nullary("f", |c| c.fill_nonzero());
    o.nullary("f*", |c| c.fill_even_odd());
    o.nullary("B", |c| c.fill_nonzero_and_stroke());
    o.nullary("B*", |c| c.fill_even_odd_and_stroke());
    o.nullary("b", |c| c.close_fill_nonzero_and_stroke());
    o.nullary("b*", |c| c.close_fill_even_odd_and_stroke());
    o.nullary("n", |c| c.end_path());
    o.nullary("W", |c| c.clip_nonzero());
    o.nullary("W*", |c| c.clip_even_odd());
    // Text.
    o.nullary("BT", |c| c.begin_text());
    o.nullary("ET", |c| c.end_text());
    o.simple("Tc", |c, [a]| {
        c.set_char_spacing(a);
    });
    o.simple("Tw", |c, [a]| {
        c.set_word_spacing(a);
    });
    o.simple("Tz", |c, [a]| {
        c.set_horizontal_scaling(a);
    });
    o.simple("TL", |c, [a]| {
        c.set_leading(a);
    });
    o.next();
    for n in N {
        for f in [12.0f32, 0.0, -0.5, 1e-7] {
            o.add(
                format!("Tf {:?} {f}", Name(n)),
                vec![("Tf", vec![nm(n), X::F(f)])],
                move |c| {
                    c.set_font(Name(n), f);
                },
            );
        }
    }
    ints!("Tr" set_text_rendering_mode TextRenderingMode::Fill => 0, TextRenderingMode::Stroke => 1,
        TextRenderingMode::FillStroke => 2, TextRenderingMode::Invisible => 3,
        TextRenderingMode::FillClip => 4, TextRenderingMode::StrokeClip => 5,
        TextRenderingMode::FillStrokeClip => 6, TextRenderingMode::Clip => 7);
    o.simple("Ts", |c, [a]| {
        c.set_rise(a);
    });
    o.simple("Td", |c, [a, b]| {
        c.next_line(a, b);
    });
    o.simple("TD", |c, [a, b]| {
        c.next_line_and_set_leading(a, b);
    });
    o.simple("Tm", |c, a: [f32; 6]| {
        c.set_text_matrix(a);
    });
    o.nullary("T*", |c| c.next_line_using_leading());
    o.next();
    for s in S {
        o.add(format!("Tj {:?}", Str(s)), vec![("Tj", vec![X::Str(s.to_vec())])], |c| {
            c.show(Str(s));
        });
    }
    o.next();
    for s in S {
        o.add(format!("' {:?}", Str(s)), vec![("'", vec![X::Str(s.to_vec())])], |c| {
            c.next_line_show(Str(s));
        });
    }
    o.next();
    for s in S {
        for (a, b) in [(1.0f32, 2.5f32), (0.0, -0.5), (-1e9, 1e-7)] {
            o.add(
                format!("\" {a} {b} {:?}", Str(s)),
                vec![("\"", vec![X::F(a), X::F(b), X::Str(s.to_vec())])],
                move |c| {
                    c.next_line_show_and_set_word_and_char_spacing(a, b, Str(s));
                },
            );
        }
    }
    // Positioned text: all item sequences up to length 3.
    o.next();
    #[derive(Clone, Copy)]
    enum It {
        S(&'static [u8]),
        A(f32),
    }
    let items = [It::S(b"AB"), It::A(2.0), It::S(b""), It::A(-0.5), It::S(b")\xff")];
    for len in [2usize, 0, 1, 3] {
        for i in 0..items.len().pow(len as u32) {
            let s: Vec<It> = crate::seq(i, items.len(), len).iter().map(|j| items[*j]).collect();
            let x = s
                .iter()
                .map(|it| match it {
                    It::S(s) => X::Str(s.to_vec()),
                    It::A(f) => X::F(*f),
                })
                .collect();
            o.add(format!("TJ #{len}.{i}"), vec![("TJ", vec![X::Arr(x)])], move |c| {
                let mut sp = c.show_positioned();
                let mut w = sp.items();
                for it in own(s.iter()) {
                    match it {
                        It::S(s) => w.show(Str(s)),
                        It::A(f) => w.adjust(*f),
                    };
                }
            });
        }
    }
    // Type 3 glyphs.
    o.nums("d0", |[a]| fs(&[a, 0.0]), |c, [a]| {
        c.start_color_glyph(a);
    });
    o.nums("d1", |[a, b, d, e, f]| fs(&[a, 0.0, b, d, e, f]), |c, [a, b, d, e, f]| {
        c.start_shape_glyph(a, b, d, e, f);
    });
    // Colour.
    macro_rules! spaces {
        ($op:literal $m:ident) => {
            names!($op $m ColorSpaceOperand::DeviceGray => b"DeviceGray",
                ColorSpaceOperand::DeviceRgb => b"DeviceRGB",
                ColorSpaceOperand::DeviceCmyk => b"DeviceCMYK",
                ColorSpaceOperand::Pattern => b"Pattern",
                ColorSpaceOperand::Named(Name(b"Cs1")) => b"Cs1",
                ColorSpaceOperand::Named(Name(b"")) => b"",
                Name(b"DeviceRGB") => b"DeviceRGB",
                Name(b"a/b") => b"a/b");
        };
    }
    spaces!("CS" set_stroke_color_space);
    spaces!("cs" set_fill_color_space);
    let comps: &[&[f32]] =
        &[&[0.5], &[], &[1.0, 0.0], &[0.25, -1.0, 1e-7], &[0.0, 0.0, 0.0, 1.0], &[1.0; 32]];
    o.next();
    for k in comps {
        o.add(format!("SCN {k:?}"), vec![("SCN", fs(k))], |c| {
            c.set_stroke_color(user(k.iter().copied()));
        });
    }
    o.next();
    for k in comps {
        o.add(format!("scn {k:?}"), vec![("scn", fs(k))], |c| {
            c.set_fill_color(user(k.iter().copied()));
        });
    }
    o.next();
    for k in comps {
        for n in N {
            let mut x = fs(k);
            x.push(nm(n));
            o.add(format!("SCN {k:?} {:?}", Name(n)), vec![("SCN", x)], |c| {
                c.set_stroke_pattern(user(k.iter().copied()), Name(n));
            });
        }
    }
    o.next();
    for k in comps {
        for n in N {
            let mut x = fs(k);
            x.push(nm(n));
            o.add(format!("scn {k:?} {:?}", Name(n)), vec![("scn", x)], |c| {
                c.set_fill_pattern(user(k.iter().copied()), Name(n));
            });
        }
    }
    o.simple("G", |c, [a]| {
        c.set_stroke_gray(a);
    });
    o.simple("g", |c, [a]| {
        c.set_fill_gray(a);
    });
    o.simple("RG", |c, [a, b, d]| {
        c.set_stroke_rgb(a, b, d);
    });
    o.simple("rg", |c, [a, b, d]| {
        c.set_fill_rgb(a, b, d);
    });
    o.simple("K", |c, [a, b, d, e]| {
        c.set_stroke_cmyk(a, b, d, e);
    });
    o.simple("k", |c, [a, b, d, e]| {
        c.set_fill_cmyk(a, b, d, e);
    });
    o.named("sh", |c, n| {
        c.shading(n);
    });
    o.named("Do", |c, n| {
        c.x_object(n);
    });
    // Marked content.
    o.named("MP", |c, n| {
        c.marked_content_point(n);
    });
    o.named("BMC", |c, n| {
        c.begin_marked_content(n);
    });
    o.nullary("EMC", |c| c.end_marked_content());
    for (op, dp) in [("DP", true), ("BDC", false)] {
        fn start<'a>(c: &'a mut Content, dp: bool, tag: &'static [u8]) -> MarkContent<'a> {
            if dp {
                c.marked_content_point_with_properties(Name(tag))
            } else {
                c.begin_marked_content_with_properties(Name(tag))
            }
        }
        o.next();
        for t in N {
            for n in N {
                o.add(
                    format!("{op} {:?} {:?}", Name(t), Name(n)),
                    vec![(op, vec![nm(t), nm(n)])],
                    move |c| start(c, dp, t).properties_named(Name(n)),
                );
            }
        }
        // Property lists: empty, every call, every ordered pair of calls.
        o.next();
        let ps = props();
        let k = ps.len();
        for len in [1usize, 0, 2] {
            for i in 0..k.pow(len as u32) {
                let s = crate::seq(i, k, len);
                if len == 2 && ps[s[0]].0 == ps[s[1]].0 {
                    continue;
                }
                let t = N[i % N.len()];
                let d = s.iter().map(|j| (ps[*j].0.as_bytes().to_vec(), ps[*j].1.clone())).collect();
                let f: Vec<_> = s.iter().map(|j| ps[*j].2).collect();
                o.add(
                    format!("{op} {:?} props {s:?}", Name(t)),
                    vec![(op, vec![nm(t), X::Dict(d)])],
                    move |c| {
                        let mut m = start(c, dp, t);
                        let mut p = m.properties();
                        own(f.iter()).for_each(|f| f(&mut p));
                    },
                );
            }
        }
        // Artifacts: with and without a property first, every call, every pair.
        o.next();
        let ar = arts();
        let k = ar.len();
        for len in [1usize, 0, 2] {
            for i in 0..k.pow(len as u32) {
                let s = crate::seq(i, k, len);
                if len == 2 && ar[s[0]].0 == ar[s[1]].0 {
                    continue;
                }
                let first = i % 2 == 1;
                let mut d: Vec<_> =
                    s.iter().map(|j| (ar[*j].0.as_bytes().to_vec(), ar[*j].1.clone())).collect();
                if first {
                    d.insert(0, (b"MCID".to_vec(), X::I(5)));
                }
                let f: Vec<_> = s.iter().map(|j| ar[*j].2).collect();
                o.add(
                    format!("{op} artifact {s:?}"),
                    vec![(op, vec![nm(b"Artifact"), X::Dict(d)])],
                    move |c| {
                        let mut m = start(c, dp, b"Artifact");
                        let mut p = m.properties();
                        if first {
                            p.identify(5);
                        }
                        let mut a = p.artifact();
                        own(f.iter()).for_each(|f| f(&mut a));
                    },
                );
            }
        }
    }
    o.nullary("BX", |c| c.begin_compat());
    o.nullary("EX", |c| c.end_compat());
    // Raw operations: no operand, every primitive, containers, in every mode.
    o.next();
    o.add("raw".into(), vec![("xx", vec![])], |c| {
        c.op("xx");
    });
    o.next();
    let prims: Vec<P> = PRIMS.iter().copied().filter(|p| !matches!(p, P::Ref(_))).collect();
    for p in &prims {
        let p = *p;
        o.add(format!("raw {p:?}"), vec![("xx", vec![p.x()])], move |c| {
            with_prim!(p, v => { c.op("xx").operand(v); })
        });
        o.add(format!("raw 1 {p:?} {p:?} /N"), vec![("xx", vec![X::I(1), p.x(), p.x(), name("N")])], move |c| {
            with_prim!(p, v => { c.op("xx").operand(1).operand(&v).operands([&v]).operand(Name(b"N")); })
        });
    }
    o.next();
    let trees = [
        T::A(vec![]),
        T::D(vec![]),
        T::A(vec![T::P(P::Name(b"")), T::A(vec![T::P(P::I(1))])]),
        T::D(vec![(b"K", T::P(P::Name(b""))), (b"", T::D(vec![(b"L", T::A(vec![]))]))]),
        T::A(vec![T::D(vec![(b"A", T::P(P::Str(b"(")))]), T::P(P::F(0.5))]),
    ];
    for t in &trees {
        for mode in MODES {
            let u = t.clone();
            o.add(
                format!("raw {t:?} {mode:?}"),
                vec![("xx", vec![t.x()])],
                move |c| u.emit(c.op("xx").obj(), mode).unwrap(),
            );
        }
        for u in &trees {
            let (a, b) = (t.clone(), u.clone());
            o.add(
                format!("raw {t:?} 7 {u:?}"),
                vec![("xx", vec![t.x(), X::I(7), u.x()])],
                move |c| {
                    let mut op = c.op("xx");
                    a.emit(op.obj(), Mode::Short).unwrap();
                    op.operand(7);
                    b.emit(op.obj(), Mode::Long).unwrap();
                },
            );
        }
    }
    o
}

/// Groups of operations that work on the same part of the graphics state, with
/// few but related operands (the same point, width or colour again), and how
/// deep to explore them in the quick and in the thorough tier.
pub fn families() -> Vec<(&'static str, Vec<COp>, u32, u32)> {
    let mut all = vec![];
    macro_rules! family {
        ($name:literal $quick:literal $deep:literal $($op:literal $want:expr, |$c:ident| $run:expr;)*) => {{
            let mut o = Ops { v: vec![], wide: vec![], group: 0, fresh: true };
            $(
                o.next();
                let want: Vec<X> = $want;
                let label: String = want.iter().map(|x| x.show() + " ").chain([$op.to_string()]).collect();
                o.add(label, vec![($op, want)], |$c| { let _ = $run; });
            )*
            all.push(($name, o.v, $quick, $deep));
        }};
    }
    let v = |f: &[f32]| fs(f);
    let s = |b: &[u8]| X::Str(b.to_vec());
    family!("paths" 6 7
        "m" v(&[0.0, 0.0]), |c| c.move_to(0.0, 0.0);
        "l" v(&[0.0, 0.0]), |c| c.line_to(0.0, 0.0);
        "l" v(&[4.0, 0.0]), |c| c.line_to(4.0, 0.0);
        "l" v(&[4.0, 3.0]), |c| c.line_to(4.0, 3.0);
        "l" v(&[0.0, 3.0]), |c| c.line_to(0.0, 3.0);
        "m" v(&[4.0, 3.0]), |c| c.move_to(4.0, 3.0);
        "h" vec![], |c| c.close_path();
        "re" v(&[0.0, 0.0, 4.0, 3.0]), |c| c.rect(0.0, 0.0, 4.0, 3.0);
        "f" vec![], |c| c.fill_nonzero();
        "S" vec![], |c| c.stroke();
    );
    family!("curves" 6 7
        "m" v(&[0.0, 0.0]), |c| c.move_to(0.0, 0.0);
        "c" v(&[0.0, 0.0, 4.0, 3.0, 4.0, 3.0]), |c| c.cubic_to(0.0, 0.0, 4.0, 3.0, 4.0, 3.0);
        "c" v(&[4.0, 3.0, 0.0, 0.0, 0.0, 0.0]), |c| c.cubic_to(4.0, 3.0, 0.0, 0.0, 0.0, 0.0);
        "v" v(&[4.0, 3.0, 4.0, 3.0]), |c| c.cubic_to_initial(4.0, 3.0, 4.0, 3.0);
        "y" v(&[4.0, 3.0, 4.0, 3.0]), |c| c.cubic_to_final(4.0, 3.0, 4.0, 3.0);
        "l" v(&[4.0, 3.0]), |c| c.line_to(4.0, 3.0);
        "h" vec![], |c| c.close_path();
        "b" vec![], |c| c.close_fill_nonzero_and_stroke();
    );
    family!("clipping" 6 7
        "q" vec![], |c| c.save_state();
        "Q" vec![], |c| c.restore_state();
        "re" v(&[0.0, 0.0, 4.0, 3.0]), |c| c.rect(0.0, 0.0, 4.0, 3.0);
        "W" vec![], |c| c.clip_nonzero();
        "W*" vec![], |c| c.clip_even_odd();
        "n" vec![], |c| c.end_path();
        "f" vec![], |c| c.fill_nonzero();
        "f*" vec![], |c| c.fill_even_odd();
        "B" vec![], |c| c.fill_nonzero_and_stroke();
        "h" vec![], |c| c.close_path();
    );
    family!("state" 6 7
        "q" vec![], |c| c.save_state();
        "Q" vec![], |c| c.restore_state();
        "cm" v(&[1.0, 0.0, 0.0, 1.0, 0.0, 0.0]), |c| c.transform([1.0, 0.0, 0.0, 1.0, 0.0, 0.0]);
        "cm" v(&[1.0, 0.0, 0.0, 1.0, 5.0, -5.0]), |c| c.transform([1.0, 0.0, 0.0, 1.0, 5.0, -5.0]);
        "cm" v(&[1.0, 0.0, 0.0, 1.0, -5.0, 5.0]), |c| c.transform([1.0, 0.0, 0.0, 1.0, -5.0, 5.0]);
        "w" v(&[1.0]), |c| c.set_line_width(1.0);
        "w" v(&[2.0]), |c| c.set_line_width(2.0);
        "gs" vec![nm(b"A")], |c| c.set_parameters(Name(b"A"));
        "Do" vec![nm(b"A")], |c| c.x_object(Name(b"A"));
        "S" vec![], |c| c.stroke();
    );
    family!("colours" 5 6
        "q" vec![], |c| c.save_state();
        "Q" vec![], |c| c.restore_state();
        "g" v(&[0.0]), |c| c.set_fill_gray(0.0);
        "G" v(&[0.0]), |c| c.set_stroke_gray(0.0);
        "rg" v(&[0.0, 0.0, 0.0]), |c| c.set_fill_rgb(0.0, 0.0, 0.0);
        "k" v(&[0.0, 0.0, 0.0, 1.0]), |c| c.set_fill_cmyk(0.0, 0.0, 0.0, 1.0);
        "RG" v(&[1.0, 0.0, 0.0]), |c| c.set_stroke_rgb(1.0, 0.0, 0.0);
        "cs" vec![nm(b"DeviceRGB")], |c| c.set_fill_color_space(ColorSpaceOperand::DeviceRgb);
        "cs" vec![nm(b"Pattern")], |c| c.set_fill_color_space(ColorSpaceOperand::Pattern);
        "CS" vec![nm(b"DeviceGray")], |c| c.set_stroke_color_space(ColorSpaceOperand::DeviceGray);
        "scn" v(&[0.0]), |c| c.set_fill_color([0.0]);
        "scn" v(&[0.0, 0.0, 0.0]), |c| c.set_fill_color([0.0, 0.0, 0.0]);
        "scn" vec![nm(b"P")], |c| c.set_fill_pattern([], Name(b"P"));
        "SCN" v(&[0.0]), |c| c.set_stroke_color([0.0]);
        "f" vec![], |c| c.fill_nonzero();
    );
    family!("text" 5 6
        "BT" vec![], |c| c.begin_text();
        "ET" vec![], |c| c.end_text();
        "Tf" vec![nm(b"F"), X::F(12.0)], |c| c.set_font(Name(b"F"), 12.0);
        "TL" v(&[12.0]), |c| c.set_leading(12.0);
        "Td" v(&[0.0, -12.0]), |c| c.next_line(0.0, -12.0);
        "Td" v(&[0.0, 12.0]), |c| c.next_line(0.0, 12.0);
        "TD" v(&[0.0, -12.0]), |c| c.next_line_and_set_leading(0.0, -12.0);
        "Tm" v(&[1.0, 0.0, 0.0, 1.0, 0.0, 0.0]), |c| c.set_text_matrix([1.0, 0.0, 0.0, 1.0, 0.0, 0.0]);
        "T*" vec![], |c| c.next_line_using_leading();
        "Tj" vec![s(b"a")], |c| c.show(Str(b"a"));
        "Tj" vec![s(b"")], |c| c.show(Str(b""));
        "'" vec![s(b"a")], |c| c.next_line_show(Str(b"a"));
        "\"" vec![X::F(0.0), X::F(0.0), s(b"a")], |c| c.next_line_show_and_set_word_and_char_spacing(0.0, 0.0, Str(b"a"));
        "TJ" vec![X::Arr(vec![s(b"a")])], |c| c.show_positioned().items().show(Str(b"a"));
        "TJ" vec![X::Arr(vec![X::F(-100.0)])], |c| c.show_positioned().items().adjust(-100.0);
    );
    family!("text state" 6 7
        "BT" vec![], |c| c.begin_text();
        "ET" vec![], |c| c.end_text();
        "q" vec![], |c| c.save_state();
        "Q" vec![], |c| c.restore_state();
        "Tc" v(&[0.0]), |c| c.set_char_spacing(0.0);
        "Tw" v(&[0.0]), |c| c.set_word_spacing(0.0);
        "Tz" v(&[100.0]), |c| c.set_horizontal_scaling(100.0);
        "Tr" vec![X::I(0)], |c| c.set_text_rendering_mode(TextRenderingMode::Fill);
        "Ts" v(&[0.0]), |c| c.set_rise(0.0);
        "Tj" vec![s(b"a")], |c| c.show(Str(b"a"));
    );
    let mcid = |i: i64| X::Dict(vec![(b"MCID".to_vec(), X::I(i))]);
    family!("marked content" 6 7
        "BMC" vec![nm(b"P")], |c| c.begin_marked_content(Name(b"P"));
        "BDC" vec![nm(b"P"), mcid(0)], |c| c.begin_marked_content_with_properties(Name(b"P")).properties().identify(0);
        "BDC" vec![nm(b"P"), mcid(1)], |c| c.begin_marked_content_with_properties(Name(b"P")).properties().identify(1);
        "BDC" vec![nm(b"P"), nm(b"A")], |c| c.begin_marked_content_with_properties(Name(b"P")).properties_named(Name(b"A"));
        "EMC" vec![], |c| c.end_marked_content();
        "MP" vec![nm(b"P")], |c| c.marked_content_point(Name(b"P"));
        "q" vec![], |c| c.save_state();
        "Q" vec![], |c| c.restore_state();
        "BT" vec![], |c| c.begin_text();
        "ET" vec![], |c| c.end_text();
    );
    family!("glyphs and compatibility" 6 7
        "d0" v(&[1.0, 0.0]), |c| c.start_color_glyph(1.0);
        "d1" v(&[1.0, 0.0, 0.0, 0.0, 4.0, 3.0]), |c| c.start_shape_glyph(1.0, 0.0, 0.0, 4.0, 3.0);
        "BX" vec![], |c| c.begin_compat();
        "EX" vec![], |c| c.end_compat();
        "g" v(&[0.5]), |c| c.set_fill_gray(0.5);
        "sh" vec![nm(b"A")], |c| c.shading(Name(b"A"));
        "xx" vec![], |c| c.op("xx");
        "xx" vec![X::I(1)], |c| c.op("xx").operand(1);
        "q" vec![], |c| c.save_state();
        "Q" vec![], |c| c.restore_state();
    );
    all
}

/// Does the content stream consist of exactly these operations?
pub fn compare<'a>(
    out: &[u8],
    want: impl IntoIterator<Item = &'a (&'static str, Vec<X>)>,
) -> Result<(), String> {
    let got = pdf::parse_content(out)?;
    let mut n = 0;
    for (op, operands) in want {
        let Some(g) = got.get(n) else {
            return Err(format!("operation {n} ({op}) is missing"));
        };
        if g.operator != op.as_bytes()
            || g.operands.len() != operands.len()
            || !operands.iter().zip(&g.operands).all(|(x, v)| matches(x, v))
        {
            return Err(format!(
                "operation {n} reads back as {g:?}, expected {} {op}",
                operands.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")
            ));
        }
        n += 1;
    }
    if got.len() > n {
        return Err(format!("unexpected operation {:?}", got[n]));
    }
    Ok(())
}
