//! C27: arguments are rejected exactly when documented, leaving no trace.
use mc::gen::{layout, settings};
use mc::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

fn main() {
    guard(explore)
}

type Call<W> = Box<dyn Fn(&mut W) + Send + Sync>;

/// A call with its verdict and the entry (or operation) an accepted call adds.
struct Step<W: ?Sized> {
    label: String,
    ok: bool,
    call: Call<W>,
    want: Option<(&'static str, X)>,
}

/// A kind of writer: runs a body on a new writer inside a chunk.
struct Host<W: 'static> {
    name: &'static str,
    run: fn(&mut Chunk, &mut dyn FnMut(&mut W)),
    steps: Vec<Step<W>>,
    /// Entries may only be given once.
    dict: bool,
}

impl<W: 'static> Host<W> {
    /// Add a call. Calls with the same key are alternatives of one method.
    fn add(&mut self, label: impl Into<String>, ok: bool, want: Option<(&'static str, X)>, call: impl Fn(&mut W) + Send + Sync + 'static) {
        self.steps.push(Step { label: label.into(), ok, call: Box::new(call), want });
    }

    /// Run the steps, each caught on its own. Returns the chunk and which
    /// calls panicked.
    fn exec(&self, s: &[usize], skip_bad: bool, pretty: bool) -> (Chunk, Vec<bool>) {
        let mut ch = Chunk::with_settings(settings(pretty));
        ch.indirect(Ref::new(1)).dict().pair(Name(b"Before"), 1);
        let mut panics = vec![];
        (self.run)(&mut ch, &mut |w| {
            for i in s {
                let st = &self.steps[*i];
                if !skip_bad || st.ok {
                    panics.push(catch(|| (st.call)(w)).is_err());
                }
            }
        });
        ch.indirect(Ref::new(9)).array().item(2);
        (ch, panics)
    }

    fn explore(&self, c: &Ctx, len: usize) {
        c.phase(self.name);
        let n = self.steps.len();
        let compatible = |s: &[usize]| {
            !self.dict
                || s.iter().enumerate().all(|(i, a)| {
                    let k = |x: usize| self.steps[x].want.as_ref().filter(|_| self.steps[x].ok).map(|w| w.0);
                    s[..i].iter().all(|b| k(*a).is_none() || k(*a) != k(*b))
                })
        };
        for l in 0..=len {
            par(n.pow(l as u32), |i| {
                let s = seq(i, n, l);
                if !compatible(&s) {
                    return;
                }
                let what = |p| format!("{}: {} {}", self.name, s.iter().map(|i| self.steps[*i].label.clone()).collect::<Vec<_>>().join("; "), layout(p));
                for pretty in [false, true] {
                    let r = catch(|| (self.exec(&s, false, pretty), self.exec(&s, true, pretty)));
                    let ((ch, panics), (clean, _)) = match r {
                        Ok(r) => r,
                        Err(p) => return c.fail(&what(pretty), || format!("{}\nwriter failed after a rejected call: {p}", what(pretty))),
                    };
                    for (i, p) in s.iter().zip(&panics) {
                        let st = &self.steps[*i];
                        c.check(*p != st.ok, &what(pretty), || {
                            format!("{}\n{} was {}", what(pretty), st.label, if *p { "rejected" } else { "accepted" })
                        });
                    }
                    let parsed = pdf::parse_chunk(ch.as_bytes()).and_then(|o| self.verify(&o, &s));
                    if let Err(e) = parsed {
                        c.fail(&what(pretty), || format!("{}\n{e}\n{}", what(pretty), show_out(ch.as_bytes())));
                    }
                    c.check(ch.as_bytes() == clean.as_bytes(), &what(pretty), || {
                        format!("{}\nrejected calls left a trace:\n{}\nwithout them:\n{}", what(pretty), show_out(ch.as_bytes()), show_out(clean.as_bytes()))
                    });
                    let mut p = Pdf::new();
                    p.extend(&ch);
                    if let Err(e) = pdf::parse_doc(&p.finish(), None).and_then(|d| pdf::check_xref(&d)) {
                        c.fail(&what(pretty), || format!("{}\nfinished file: {e}", what(pretty)));
                    }
                    c.sample(|| format!("{} -> rejected {panics:?}: {}", what(pretty), show_out(ch.as_bytes())));
                }
                c.states_by_construction(1);
                c.steps(4 * l as u64 + 8);
                c.traces_n(2);
            });
        }
        c.note(self.name, format!("all sequences of up to {len} of {n} calls"));
    }

    fn verify(&self, o: &[pdf::IObj], s: &[usize]) -> Result<(), String> {
        if o.len() != 3 || o[0].val != pdf::parse_value(b"<</Before 1>>")? || o[2].val != pdf::parse_value(b"[2]")? {
            return Err("the objects around the writer are disturbed".into());
        }
        // Content streams are compared as operations.
        if let (pdf::V::Dict(d), true) = (&o[1].val, self.dict) {
            let mut d = d;
            if let Some(e) = d.iter().find(|e| e.0 == b"DecodeParms") {
                d = match &e.1 {
                    pdf::V::Dict(d) => d,
                    v => return Err(format!("decode parameters are {v:?}")),
                };
            }
            for i in s {
                let st = &self.steps[*i];
                if let (true, Some((k, x))) = (st.ok, &st.want) {
                    let found: Vec<_> = d.iter().filter(|e| e.0 == k.as_bytes()).collect();
                    if found.len() != 1 || !matches(x, &found[0].1) {
                        return Err(format!("{} wrote {found:?}", st.label));
                    }
                }
            }
        } else if let Some(data) = &o[1].stream {
            let ops = pdf::parse_content(data)?;
            let want: Vec<_> = s.iter().map(|i| &self.steps[*i]).filter(|s| s.ok).collect();
            let ok = ops.len() == want.len()
                && ops.iter().zip(&want).all(|(o, w)| match &w.want {
                    Some((k, x)) => o.operator == k.as_bytes() && o.operands.len() == 1 && matches(x, &o.operands[0]),
                    None => true,
                });
            if !ok {
                return Err(format!("the stream reads back as {ops:?}"));
            }
        }
        Ok(())
    }
}

const BAD_F: &[f32] = &[-1.0, -1e-45, -f32::MAX, f32::NEG_INFINITY];
const OK_F: &[f32] = &[0.0, 2.5, 1e-45, f32::MAX, -0.0];

fn content() -> Host<Content> {
    let mut h: Host<Content> = Host {
        name: "content stream",
        run: |ch, f| {
            let mut ct = Content::with_settings(settings(ch.as_bytes().windows(2).any(|w| w == b"  ")));
            f(&mut ct);
            let b = ct.finish();
            ch.stream(Ref::new(2), &b);
        },
        steps: vec![],
        dict: false,
    };
    for w in OK_F {
        let w = *w;
        h.add(format!("set_line_width({w:?})"), true, Some(("w", X::F(w))), move |c| drop(c.set_line_width(w)));
    }
    for w in BAD_F {
        h.add(format!("set_line_width({w:?})"), false, None, |c| drop(c.set_line_width(*w)));
    }
    for f in [0, 100, 50] {
        h.add(format!("set_flatness({f})"), true, Some(("i", X::I(f as i64))), move |c| drop(c.set_flatness(f)));
    }
    for f in [-1, 101, i32::MIN, i32::MAX] {
        h.add(format!("set_flatness({f})"), false, None, move |c| drop(c.set_flatness(f)));
    }
    h.add("save_state", true, None, |c| drop(c.save_state()));
    h.add("restore_state", true, None, |c| drop(c.restore_state()));
    h.add("show_positioned", true, None, |c| {
        c.show_positioned().items().show(Str(b"a")).adjust(2.0);
    });
    h.add("set_parameters", true, Some(("gs", X::Name(vec![]))), |c| drop(c.set_parameters(Name(b""))));
    h
}

fn decode_parms() -> Host<DecodeParms<'static>> {
    let mut h: Host<DecodeParms<'static>> = Host {
        name: "decode parameters",
        run: |ch, f| {
            let mut s = ch.stream(Ref::new(2), b"q");
            s.filter(Filter::FlateDecode);
            let mut d = s.decode_parms();
            // The steps hold no borrow of the writer.
            let d: &mut DecodeParms<'static> = unsafe { std::mem::transmute(&mut d) };
            f(d);
        },
        steps: vec![],
        dict: true,
    };
    for v in [1, 4, i32::MAX] {
        h.add(format!("colors({v})"), true, Some(("Colors", X::I(v as i64))), move |d| drop(d.colors(v)));
    }
    for v in [0, -1, i32::MIN] {
        h.add(format!("colors({v})"), false, None, move |d| drop(d.colors(v)));
    }
    for v in [1, 2, 4, 8, 16] {
        h.add(format!("bits_per_component({v})"), true, Some(("BitsPerComponent", X::I(v as i64))), move |d| drop(d.bits_per_component(v)));
    }
    for v in [0, 3, 5, 7, 12, 15, 17, 32, -1, -8, i32::MAX, i32::MIN] {
        h.add(format!("bits_per_component({v})"), false, None, move |d| drop(d.bits_per_component(v)));
    }
    h.add("predictor", true, Some(("Predictor", X::I(14))), |d| drop(d.predictor(Predictor::PngPaeth)));
    h.add("columns", true, Some(("Columns", X::I(-3))), |d| drop(d.columns(-3)));
    h
}

fn tiling() -> Host<TilingPattern<'static>> {
    let mut h: Host<TilingPattern<'static>> = Host {
        name: "tiling pattern",
        run: |ch, f| {
            let mut d = ch.tiling_pattern(Ref::new(2), b"q");
            let d: &mut TilingPattern<'static> = unsafe { std::mem::transmute(&mut d) };
            f(d);
        },
        steps: vec![],
        dict: true,
    };
    for v in [1.0, -7.5, 1e-45, -1e-45, f32::MAX] {
        h.add(format!("x_step({v:?})"), true, Some(("XStep", X::F(v))), move |d| drop(d.x_step(v)));
        h.add(format!("y_step({v:?})"), true, Some(("YStep", X::F(v))), move |d| drop(d.y_step(v)));
    }
    for v in [0.0, -0.0] {
        h.add(format!("x_step({v:?})"), false, None, move |d| drop(d.x_step(v)));
        h.add(format!("y_step({v:?})"), false, None, move |d| drop(d.y_step(v)));
    }
    h.add("bbox", true, Some(("BBox", x("[0 1 2 3.5]"))), |d| drop(d.bbox(Rect::new(0.0, 1.0, 2.0, 3.5))));
    h.add("resources", true, Some(("Resources", x("<<>>"))), |d| drop(d.resources()));
    h.add("paint_type", true, Some(("PaintType", X::I(2))), |d| drop(d.paint_type(PaintType::Uncolored)));
    h
}

fn icc() -> Host<IccProfile<'static>> {
    let mut h: Host<IccProfile<'static>> = Host {
        name: "ICC profile",
        run: |ch, f| {
            let mut d = ch.icc_profile(Ref::new(2), b"q");
            let d: &mut IccProfile<'static> = unsafe { std::mem::transmute(&mut d) };
            f(d);
        },
        steps: vec![],
        dict: true,
    };
    for v in -3..=9 {
        let ok = [1, 3, 4].contains(&v);
        h.add(format!("n({v})"), ok, ok.then_some(("N", X::I(v as i64))), move |d| drop(d.n(v)));
    }
    h.add("range", true, Some(("Range", x("[0 1]"))), |d| drop(d.range([0.0, 1.0])));
    h.add("alternate", true, Some(("Alternate", x("/DeviceRGB"))), |d| d.alternate().device_rgb());
    h.add("metadata", true, Some(("Metadata", X::Ref(4))), |d| drop(d.metadata(Ref::new(4))));
    h
}

fn outline() -> Host<Outline<'static>> {
    let mut h: Host<Outline<'static>> = Host {
        name: "outline",
        run: |ch, f| {
            let mut d = ch.outline(Ref::new(2));
            let d: &mut Outline<'static> = unsafe { std::mem::transmute(&mut d) };
            f(d);
        },
        steps: vec![],
        dict: true,
    };
    for v in [0, 1, 100, i32::MAX, -1, -2, i32::MIN] {
        h.add(format!("count({v})"), v >= 0, (v >= 0).then_some(("Count", X::I(v as i64))), move |d| drop(d.count(v)));
    }
    h.add("first", true, Some(("First", X::Ref(3))), |d| drop(d.first(Ref::new(3))));
    h.add("last", true, Some(("Last", X::Ref(4))), |d| drop(d.last(Ref::new(4))));
    // Items may have any count.
    h
}

fn item() -> Host<OutlineItem<'static>> {
    let mut h: Host<OutlineItem<'static>> = Host {
        name: "outline item",
        run: |ch, f| {
            let mut d = ch.outline_item(Ref::new(2));
            let d: &mut OutlineItem<'static> = unsafe { std::mem::transmute(&mut d) };
            f(d);
        },
        steps: vec![],
        dict: true,
    };
    for v in [0, 1, -1, i32::MAX, i32::MIN] {
        h.add(format!("count({v})"), true, Some(("Count", X::I(v as i64))), move |d| drop(d.count(v)));
    }
    h.add("title", true, Some(("Title", X::Text("t".into()))), |d| drop(d.title(TextStr("t"))));
    h
}

const PAGE_MODES: &[(PageMode, &str)] = &[
    (PageMode::UseNone, "/UseNone"),
    (PageMode::UseOutlines, "/UseOutlines"),
    (PageMode::UseThumbs, "/UseThumbs"),
    (PageMode::FullScreen, "/FullScreen"),
    (PageMode::UseOC, "/UseOC"),
    (PageMode::UseAttachments, "/UseAttachments"),
];

fn viewer() -> Host<ViewerPreferences<'static>> {
    let mut h: Host<ViewerPreferences<'static>> = Host {
        name: "viewer preferences",
        run: |ch, f| {
            let mut d = ch.indirect(Ref::new(2)).start::<ViewerPreferences>();
            let d: &mut ViewerPreferences<'static> = unsafe { std::mem::transmute(&mut d) };
            f(d);
        },
        steps: vec![],
        dict: true,
    };
    for (m, n) in PAGE_MODES {
        let ok = *m != PageMode::FullScreen;
        h.add(format!("non_full_screen_page_mode({m:?})"), ok, ok.then(|| ("NonFullScreenPageMode", x(n))), |d| {
            drop(d.non_full_screen_page_mode(*m))
        });
    }
    h.add("hide_toolbar", true, Some(("HideToolbar", X::Bool(true))), |d| drop(d.hide_toolbar(true)));
    h.add("fit_window", true, Some(("FitWindow", X::Bool(false))), |d| drop(d.fit_window(false)));
    h.add("direction", true, Some(("Direction", x("/R2L"))), |d| drop(d.direction(Direction::R2L)));
    h
}

/// Rejected calls among accepted ones on the ordered colour space writers.
fn ordered(c: &Ctx) {
    // 0-2 alternate space, 3-5 tint, 6 attributes (DeviceN).
    fn sep(cs: ColorSpace<'_>, s: &[usize]) -> Vec<bool> {
        let mut w = cs.separation(Name(b"Spot"));
        s.iter()
            .map(|i| {
                catch(|| match i {
                    0 => drop(w.alternate_device(tables::device("Rgb"))),
                    1 => w.alternate_color_space().device_gray(),
                    2 => drop(w.alternate_color_space_ref(Ref::new(5))),
                    3 => drop(w.tint_ref(Ref::new(7))),
                    4 => drop(w.tint_exponential().n(1.0)),
                    _ => drop(w.tint_stitching()),
                })
                .is_err()
            })
            .collect()
    }
    fn dev(cs: ColorSpace<'_>, s: &[usize]) -> Vec<bool> {
        let mut w = cs.device_n([Name(b"A"), Name(b"B")]);
        s.iter()
            .map(|i| {
                catch(|| match i {
                    0 => drop(w.alternate_device(tables::device("Rgb"))),
                    1 => w.alternate_color_space().device_gray(),
                    2 => drop(w.alternate_color_space_ref(Ref::new(5))),
                    3 => drop(w.tint_ref(Ref::new(7))),
                    4 => drop(w.tint_exponential().n(1.0)),
                    5 => drop(w.tint_stitching()),
                    _ => drop(w.attrs()),
                })
                .is_err()
            })
            .collect()
    }
    c.phase("colour space call order");
    type Run = for<'a, 'b> fn(ColorSpace<'a>, &'b [usize]) -> Vec<bool>;
    let max = c.bound(5, 6);
    for (name, run, k) in [("Separation", sep as Run, 6), ("DeviceN", dev as Run, 7)] {
        for len in 0..=max {
            par((k as usize).pow(len as u32), |i| {
                let s = seq(i, k, len);
                // The order the format requires.
                let mut stage = 0;
                let ok: Vec<bool> = s
                    .iter()
                    .map(|i| {
                        let g = match i {
                            0..=2 => 0,
                            3..=5 => 1,
                            _ => 2,
                        };
                        let ok = g == stage;
                        stage += ok as usize;
                        ok
                    })
                    .collect();
                let good: Vec<usize> = s.iter().zip(&ok).filter(|p| *p.1).map(|p| *p.0).collect();
                let what = || format!("{name} calls {s:?}");
                for pretty in [false, true] {
                    let go = |s: &[usize]| {
                        let mut ch = Chunk::with_settings(settings(pretty));
                        let p = run(ch.color_space(Ref::new(2)), s);
                        ch.indirect(Ref::new(3)).array();
                        (ch, p)
                    };
                    match catch(|| (go(&s), go(&good))) {
                        Err(p) => c.fail(&what(), || format!("{}\npanicked {p}", what())),
                        Ok(((ch, p), (clean, _))) => {
                            c.check(p.iter().zip(&ok).all(|(p, o)| p != o), &what(), || format!("{}\nrejected {p:?}", what()));
                            c.check(ch.as_bytes() == clean.as_bytes(), &what(), || {
                                format!("{}\nrejected calls left a trace:\n{}\n{}", what(), show_out(ch.as_bytes()), show_out(clean.as_bytes()))
                            });
                            if let Err(e) = pdf::parse_chunk(ch.as_bytes()) {
                                c.fail(&what(), || format!("{}\n{e}", what()));
                            }
                        }
                    }
                }
                c.states_by_construction(1);
                c.steps(2 * len as u64 + 4);
                c.traces_n(2);
            });
        }
    }
    c.note("colour space call order with rejected calls", format!("all sequences of up to {max}"));
}

/// Every value of single arguments.
fn ranges(c: &Ctx) {
    let one = |what: &dyn Fn() -> String, ok: bool, got: bool| {
        c.check(ok == got, &what(), || format!("{} was {}", what(), if got { "accepted" } else { "rejected" }));
    };
    // All integers near zero and near every power of two.
    let near = c.bound(1 << 12, 1 << 17);
    let mut ints: Vec<i32> = (-near..=near).collect();
    for s in 0..32 {
        for d in -300i64..=300 {
            for v in [(1i64 << s) + d, -(1i64 << s) + d] {
                if let Ok(v) = i32::try_from(v) {
                    ints.push(v);
                }
            }
        }
    }
    ints.sort();
    ints.dedup();
    c.phase("integers");
    par(ints.len(), |i| {
        let v = ints[i];
        let tries: [(&str, bool, &dyn Fn()); 6] = [
            ("Ref::new", v > 0, &|| assert_eq!(Ref::new(v).get(), v)),
            ("set_flatness", (0..=100).contains(&v), &|| {
                let mut ct = Content::new();
                ct.set_flatness(v);
                assert_eq!(ct.finish().as_slice(), format!("{v} i").as_bytes());
            }),
            ("colors", v > 0, &|| {
                Chunk::new().stream(Ref::new(1), b"").decode_parms().colors(v);
            }),
            ("bits_per_component", [1, 2, 4, 8, 16].contains(&v), &|| {
                Chunk::new().stream(Ref::new(1), b"").decode_parms().bits_per_component(v);
            }),
            ("IccProfile::n", [1, 3, 4].contains(&v), &|| {
                Chunk::new().icc_profile(Ref::new(1), b"").n(v);
            }),
            ("Outline::count", v >= 0, &|| {
                Chunk::new().outline(Ref::new(1)).count(v);
            }),
        ];
        for (name, ok, f) in tries {
            one(&|| format!("{name}({v})"), ok, catch(f).is_ok());
        }
        c.states_by_construction(6);
        c.steps(6);
        c.traces_n(6);
    });
    c.note("integer arguments", format!("{} values: all up to {near} from zero and 300 from every power of two", ints.len()));
    c.phase("floats");
    // Thorough: every positive float and every float with 14 high mantissa
    // bits; quick: 7 mantissa bits.
    let shift = c.bound(16, 9);
    par(1 << (32 - shift), |i| {
        let f = f32::from_bits((i as u32) << shift);
        if f.is_finite() {
            one(&|| format!("set_line_width({f:e})"), f >= 0.0, catch(|| drop(Content::new().set_line_width(f))).is_ok());
            one(&|| format!("x_step({f:e})"), f != 0.0, catch(|| drop(Chunk::new().tiling_pattern(Ref::new(1), b"").x_step(f))).is_ok());
            one(&|| format!("y_step({f:e})"), f != 0.0, catch(|| drop(Chunk::new().tiling_pattern(Ref::new(1), b"").y_step(f))).is_ok());
        }
        c.states_by_construction(3);
        c.steps(3);
        c.traces_n(3);
    });
    // The smallest numbers of both signs.
    par(c.bound(1 << 12, 1 << 20), |i| {
        for s in [0u32, 1 << 31] {
            let f = f32::from_bits(i as u32 | s);
            one(&|| format!("set_line_width({f:e})"), f >= 0.0, catch(|| drop(Content::new().set_line_width(f))).is_ok());
            one(&|| format!("x_step({f:e})"), f != 0.0, catch(|| drop(Chunk::new().tiling_pattern(Ref::new(1), b"").x_step(f))).is_ok());
            one(&|| format!("y_step({f:e})"), f != 0.0, catch(|| drop(Chunk::new().tiling_pattern(Ref::new(1), b"").y_step(f))).is_ok());
        }
        c.states_by_construction(6);
        c.steps(6);
        c.traces_n(6);
    });
    c.note("float arguments", format!("all sign, exponent and high mantissa bits down to bit {shift}, all tiny numbers"));
    c.phase("object numbers");
    for v in [1, 2, i32::MAX - 1, i32::MAX] {
        let r = Ref::new(v);
        one(&|| format!("next of {v}"), v < i32::MAX, catch(|| assert_eq!(r.next().get(), v + 1)).is_ok());
        let mut b = r;
        let got = catch(|| assert_eq!(b.bump().get(), v)).is_ok();
        one(&|| format!("bump of {v}"), v < i32::MAX, got);
        let want = if v < i32::MAX { v + 1 } else { v };
        c.check(b.get() == want, "bump", || format!("bumping {v} left {}", b.get()));
        c.states_by_construction(2);
        c.traces_n(2);
    }
    // Streams too long for their length entry. The data is never touched, so
    // this takes no memory.
    c.phase("long streams");
    for over in [0usize, 1, 7, 1 << 31] {
        let data = vec![0u8; (1 << 31) + over];
        for pretty in [false, true] {
            for ctor in streams::CTORS {
                let mut ch = Chunk::with_settings(settings(pretty));
                ch.indirect(Ref::new(1)).primitive(1);
                let r = catch(|| (ctor.run)(&mut ch, Ref::new(2), &data, &mut |_| {}));
                let what = || format!("{} with {} bytes", ctor.name, data.len());
                one(&what, false, r.is_ok());
                ch.indirect(Ref::new(3)).primitive(2);
                let mut p = Pdf::new();
                p.extend(&ch);
                let d = pdf::parse_doc(&p.finish(), None).and_then(|d| pdf::check_xref(&d).map(|_| d));
                match d {
                    Ok(d) => {
                        let int = |n, v| d.obj(n).map(|o| o.val == pdf::V::Int(v)) == Some(true);
                        c.check(int(1, 1) && int(3, 2), &what(), || format!("{} disturbed its neighbours", what()));
                    }
                    Err(e) => c.fail(&what(), || format!("{}: {e}\n{}", what(), show_out(ch.as_bytes()))),
                }
                c.states_by_construction(1);
                c.steps(3);
                c.traces_n(1);
            }
        }
    }
    if c.thorough {
        // The longest permitted stream.
        let data = vec![0u8; i32::MAX as usize];
        let mut ch = Chunk::new();
        let r = catch(|| drop(ch.stream(Ref::new(1), &data)));
        one(&|| "stream with i32::MAX bytes".into(), true, r.is_ok());
        let b = ch.as_bytes();
        let ok = b.len() > data.len() && show_bytes(&b[..60]).contains("/Length 2147483647") && b[b.len() - 30..].windows(9).any(|w| w == b"endstream");
        c.check(ok, "longest stream", || "the longest permitted stream is not written in full".into());
        c.traces_n(1);
    }
}

fn explore() {
    let c = Ctx::new("C27");
    content().explore(c, c.bound(3, 5));
    decode_parms().explore(c, c.bound(2, 3));
    tiling().explore(c, c.bound(3, 4));
    icc().explore(c, c.bound(3, 4));
    outline().explore(c, c.bound(4, 5));
    item().explore(c, c.bound(3, 4));
    viewer().explore(c, c.bound(4, 5));
    ordered(c);
    ranges(c);
    c.finish()
}
