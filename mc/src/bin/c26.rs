//! C26: Separation and DeviceN colour spaces enforce their call order.
use mc::gen::{layout, settings};
use mc::model::matches;
use mc::tables::device;
use mc::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

fn main() {
    guard(explore)
}

/// The state machine: what has been supplied so far.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Class {
    Alt,
    Tint,
    Attrs,
}
#[derive(Clone, Copy, Default)]
struct Auto {
    alt: bool,
    tint: bool,
    attrs: bool,
}
impl Auto {
    /// Does the machine accept the call now? Rejected calls change nothing.
    fn step(&mut self, c: Class) -> bool {
        let (done, ready) = match c {
            Class::Alt => (&mut self.alt, true),
            Class::Tint => (&mut self.tint, self.alt),
            Class::Attrs => (&mut self.attrs, self.tint),
        };
        let ok = ready && !*done;
        *done |= ok;
        ok
    }
}

struct Call<W: ?Sized> {
    label: &'static str,
    class: Class,
    /// Plainest of its method.
    plain: bool,
    want: X,
    run: Box<W>,
}

macro_rules! calls {
    ($W:ident; $($class:ident $plain:literal $label:literal $want:literal |$w:ident| $e:expr;)*) => {{
        let v: Vec<Call<dyn Fn(&mut $W) + Sync>> = vec![$(Call {
            label: $label, class: Class::$class, plain: $plain, want: x($want),
            run: Box::new(|$w| { let _ = $e; }),
        }),*];
        v
    }};
}
macro_rules! both {
    ($W:ident $($more:tt)*) => {
        calls!($W;
            Alt true "alternate_device(Rgb)" "/DeviceRGB" |w| { w.alternate_device(device("Rgb")); };
            Alt true "alternate_color_space" "[/ICCBased 8 0 R]" |w| w.alternate_color_space().icc_based(Ref::new(8));
            Alt true "alternate_color_space_ref" "7 0 R" |w| { w.alternate_color_space_ref(Ref::new(7)); };
            Tint true "tint_exponential" "<</FunctionType 2 /N 2.0>>" |w| { w.tint_exponential().n(2.0); };
            Tint true "tint_stitching" "<</FunctionType 3 /Functions [6 0 R 5 0 R]>>" |w| { w.tint_stitching().functions([Ref::new(6), Ref::new(5)]); };
            Tint true "tint_ref" "9 0 R" |w| { w.tint_ref(Ref::new(9)); };
            Alt false "alternate_device(Gray)" "/DeviceGray" |w| { w.alternate_device(device("Gray")); };
            Alt false "alternate_device(Cmyk)" "/DeviceCMYK" |w| { w.alternate_device(device("Cmyk")); };
            Alt false "alternate_color_space.device_rgb" "/DeviceRGB" |w| w.alternate_color_space().device_rgb();
            Alt false "alternate_color_space.device_gray" "/DeviceGray" |w| w.alternate_color_space().device_gray();
            Alt false "alternate_color_space.device_cmyk" "/DeviceCMYK" |w| w.alternate_color_space().device_cmyk();
            Alt false "alternate_color_space.lab" "[/Lab <</WhitePoint [0.5 1.0 0.25] /Range [-1.0 1.0 -2.0 2.0]>>]" |w| w.alternate_color_space().lab([0.5, 1.0, 0.25], None, Some([-1.0, 1.0, -2.0, 2.0]));
            Alt false "alternate_color_space.cal_gray" "[/CalGray <</WhitePoint [0.5 1.0 0.25] /Gamma 2.0>>]" |w| w.alternate_color_space().cal_gray([0.5, 1.0, 0.25], None, Some(2.0));
            Alt false "alternate_color_space.cal_rgb" "[/CalRGB <</WhitePoint [0.5 1.0 0.25]>>]" |w| w.alternate_color_space().cal_rgb([0.5, 1.0, 0.25], None, None, None);
            Alt false "alternate_color_space.indexed" "[/Indexed /DeviceRGB 1 (abcdef)]" |w| w.alternate_color_space().indexed(Name(b"DeviceRGB"), 1, b"abcdef");
            Alt false "alternate_color_space_ref(max)" "2147483647 0 R" |w| { w.alternate_color_space_ref(Ref::new(i32::MAX)); };
            Tint false "tint_exponential all" "<</FunctionType 2 /Domain [0.0 1.0] /Range [0.0 1.0 -1.0 1.0] /C0 [0.0 0.5] /C1 [1.0 0.25] /N 1.0>>" |w| {
                w.tint_exponential().domain([0.0, 1.0]).range([0.0, 1.0, -1.0, 1.0]).c0([0.0, 0.5]).c1([1.0, 0.25]).n(1.0);
            };
            Tint false "tint_exponential none" "<</FunctionType 2>>" |w| { w.tint_exponential(); };
            Tint false "tint_stitching all" "<</FunctionType 3 /Domain [0.0 1.0] /Functions [6 0 R] /Bounds [] /Encode [0.0 1.0]>>" |w| {
                w.tint_stitching().domain([0.0, 1.0]).functions([Ref::new(6)]).bounds([]).encode([0.0, 1.0]);
            };
            Tint false "tint_stitching none" "<</FunctionType 3>>" |w| { w.tint_stitching(); };
            Tint false "tint_ref(max)" "2147483647 0 R" |w| { w.tint_ref(Ref::new(i32::MAX)); };
            $($more)*
        )
    };
}

fn sep_calls() -> Vec<Call<dyn Fn(&mut Separation) + Sync>> {
    both!(Separation)
}
fn devn_calls() -> Vec<Call<dyn Fn(&mut DeviceN) + Sync>> {
    both!(DeviceN
        Attrs true "attrs+" "<</Subtype /NChannel /Process <</Components [/c]>>>>" |w| {
            let mut a = w.attrs();
            a.subtype(DeviceNSubtype::NChannel);
            a.process().components([Name(b"c")]);
        };
        Attrs false "attrs" "<<>>" |w| { w.attrs(); };
        Attrs false "attrs mixing hints" "<</MixingHints <</Solidities <</a 0.5>> /PrintingOrder [/b /a]>>>>" |w| {
            let mut a = w.attrs();
            let mut m = a.mixing_hints();
            m.solidities().pair(Name(b"a"), 0.5);
            m.printing_order([Name(b"b"), Name(b"a")]);
        };
    )
}

/// Where the colour space is written, and what surrounds it.
const PLACES: usize = 6;
fn place(pdf: &mut Chunk, p: usize, f: &mut dyn FnMut(ColorSpace)) {
    let id = Ref::new(2);
    match p {
        0 => f(pdf.color_space(id)),
        1 => f(pdf.indirect(id).dict().insert(Name(b"K")).start()),
        2 => {
            let mut a = pdf.indirect(id).array();
            a.item(1);
            f(a.push().start());
            a.item(2);
        }
        3 => {
            let mut im = pdf.image_xobject(id, b"data");
            im.width(1);
            f(im.color_space());
            im.height(2);
        }
        4 => {
            let mut g = pdf.form_xobject(id, b"data");
            let mut g = g.group();
            f(g.color_space());
            g.isolated(true);
        }
        _ => {
            let mut pg = pdf.page(id);
            let mut res = pg.resources();
            let mut cs = res.color_spaces();
            cs.pair(Name(b"Z"), Ref::new(4));
            f(cs.insert(Name(b"K")).start());
            cs.pair(Name(b"L"), Ref::new(5));
        }
    }
}
fn placed(p: usize, v: X) -> X {
    let mut w = x([
        "null",
        "<</K null>>",
        "[1 null 2]",
        "<</Length 4 /Type /XObject /Subtype /Image /Width 1 /ColorSpace null /Height 2>>",
        "<</Length 4 /Type /XObject /Subtype /Form /Group <</Type /Group /CS null /I true>>>>",
        "<</Type /Page /Resources <</ColorSpace <</Z 4 0 R /K null /L 5 0 R>>>>>>",
    ][p]);
    fn put(w: &mut X, v: &X) {
        match w {
            X::Null => *w = v.clone(),
            X::Arr(a) => a.iter_mut().for_each(|w| put(w, v)),
            X::Dict(d) => d.iter_mut().for_each(|(_, w)| put(w, v)),
            _ => {}
        }
    }
    put(&mut w, &v);
    w
}

const NAMES: &[&[&[u8]]] = &[&[b"a", b"/b"], &[b"Spot 1"], &[], &[b""], &[b"None", b"\xff", b"All", b"x", b"y"]];

/// A sequence of calls on a writer, each of which may be rejected.
fn run<W: ?Sized>(c: &Ctx, what: &str, calls: &[Call<W>], s: &[usize], names: &[&[u8]], devn: bool, p: usize, pretty: bool, go: &dyn Fn(ColorSpace, &mut dyn FnMut(usize, &mut dyn FnMut() -> ()))) {
    let mut auto = Auto::default();
    let want: Vec<bool> = s.iter().map(|i| auto.step(calls[*i].class)).collect();
    let mut got = vec![];
    let out = catch(|| {
        let mut ch = Chunk::with_settings(settings(pretty));
        ch.indirect(Ref::new(1)).primitive(1);
        place(&mut ch, p, &mut |cs| go(cs, &mut |_, f| got.push(catch(f).is_ok())));
        ch.indirect(Ref::new(3)).primitive(Name(b""));
        ch
    });
    let show = || {
        format!(
            "{what} {names:?} place {p} {}: {}",
            layout(pretty),
            s.iter().map(|i| calls[*i].label).collect::<Vec<_>>().join("; ")
        )
    };
    c.check(got == want, &show(), || {
        format!("{}\naccepted: {got:?}\nexpected: {want:?}", show())
    });
    let ch = match out {
        Ok(ch) => ch,
        Err(e) => return c.fail(&show(), || format!("{}\npanicked: {e}", show())),
    };
    let mut items = if devn {
        vec![name("DeviceN"), X::Arr(names.iter().map(|n| X::Name(n.to_vec())).collect())]
    } else {
        vec![name("Separation"), X::Name(names.first().map_or(vec![], |n| n.to_vec()))]
    };
    items.extend(s.iter().zip(&want).filter(|(_, ok)| **ok).map(|(i, _)| calls[*i].want.clone()));
    let want = placed(p, X::Arr(items));
    let ok = pdf::parse_chunk(ch.as_bytes())
        .is_ok_and(|o| o.len() == 3 && o[1].num == 2 && matches(&want, &o[1].val));
    c.check(ok, &show(), || {
        format!("{}\nexpected: {}\noutput: {}", show(), want.show(), show_out(ch.as_bytes()))
    });
    c.sample(|| format!("{} -> {}", show(), show_out(ch.as_bytes())));
    c.steps(s.len() as u64 + 2);
    c.traces_n(1);
}

fn sep(c: &Ctx, calls: &[Call<dyn Fn(&mut Separation) + Sync>], s: &[usize], n: usize, p: usize, pretty: bool) {
    let names = NAMES[n];
    run(c, "separation", calls, s, names, false, p, pretty, &|cs, each| {
        let mut w = cs.separation(Name(names.first().copied().unwrap_or(b"")));
        for i in s {
            each(*i, &mut || (calls[*i].run)(&mut w));
        }
    });
}
fn devn(c: &Ctx, calls: &[Call<dyn Fn(&mut DeviceN) + Sync>], s: &[usize], n: usize, p: usize, pretty: bool) {
    let names = NAMES[n];
    run(c, "device_n", calls, s, names, true, p, pretty, &|cs, each| {
        let mut w = cs.device_n(names.iter().map(|n| Name(n)));
        for i in s {
            each(*i, &mut || (calls[*i].run)(&mut w));
        }
    });
}

/// The first rejected call ends everything: unwinding through all writers.
fn unwind(c: &Ctx, calls: &[Call<dyn Fn(&mut DeviceN) + Sync>], s: &[usize], p: usize, pretty: bool) {
    let mut auto = Auto::default();
    let first = s.iter().position(|i| !auto.step(calls[*i].class));
    let mut done = 0;
    let mut ch = Chunk::with_settings(settings(pretty));
    let r = catch(|| {
        place(&mut ch, p, &mut |cs| {
            let mut w = cs.device_n([Name(b"n")]);
            for i in s {
                (calls[*i].run)(&mut w);
                done += 1;
            }
        });
    });
    ch.indirect(Ref::new(3)).primitive(Name(b""));
    let show = || s.iter().map(|i| calls[*i].label).collect::<Vec<_>>().join("; ");
    c.check(r.is_err() == first.is_some() && done == first.unwrap_or(s.len()), &show(), || {
        format!("device_n {}: {done} calls accepted, expected {first:?}", show())
    });
    let mut items = vec![name("DeviceN"), x("[/n]")];
    items.extend(s[..done].iter().map(|i| calls[*i].want.clone()));
    let ok = pdf::parse_chunk(ch.as_bytes()).is_ok_and(|o| {
        o.len() == 2 && o[0].num == 2 && (first.is_some() && p > 1 || matches(&placed(p, X::Arr(items.clone())), &o[0].val))
    });
    c.check(ok, &show(), || format!("device_n {} unwound: {}", show(), show_out(ch.as_bytes())));
    c.steps(s.len() as u64);
    c.traces_n(1);
}

fn explore() {
    let c = Ctx::new("C26");
    let (sc, dc) = (sep_calls(), devn_calls());
    // All sequences over all variants.
    for len in 0..=c.bound(3, 4) {
        c.phase("all call variants");
        par(sc.len().pow(len as u32), |i| {
            let s = seq(i, sc.len(), len);
            for pretty in [false, true] {
                sep(c, &sc, &s, i % NAMES.len(), (i / 5) % PLACES, pretty);
            }
            c.states_by_construction(1);
        });
        par(dc.len().pow(len as u32), |i| {
            let s = seq(i, dc.len(), len);
            for pretty in [false, true] {
                devn(c, &dc, &s, i % NAMES.len(), (i / 5) % PLACES, pretty);
                if len <= 3 {
                    unwind(c, &dc, &s, i % PLACES, pretty);
                }
            }
            c.states_by_construction(1);
        });
    }
    c.note("sequences over all call variants", format!("length 0-{}", c.bound(3, 4)));
    // All sequences over methods, deeper.
    let sp: Vec<usize> = (0..sc.len()).filter(|i| sc[*i].plain).collect();
    let dp: Vec<usize> = (0..dc.len()).filter(|i| dc[*i].plain).collect();
    c.note("methods", format!("{} and {}", sp.len(), dp.len()));
    for len in 4..=c.bound(6, 8) {
        c.phase("all methods");
        par(sp.len().pow(len as u32), |i| {
            let s: Vec<usize> = seq(i, sp.len(), len).iter().map(|j| sp[*j]).collect();
            sep(c, &sc, &s, i % NAMES.len(), (i / 7) % PLACES, i % 2 == 0);
            c.states_by_construction(1);
        });
        par(dp.len().pow(len as u32), |i| {
            let s: Vec<usize> = seq(i, dp.len(), len).iter().map(|j| dp[*j]).collect();
            devn(c, &dc, &s, i % NAMES.len(), (i / 7) % PLACES, i % 2 == 0);
            c.states_by_construction(1);
        });
    }
    c.note("sequences over methods", format!("length 0-{}", c.bound(6, 8)));
    // Complete colour spaces: every alternate space, tint transform and
    // attributes, all names, in every place, both layouts.
    c.phase("complete");
    let of = |cl: Class| (0..dc.len()).filter(|i| dc[*i].class == cl).collect::<Vec<_>>();
    let (al, ti, at) = (of(Class::Alt), of(Class::Tint), of(Class::Attrs));
    par(al.len() * ti.len() * (at.len() + 1), |i| {
        let mut s = vec![al[i % al.len()], ti[i / al.len() % ti.len()]];
        s.extend(at.get(i / al.len() / ti.len()));
        for n in 0..NAMES.len() {
            for p in 0..PLACES {
                for pretty in [false, true] {
                    devn(c, &dc, &s, n, p, pretty);
                    if s.len() == 2 {
                        sep(c, &sc, &s, n, p, pretty);
                    }
                    c.states_by_construction(1);
                }
            }
        }
    });
    // Several writers next to each other do not share state.
    c.phase("two writers");
    par(dp.len().pow(4), |i| {
        let s: Vec<usize> = seq(i, dp.len(), 4).iter().map(|j| dp[*j]).collect();
        let mut ch = Chunk::with_settings(settings(i % 2 == 0));
        let mut want = vec![];
        {
            let mut a = ch.indirect(Ref::new(1)).array();
            for h in [&s[..2], &s[2..]] {
                let mut auto = Auto::default();
                let mut w = a.push().start::<ColorSpace>().device_n([]);
                let mut items = vec![name("DeviceN"), x("[]")];
                for j in h {
                    let ok = catch(|| (dc[*j].run)(&mut w)).is_ok();
                    let exp = auto.step(dc[*j].class);
                    c.check(ok == exp, &format!("two {s:?}"), || format!("{} {ok}", dc[*j].label));
                    if exp {
                        items.push(dc[*j].want.clone());
                    }
                }
                want.push(X::Arr(items));
            }
        }
        let ok = pdf::parse_chunk(ch.as_bytes()).is_ok_and(|o| matches(&X::Arr(want), &o[0].val));
        c.check(ok, &format!("two writers {s:?}"), || show_out(ch.as_bytes()));
        c.states_by_construction(1);
        c.steps(6);
        c.traces_n(1);
    });
    c.finish()
}
