//! C28: writers close themselves exactly once however they end.
use mc::gen::{layout, settings, trees, Mode, M, MODES, P, T};
use mc::kinds::KINDS;
use mc::model::{matches, show_bytes};
use mc::pdf::V;
use mc::tab::{arm, own, tick, with_obj, Fuse, Place, Table, PLACES};
use mc::*;
use pdf_writer::types::*;
use pdf_writer::*;

fn main() {
    guard(explore)
}

/// How a writing program ends at its crash point.
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Panic,
    Return,
    Finish,
}
const ENDS: [End; 3] = [End::Panic, End::Return, End::Finish];
type R = Result<(), ()>;

impl End {
    /// End the writer now, the crash point was reached.
    fn close<W>(self, w: W) -> R {
        if self == End::Finish {
            w.finish();
        }
        Err(())
    }
}

/// Write the tree with a crash point before every element and every closing.
fn emit(t: &T, obj: Obj<'_>, mode: Mode, end: End) -> R {
    macro_rules! go {
        ($w:ident) => {
            if !tick() {
                return end.close($w);
            }
        };
        ($w:ident, $e:expr) => {
            if $e.is_err() {
                return end.close($w);
            }
        };
    }
    match t {
        T::P(p) => p.emit(obj),
        T::A(items) if mode == Mode::Typed && items.iter().all(|t| matches!(t, T::A(_))) => {
            let mut a = obj.array().typed::<Array>();
            for t in items {
                go!(a);
                if let T::A(inner) = t {
                    let mut b = a.push();
                    let mut r = Ok(());
                    for t in inner {
                        r = if tick() { emit(t, b.push(), mode, end) } else { Err(()) };
                        if r.is_err() {
                            break;
                        }
                    }
                    if r.is_err() || !tick() {
                        let _ = end.close(b);
                        return end.close(a);
                    }
                }
            }
            go!(a);
        }
        T::A(items) if mode == Mode::Typed && items.iter().all(|t| matches!(t, T::P(P::I(_)))) => {
            let mut a = obj.start::<TypedArray<i32>>();
            for t in items {
                go!(a);
                if let T::P(P::I(i)) = t {
                    a.item(*i);
                }
            }
            go!(a);
        }
        T::A(items) => {
            let mut a = if mode == Mode::Multi { obj.start::<Array>() } else { obj.array() };
            for t in items {
                go!(a);
                match (t, mode) {
                    (T::P(p), Mode::Short) => with_prim!(*p, v => { a.item(v); }),
                    (T::P(p), Mode::Multi) => with_prim!(*p, v => { a.items([v]); }),
                    (t, _) => go!(a, emit(t, a.push(), mode, end)),
                }
            }
            go!(a);
        }
        T::D(items) if mode == Mode::Typed && items.iter().all(|(_, t)| matches!(t, T::D(_))) => {
            let mut a = obj.dict().typed::<Dict>();
            for (k, t) in items {
                go!(a);
                if let T::D(inner) = t {
                    let mut b = a.insert(Name(k));
                    let mut r = Ok(());
                    for (k, t) in inner {
                        r = if tick() { emit(t, b.insert(Name(k)), mode, end) } else { Err(()) };
                        if r.is_err() {
                            break;
                        }
                    }
                    if r.is_err() || !tick() {
                        let _ = end.close(b);
                        return end.close(a);
                    }
                }
            }
            go!(a);
        }
        T::D(items) => {
            let mut d = if mode == Mode::Multi { obj.start::<Dict>() } else { obj.dict() };
            for (k, t) in items {
                go!(d);
                match (t, mode) {
                    (T::P(p), Mode::Short) => with_prim!(*p, v => { d.pair(Name(k), v); }),
                    (T::P(p), Mode::Multi) => with_prim!(*p, v => { d.pairs([(Name(k), v)]); }),
                    (t, _) => go!(d, emit(t, d.insert(Name(k)), mode, end)),
                }
            }
            go!(d);
        }
    }
    Ok(())
}

/// What the tree reads back as after a crash at point `k`. Returns whether it
/// was completed.
fn cut(t: &T, k: &mut i64) -> (X, bool) {
    let pass = |k: &mut i64| {
        *k -= 1;
        *k >= 0
    };
    match t {
        T::P(p) => (p.x(), true),
        T::A(items) => {
            let mut v = vec![];
            for t in items {
                if !pass(k) {
                    return (X::Arr(v), false);
                }
                let (x, ok) = cut(t, k);
                v.push(x);
                if !ok {
                    return (X::Arr(v), false);
                }
            }
            (X::Arr(v), pass(k))
        }
        T::D(items) => {
            let mut v = vec![];
            for (n, t) in items {
                if !pass(k) {
                    return (X::Dict(v), false);
                }
                let (x, ok) = cut(t, k);
                v.push((n.to_vec(), x));
                if !ok {
                    return (X::Dict(v), false);
                }
            }
            (X::Dict(v), pass(k))
        }
    }
}

/// Crash points of a tree.
fn points(t: &T) -> usize {
    match t {
        T::P(_) => 0,
        T::A(a) => 1 + a.len() + a.iter().map(points).sum::<usize>(),
        T::D(d) => 1 + d.len() + d.iter().map(|(_, t)| points(t)).sum::<usize>(),
    }
}

/// Run a program that crashes at point `k`.
fn crash(k: usize, end: End, f: impl FnOnce() -> R) -> Result<Fuse, String> {
    arm(Some(k), end == End::Panic);
    let r = catch(f);
    let fuse = arm(None, false);
    match r {
        Err(p) if end != End::Panic || p != format!("crash point {k}") => Err(p),
        _ => Ok(fuse),
    }
}

const DATA: &[u8] = b"\xff\r\nendstream endobj\n";

/// Where a tree is written.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Root {
    Object,
    Stream,
    Catalog,
    Page,
}
const ROOTS: [Root; 4] = [Root::Object, Root::Stream, Root::Catalog, Root::Page];

fn write(pdf: &mut Pdf, id: i32, t: &T, root: Root, mode: Mode, end: End) -> R {
    let id = Ref::new(id);
    macro_rules! into_dict {
        ($w:expr) => {{
            let mut w = $w;
            let T::D(items) = t else { unreachable!() };
            for (k, t) in items {
                if !tick() || emit(t, w.insert(Name(k)), mode, end).is_err() {
                    return end.close(w);
                }
            }
            if !tick() {
                return end.close(w);
            }
            Ok(())
        }};
    }
    match root {
        Root::Object => emit(t, pdf.indirect(id), mode, end),
        Root::Stream => into_dict!(pdf.stream(id, DATA)),
        Root::Catalog => into_dict!(pdf.catalog(id)),
        Root::Page => into_dict!(pdf.page(id)),
    }
}

fn root_want(root: Root, v: X) -> X {
    let mut base = match root {
        Root::Object => return v,
        Root::Stream => {
            let mut b = x("<<>>");
            if let X::Dict(d) = &mut b {
                d.push((b"Length".to_vec(), X::I(DATA.len() as i64)));
            }
            b
        }
        Root::Catalog => x("<</Type /Catalog>>"),
        Root::Page => x("<</Type /Page>>"),
    };
    if let (X::Dict(b), X::Dict(v)) = (&mut base, v) {
        b.extend(v);
    }
    base
}

/// One crashed (or completed) object of a history.
#[derive(Clone)]
struct Obj1 {
    t: T,
    k: usize,
    root: Root,
    mode: Mode,
}

impl Obj1 {
    fn show(&self) -> String {
        format!("{:?} {:?} {} at {}", self.root, self.mode, self.t.x().show(), self.k)
    }
}

/// Write the objects, each crashing, with ordinary objects between. All ways of
/// ending must give the same, and that must be the model's cut.
fn history(c: &Ctx, hist: &[Obj1], pretty: bool, after: usize) {
    let what = |e: End| {
        format!("{e:?} {} [{}] then {}", layout(pretty), hist.iter().map(Obj1::show).collect::<Vec<_>>().join("; "), KINDS[after].name)
    };
    let mut base: Option<(Vec<u8>, M, Vec<u8>)> = None;
    for end in ENDS {
        let mut pdf = Pdf::with_settings(settings(pretty));
        pdf.indirect(Ref::new(1)).primitive(Name(b""));
        for (i, o) in hist.iter().enumerate() {
            match crash(o.k, end, || write(&mut pdf, 2 + i as i32, &o.t, o.root, o.mode, end)) {
                Ok(f) if f.blown == (o.k < points(&o.t)) => {}
                Ok(_) => return c.fail(&what(end), || format!("{}\nthe harness lost count", what(end))),
                Err(p) => return c.fail(&what(end), || format!("{}\npanicked {p}", what(end))),
            }
        }
        let n = 2 + hist.len() as i32;
        if let Err(p) = catch(|| (KINDS[after].write)(&mut pdf, Ref::new(n))) {
            return c.fail(&what(end), || format!("{}\nwriting on panicked: {p}", what(end)));
        }
        let bytes = pdf.as_bytes().to_vec();
        let lim = M::of(pdf.limits());
        let out = pdf.finish();
        match &base {
            Some((b, l, o)) => {
                c.check(*b == bytes && *o == out, &what(end), || {
                    format!("{}\ndiffers from ending by a panic:\n{}\n{}", what(end), show_out(&out), show_out(o))
                });
                c.check(*l == lim, &what(end), || format!("{}\nlimits {lim:?} instead of {l:?}", what(end)));
            }
            None => {
                let r = pdf::parse_doc(&out, None).and_then(|d| {
                    pdf::check_xref(&d)?;
                    let mut m = M::default();
                    for (i, o) in hist.iter().enumerate() {
                        let num = 2 + i as i64;
                        let got = d.obj(num).ok_or(format!("object {num} is lost"))?;
                        let want = root_want(o.root, cut(&o.t, &mut (o.k as i64)).0);
                        if !matches(&want, &got.val) || got.gen != 0 {
                            return Err(format!("object {num} reads back as {:?}, expected {}", got.val, want.show()));
                        }
                        if got.stream.as_deref() != (o.root == Root::Stream).then_some(DATA) {
                            return Err(format!("stream of object {num} differs"));
                        }
                        tab::lim_x(&want, &mut m);
                        m.int(num);
                    }
                    let last = d.obj(n as i64).ok_or("the object after the crash is lost")?;
                    let k = &KINDS[after];
                    if !matches(&k.want(), &last.val) || last.stream.as_deref() != k.data {
                        return Err(format!("the object after the crash reads back as {:?}", last.val));
                    }
                    if d.obj(1).map(|o| o.val == V::Name(vec![])) != Some(true) {
                        return Err("the object before the crash is disturbed".into());
                    }
                    tab::lim_x(&k.want(), &mut m);
                    m.int(n as i64);
                    if m != lim {
                        return Err(format!("limits {lim:?}, expected {m:?}"));
                    }
                    Ok(())
                });
                if let Err(e) = r {
                    c.fail(&what(end), || format!("{}\n{e}\n{}", what(end), show_out(&out)));
                }
                c.sample(|| format!("{} -> {}", what(end), show_bytes(&bytes)));
                base = Some((bytes, lim, out));
            }
        }
        c.steps(hist.iter().map(|o| o.k as u64 + 1).sum::<u64>() + 3);
        c.traces_n(1);
    }
    c.states_by_construction(1);
}

fn values(c: &Ctx) {
    c.phase("values");
    let leaves: &[P] = &[P::I(7), P::Name(b""), P::Str(b")")];
    let max = c.bound(5, 6);
    let mut all = vec![];
    for n in 1..=max {
        let l = if n >= 4 { &leaves[..if n >= 5 { 1 } else { 2 }] } else { leaves };
        all.extend(trees(n, l, if n >= 4 { &[b"A", b"B"] } else { &[b"A", b""] }));
    }
    let all: Vec<T> = all.into_iter().filter(|t| !matches!(t, T::P(_))).collect();
    c.note("values", format!("{} nested values of up to {max} nodes, all crash points, all ways of building, 4 kinds of owner", all.len()));
    par(all.len(), |i| {
        let t = &all[i];
        for root in ROOTS {
            if root != Root::Object && !matches!(t, T::D(_)) {
                continue;
            }
            for mode in MODES {
                for k in 0..=points(t) {
                    for pretty in [false, true] {
                        history(c, &[Obj1 { t: t.clone(), k, root, mode }], pretty, (i + k) % KINDS.len());
                    }
                }
            }
        }
    });
    // Every kind of object after every kind of crash; repeated crashes.
    c.phase("repeated crashes");
    let mut cases: Vec<Obj1> = vec![];
    let small = [
        T::A(vec![T::A(vec![T::P(P::I(1))])]),
        T::D(vec![(b"A", T::D(vec![(b"B", T::P(P::Name(b"")))]))]),
        T::A(vec![T::D(vec![]), T::P(P::Str(b"(")), T::D(vec![(b"", T::A(vec![]))])]),
    ];
    for t in &small {
        for root in ROOTS {
            if root == Root::Object || matches!(t, T::D(_)) {
                for k in 0..=points(t) {
                    cases.push(Obj1 { t: t.clone(), k, root, mode: MODES[k % 4] });
                }
            }
        }
    }
    let n = cases.len();
    par(n * KINDS.len(), |i| {
        for pretty in [false, true] {
            history(c, &[cases[i % n].clone()], pretty, i / n);
        }
    });
    par(n * n, |i| {
        for pretty in [false, true] {
            history(c, &[cases[i % n].clone(), cases[i / n].clone()], pretty, i % KINDS.len());
        }
    });
    let catalogs = |s: &[Obj1]| s.iter().filter(|o| o.root == Root::Catalog).count();
    if c.thorough {
        par(n * n * n, |i| {
            let s: Vec<Obj1> = seq(i, n, 3).iter().map(|j| cases[*j].clone()).collect();
            if catalogs(&s) < 2 {
                history(c, &s, i % 2 == 0, i % KINDS.len());
            }
        });
    }
    c.note("repeated crashes", format!("all sequences of up to {} of {n} crashed objects", c.bound(2, 3)));
}

/// A chain of nested containers; `shape` bits choose arrays or dictionaries and
/// whether something follows the inner value.
fn chain(depth: usize, shape: usize) -> T {
    let mut t = T::P(P::Name(b""));
    for i in 0..depth {
        let dict = match shape & 3 {
            0 => false,
            1 => true,
            2 => i % 2 == 0,
            _ => i % 3 == 0,
        };
        let mut items = vec![t];
        if shape & 4 != 0 {
            items.push(T::P(P::Str(b")")));
        }
        t = if dict { T::D([&b"A"[..], b""].into_iter().zip(items).collect()) } else { T::A(items) };
    }
    t
}

/// Deep nesting, many elements and many crashes.
fn sized(c: &Ctx) {
    c.phase("sizes");
    let depths = sizes(c.bound(260, 520));
    par(depths.len() * 8, |i| {
        let (d, shape) = (depths[i / 8], i % 8);
        let t = chain(d, shape);
        let n = points(&t);
        let mut ks = vec![];
        // At the first levels, at the last ones and on the way out.
        for m in [0, d / 2, d, d + (n - d.min(n)) / 2, n] {
            ks.extend(m.saturating_sub(2)..=(m + 2).min(n));
        }
        ks.sort();
        ks.dedup();
        for k in ks {
            let mode = MODES[k % MODES.len()];
            let root = if matches!(t, T::D(_)) { ROOTS[(k + i) % 4] } else { Root::Object };
            history(c, &[Obj1 { t: t.clone(), k, root, mode }], (i + k) % 2 == 0, (i + k) % KINDS.len());
        }
    });
    let counts = sizes(c.bound(1030, 5000));
    par(counts.len() * 4, |i| {
        let n = counts[i / 4];
        let leaf = |j: usize| match (i % 2, j % 3) {
            (0, _) => T::P(P::I(j as i32)),
            (_, 0) => T::A(vec![]),
            (_, 1) => T::D(vec![(b"A", T::P(P::I(1)))]),
            _ => T::P(P::Name(b"")),
        };
        let keys: Vec<&'static [u8]> = (0..n).map(|j| &*Box::leak(format!("k{j}").into_bytes().into_boxed_slice())).collect();
        let t = if i % 4 < 2 { T::A((0..n).map(leaf).collect()) } else { T::D((0..n).map(|j| (keys[j], leaf(j))).collect()) };
        let all = points(&t);
        for k in (0..3).chain(all.saturating_sub(3)..=all) {
            for mode in MODES {
                let root = if matches!(t, T::D(_)) { ROOTS[(k + i) % 4] } else { Root::Object };
                history(c, &[Obj1 { t: t.clone(), k, root, mode }], (i + k) % 2 == 0, (i + k) % KINDS.len());
            }
        }
    });
    // One crash after the other.
    let base = [
        Obj1 { t: chain(3, 2), k: 0, root: Root::Object, mode: Mode::Long },
        Obj1 { t: chain(3, 2), k: 3, root: Root::Object, mode: Mode::Multi },
        Obj1 { t: chain(2, 5), k: 2, root: Root::Stream, mode: Mode::Short },
        Obj1 { t: chain(4, 1), k: 4, root: Root::Page, mode: Mode::Typed },
    ];
    par(depths.len() * 5, |i| {
        let hist: Vec<Obj1> = (0..depths[i / 5]).map(|j| base[if i % 5 == 4 { j % 4 } else { i % 5 }].clone()).collect();
        for pretty in [false, true] {
            history(c, &hist, pretty, i % KINDS.len());
        }
    });
    par(depths.len() * 5, |i| {
        let few = [
            (Sh::Raw(vec![T::A(vec![T::P(P::I(1))])]), 1),
            (Sh::Pos(2), 2),
            (Sh::Props(false, 2), 2),
            (Sh::Art(true, 2), 3),
        ];
        let prog: Vec<_> = (0..depths[i / 5]).map(|j| few[if i % 5 == 4 { j % 4 } else { i % 5 }].clone()).collect();
        crash_all(c, &prog, Mode::Long, i % 2 == 0);
    });
    par(depths.len() * 8, |i| {
        let t = chain(depths[i / 8], i % 8);
        let n = points(&t);
        for k in [0, 1, depths[i / 8], depths[i / 8] + 1, n - n.min(1), n, n + 1] {
            let sh = Sh::Raw(vec![T::P(P::I(1)), t.clone()]);
            crash_all(c, &[(Sh::Pos(1), 1), (sh, k)], MODES[k % MODES.len()], i % 2 == 0);
        }
    });
    c.note("sizes", format!("nesting to depth {}, {} elements, {} crashed objects or operations one after the other", depths.last().unwrap(), counts.last().unwrap(), depths.last().unwrap()));
}

/// An operation of a content stream with crash points.
#[derive(Clone, Debug)]
enum Sh {
    /// Raw operands.
    Raw(Vec<T>),
    Nullary,
    /// Positioned text: strings and adjustments.
    Pos(usize),
    /// Marked content with a property list of some entries.
    Props(bool, usize),
    /// An artifact inside a property list.
    Art(bool, usize),
}

fn op(ct: &mut Content, s: &Sh, mode: Mode, end: End) -> R {
    macro_rules! go {
        ($w:ident $($o:ident)*) => {
            if !tick() {
                let r = end.close($w);
                $(let _ = end.close($o);)*
                return r;
            }
        };
    }
    match s {
        Sh::Raw(ts) => {
            let mut o = ct.op("xx");
            for t in ts {
                go!(o);
                match t {
                    T::P(p) if mode == Mode::Short => with_prim!(*p, v => { o.operand(v); }),
                    T::P(p) if mode == Mode::Multi => with_prim!(*p, v => { o.operands([v]); }),
                    t => {
                        if emit(t, o.obj(), mode, end).is_err() {
                            return end.close(o);
                        }
                    }
                }
            }
            go!(o);
        }
        Sh::Nullary => {
            ct.save_state();
        }
        Sh::Pos(n) => {
            let mut sp = ct.show_positioned();
            go!(sp);
            let mut w = sp.items();
            for i in 0..*n {
                go!(w sp);
                if i % 2 == 0 {
                    w.show(Str(b"(a"));
                } else {
                    w.adjust(-0.5);
                }
            }
            go!(w sp);
        }
        Sh::Props(dp, n) | Sh::Art(dp, n) => {
            let mut m = if *dp {
                ct.marked_content_point_with_properties(Name(b"T"))
            } else {
                ct.begin_marked_content_with_properties(Name(b"T"))
            };
            go!(m);
            let mut p = m.properties();
            if matches!(s, Sh::Art(..)) {
                go!(p m);
                let mut a = p.artifact();
                for i in 0..*n {
                    go!(a m);
                    match i {
                        0 => drop(a.kind(ArtifactType::Page)),
                        1 => drop(a.attached([ArtifactAttachment::Top])),
                        _ => drop(a.bounding_box(Rect::new(0.0, 1.0, 2.0, 3.0))),
                    }
                }
                go!(a m);
            } else {
                for i in 0..*n {
                    go!(p m);
                    match i {
                        0 => drop(p.identify(3)),
                        1 => drop(p.actual_text(TextStr("("))),
                        _ => drop(p.insert(Name(b"D")).dict().pair(Name(b""), 1)),
                    }
                }
                go!(p m);
            }
        }
    }
    Ok(())
}

/// The operation after a crash at `k`, and whether it was completed.
fn op_cut(s: &Sh, k: &mut i64) -> ((&'static str, Vec<X>), bool) {
    let pass = |k: &mut i64| {
        *k -= 1;
        *k >= 0
    };
    let dict = |e: &[(&str, &str)]| X::Dict(e.iter().map(|(k, v)| (k.as_bytes().to_vec(), x(v))).collect());
    match s {
        Sh::Raw(ts) => {
            let mut v = vec![];
            for t in ts {
                if !pass(k) {
                    return (("xx", v), false);
                }
                let (x, ok) = cut(t, k);
                v.push(x);
                if !ok {
                    return (("xx", v), false);
                }
            }
            (("xx", v), pass(k))
        }
        Sh::Nullary => (("q", vec![]), true),
        Sh::Pos(n) => {
            if !pass(k) {
                return (("TJ", vec![]), false);
            }
            let all = [x("(\\(a)"), X::F(-0.5), x("(\\(a)"), X::F(-0.5)];
            let mut done = 0;
            while done < *n && pass(k) {
                done += 1;
            }
            let ok = done == *n && pass(k);
            (("TJ", vec![X::Arr(all[..done].to_vec())]), ok)
        }
        Sh::Props(dp, n) | Sh::Art(dp, n) => {
            let name = if *dp { "DP" } else { "BDC" };
            let tag = x("/T");
            if !pass(k) {
                return ((name, vec![tag]), false);
            }
            let all: &[(&str, &str)] = if matches!(s, Sh::Art(..)) {
                if !pass(k) {
                    return ((name, vec![tag, dict(&[])]), false);
                }
                &[("Type", "/Page"), ("Attached", "[/Top]"), ("BBox", "[0.0 1.0 2.0 3.0]")]
            } else {
                &[("MCID", "3"), ("ActualText", "(\\()"), ("D", "<</ 1>>")]
            };
            let mut done = 0;
            while done < *n && pass(k) {
                done += 1;
            }
            let ok = done == *n && pass(k);
            ((name, vec![tag, dict(&all[..done])]), ok)
        }
    }
}

fn op_points(s: &Sh) -> usize {
    match s {
        Sh::Raw(ts) => 1 + ts.len() + ts.iter().map(points).sum::<usize>(),
        Sh::Nullary => 0,
        Sh::Pos(n) | Sh::Props(_, n) => 2 + n,
        Sh::Art(_, n) => 3 + n,
    }
}

/// Programs of operations, the one at `at` crashes at `k`; writing goes on
/// afterwards with the others.
fn content(c: &Ctx) {
    c.phase("content streams");
    let mut shapes = vec![Sh::Nullary];
    shapes.extend((0..=4).map(Sh::Pos));
    for dp in [false, true] {
        shapes.extend((0..=3).map(|n| Sh::Props(dp, n)));
        shapes.extend((0..=3).map(|n| Sh::Art(dp, n)));
    }
    let leaves: &[P] = &[P::I(7), P::Name(b"")];
    let mut ts: Vec<T> = trees(1, leaves, &[b"A"]);
    ts.extend(trees(2, leaves, &[b"A"]));
    let small = ts.clone();
    ts.extend(trees(3, &leaves[..1], &[b"A", b""]));
    if c.thorough {
        ts.extend(trees(4, &leaves[..1], &[b"A", b"B"]));
    }
    shapes.push(Sh::Raw(vec![]));
    shapes.extend(ts.iter().map(|t| Sh::Raw(vec![t.clone()])));
    for a in &small {
        for b in &small {
            shapes.push(Sh::Raw(vec![a.clone(), b.clone()]));
        }
    }
    let around: Vec<Sh> = vec![
        Sh::Nullary,
        Sh::Pos(1),
        Sh::Raw(vec![]),
        Sh::Raw(vec![T::P(P::Name(b""))]),
        Sh::Raw(vec![T::A(vec![])]),
        Sh::Props(false, 1),
    ];
    let m = around.len() + 1;
    c.note("operations", format!("{} shapes of operations, all crash points, between all {m}x{m} surroundings", shapes.len()));
    par(shapes.len() * m * m, |i| {
        let s = &shapes[i / (m * m)];
        let mut prog: Vec<Sh> = vec![];
        prog.extend(around.get(i % m).cloned());
        let at = prog.len();
        prog.push(s.clone());
        prog.extend(around.get(i / m % m).cloned());
        for k in 0..=op_points(s) {
            for pretty in [false, true] {
                for mode in MODES {
                    if mode != Mode::Short && !matches!(s, Sh::Raw(_)) {
                        continue;
                    }
                    run_content(c, &prog, at, k, mode, pretty);
                }
            }
        }
    });
    // Every operation of the program crashes.
    c.phase("repeated crashes in content streams");
    let few: Vec<(Sh, usize)> = [Sh::Nullary, Sh::Pos(1), Sh::Props(false, 1), Sh::Art(true, 1), Sh::Raw(vec![T::A(vec![T::P(P::I(1))])])]
        .into_iter()
        .flat_map(|s| (0..=op_points(&s)).map(move |k| (s.clone(), k)))
        .collect();
    let n = few.len();
    let len = c.bound(3, 5);
    for l in 1..=len {
        par(n.pow(l as u32), |i| {
            let p: Vec<_> = seq(i, n, l).iter().map(|j| few[*j].clone()).collect();
            crash_all(c, &p, Mode::Short, i % 2 == 0);
            if l < 5 {
                crash_all(c, &p, Mode::Long, i % 2 == 1);
            }
        });
    }
    c.note("repeated crashes in content streams", format!("all sequences of up to {len} of {n} crashed operations"));
}

fn run_content(c: &Ctx, prog: &[Sh], at: usize, k: usize, mode: Mode, pretty: bool) {
    let p: Vec<_> = prog.iter().enumerate().map(|(i, s)| (s.clone(), if i == at { k } else { usize::MAX })).collect();
    crash_all(c, &p, mode, pretty);
}

fn crash_all(c: &Ctx, prog: &[(Sh, usize)], mode: Mode, pretty: bool) {
    let what = |e: End| format!("{e:?} {mode:?} {} {prog:?}", layout(pretty));
    let mut base: Option<(Vec<u8>, M)> = None;
    for end in ENDS {
        let mut ct = Content::with_settings(settings(pretty));
        for (s, k) in prog {
            if let Err(p) = crash(*k, end, || op(&mut ct, s, mode, end)) {
                return c.fail(&what(end), || format!("{}\npanicked {p}", what(end)));
            }
        }
        ct.rect(1.0, 2.0, 3.0, 4.5);
        let depth = ct.state_nesting_depth();
        let out = ct.finish();
        let lim = M::of(out.limits());
        let out = out.into_vec();
        match &base {
            Some((o, l)) => {
                c.check(*o == out, &what(end), || {
                    format!("{}\ndiffers from ending by a panic:\n{}\n{}", what(end), show_out(&out), show_out(o))
                });
                c.check(*l == lim, &what(end), || format!("{}\nlimits {lim:?} instead of {l:?}", what(end)));
            }
            None => {
                let mut want: Vec<_> = prog.iter().map(|(s, k)| op_cut(s, &mut ((*k).min(1 << 40) as i64)).0).collect();
                want.push(("re", xs("1.0 2.0 3.0 4.5")));
                let mut m = M::default();
                want.iter().flat_map(|w| &w.1).for_each(|x| tab::lim_x(x, &mut m));
                if let Err(e) = ops::compare(&out, &want) {
                    c.fail(&what(end), || format!("{}\n{e}\n{}", what(end), show_out(&out)));
                }
                c.check(m == lim, &what(end), || format!("{}\nlimits {lim:?}, expected {m:?}", what(end)));
                let q = prog.iter().filter(|s| matches!(s.0, Sh::Nullary)).count();
                c.check(depth as usize == q, &what(end), || format!("{}\nnesting depth {depth}", what(end)));
                c.sample(|| format!("{} -> {}", what(end), show_bytes(&out)));
                base = Some((out, lim));
            }
        }
        c.steps(prog.len() as u64 + 2);
        c.traces_n(1);
    }
    c.states_by_construction(1);
}

/// Is the value what the other was at some earlier point, closed?
fn below(p: &V, f: &V) -> bool {
    match (p, f) {
        (V::Arr(p), V::Arr(f)) => {
            p.len() <= f.len() && p.iter().zip(f).enumerate().all(|(i, (a, b))| a == b || i + 1 == p.len() && below(a, b))
        }
        (V::Dict(p), V::Dict(f)) => {
            p.len() <= f.len()
                && p.iter().zip(f).enumerate().all(|(i, (a, b))| a.0 == b.0 && (a.1 == b.1 || i + 1 == p.len() && below(&a.1, &b.1)))
        }
        _ => p == f,
    }
}

/// Crash a program that writes object 2 at all of its points.
fn crash_object(c: &Ctx, what: &dyn Fn() -> String, pretty: bool, f: &dyn Fn(&mut Chunk)) {
    let build = |at: Option<usize>, panic: bool| {
        let mut ch = Chunk::with_settings(settings(pretty));
        ch.indirect(Ref::new(1)).primitive(1);
        arm(at, panic);
        let r = catch(|| f(&mut ch));
        let fuse = arm(None, false);
        ch.indirect(Ref::new(3)).array().item(Name(b""));
        (ch, fuse, r)
    };
    let sig = |k: usize| format!("{} {} crash at {k}", what(), layout(pretty));
    let (full, fuse, r) = build(None, false);
    if let Err(p) = r {
        return c.fail(&sig(0), || format!("{}\npanicked without a crash: {p}", sig(0)));
    }
    let fobjs = match pdf::parse_chunk(full.as_bytes()) {
        Ok(o) if o.len() == 3 => o,
        o => return c.fail(&sig(0), || format!("{}\nunreadable: {:?}", sig(0), o.err())),
    };
    for k in 0..fuse.seen {
        let (p, pf, pr) = build(Some(k), true);
        let (s, sf, sr) = build(Some(k), false);
        let crashed = pr.as_ref().err() == Some(&format!("crash point {k}")) && pf.blown && sf.blown && sr.is_ok();
        c.check(crashed, &sig(k), || format!("{}\nended with {pr:?} and {sr:?}", sig(k)));
        let same = p.as_bytes() == s.as_bytes();
        // Inside a call the writer may go on after the end of the list.
        c.check(same || pf.inside, &sig(k), || {
            format!("{}\nunwinding leaves {}\nfinishing leaves {}", sig(k), show_out(p.as_bytes()), show_out(s.as_bytes()))
        });
        c.check(!same || M::of(p.limits()) == M::of(s.limits()), &sig(k), || format!("{}\nlimits differ", sig(k)));
        let r = pdf::parse_chunk(p.as_bytes()).and_then(|o| {
            if o.len() != 3 || o[0] != fobjs[0] || o[2].val != fobjs[2].val || o[2].num != 3 {
                return Err("the objects around are disturbed".into());
            }
            if o[1].num != 2 || o[1].gen != 0 || o[1].stream != fobjs[1].stream {
                return Err("the object's frame is disturbed".into());
            }
            if !below(&o[1].val, &fobjs[1].val) {
                return Err(format!("{:?} is no earlier stage of {:?}", o[1].val, fobjs[1].val));
            }
            let mut d = Pdf::with_settings(settings(pretty));
            d.extend(&p);
            pdf::check_xref(&pdf::parse_doc(&d.finish(), None)?)
        });
        if let Err(e) = r {
            c.fail(&sig(k), || format!("{}\n{e}\n{}", sig(k), show_out(p.as_bytes())));
        }
        c.sample(|| format!("{} -> {}", sig(k), show_out(p.as_bytes())));
        c.steps(2 * k as u64 + 4);
        c.traces_n(2);
    }
    c.states_by_construction(fuse.seen as u64);
}

fn writers(c: &Ctx) {
    let mut all: Vec<Table> = tables::interactive();
    all.extend(tables::document());
    all.extend(tables::graphics());
    let (mut count, mut vars) = (0, 0);
    for t in all.iter().filter(|t| t.kind != tab::Kind::Value) {
        c.phase(t.name);
        let n = t.vars.len();
        count += 1;
        vars += n;
        let run = |s: &[usize], place: Place| {
            for pretty in [false, true] {
                let what = || format!("{} {place:?}", t.show(s));
                crash_object(c, &what, pretty, &|ch| (t.run)(ch, place, s));
            }
        };
        par(n, |i| t.places().iter().for_each(|p| run(&[i], *p)));
        let plain = t.plain();
        let k = plain.len();
        if c.thorough {
            par(n * n, |i| {
                let s = seq(i, n, 2);
                if t.compatible(&s) {
                    run(&s, t.places()[i % t.places().len()]);
                }
            });
        }
        par(k * k, |i| {
            let s = [plain[i % k], plain[i / k]];
            if t.compatible(&s) {
                run(&s, t.places()[i % t.places().len()]);
            }
        });
    }
    c.note("typed writers", format!("{count} writers, {vars} method variants: every crash point of every call, every pair of methods{}", c.bound("", " and variants")));
    let colls = tables::collections::collections();
    for coll in &colls {
        c.phase(&coll.name);
        let n = coll.steps.len();
        for len in 0..=c.bound(3, 4) {
            par(n.pow(len as u32), |i| {
                let s = seq(i, n, len);
                for place in PLACES {
                    for (pre, post) in [(false, false), (true, true)] {
                        for pretty in [false, true] {
                            let what = || format!("{} {place:?} pre {pre} post {post}: {:?}", coll.name, s.iter().map(|i| &coll.steps[*i]).collect::<Vec<_>>());
                            crash_object(c, &what, pretty, &|ch| with_obj(ch, place, |o| (coll.run)(o, pre, post, &s)));
                        }
                    }
                }
            });
        }
    }
    c.note("collections", format!("{}: every crash point of up to {} steps", colls.len(), c.bound(3, 4)));
}

fn streams(c: &Ctx) {
    c.phase("streams");
    let calls = streams::calls();
    let n = calls.len();
    for len in 0..=c.bound(3, 4) {
        par(n.pow(len as u32), |i| {
            let s = seq(i, n, len);
            for ctor in streams::CTORS {
                for data in [DATA, b""] {
                    for pretty in [false, true] {
                        let what = || format!("{} of {} bytes: {:?}", ctor.name, data.len(), s.iter().map(|i| &calls[*i].label).collect::<Vec<_>>());
                        crash_object(c, &what, pretty, &|ch| {
                            (ctor.run)(ch, Ref::new(2), data, &mut |w| {
                                own(s.iter()).for_each(|i| (calls[*i].run)(w));
                            })
                        });
                    }
                }
            }
        });
    }
    c.note("streams", format!("{} constructors, every crash point of up to {} calls", streams::CTORS.len(), c.bound(3, 4)));
}

/// Crashes inside operations that take lists.
fn operations(c: &Ctx) {
    c.phase("list operations");
    let ops = ops::ops();
    par(ops.len(), |i| {
        let o = &ops[i];
        for pretty in [false, true] {
            let run = |at: Option<usize>, panic: bool| {
                let mut ct = Content::with_settings(settings(pretty));
                ct.save_state();
                arm(at, panic);
                let r = catch(|| (o.run)(&mut ct));
                let fuse = arm(None, false);
                ct.set_parameters(Name(b""));
                let b = ct.finish();
                (b.to_vec(), M::of(b.limits()), fuse, r)
            };
            let (full, _, fuse, _) = run(None, false);
            for k in 0..fuse.seen {
                let what = || format!("{} {} crash at {k}", o.label, layout(pretty));
                let (p, pl, pf, pr) = run(Some(k), true);
                let (s, sl, sf, sr) = run(Some(k), false);
                let crashed = pr.as_ref().err() == Some(&format!("crash point {k}")) && pf.blown && sf.blown && sr.is_ok();
                c.check(crashed, &what(), || format!("{}\nended with {pr:?} and {sr:?}", what()));
                c.check(pf.inside || p == s && pl == sl, &what(), || format!("{}\nunwinding leaves {}\nfinishing leaves {}", what(), show_out(&p), show_out(&s)));
                let r = pdf::parse_content(&p).and_then(|p| {
                    let f = pdf::parse_content(&full)?;
                    // The crash is in the last operation of the method.
                    let ok = p.len() >= 2
                        && p.len() <= f.len()
                        && p[0] == f[0]
                        && p.last() == f.last()
                        && p[1..p.len() - 1].iter().zip(&f[1..]).enumerate().all(|(i, (a, b))| {
                            a == b || i + 3 == p.len() && a.operator == b.operator && below(&V::Arr(a.operands.clone()), &V::Arr(b.operands.clone()))
                        });
                    ok.then_some(()).ok_or("is no earlier stage of the complete program".into())
                });
                if let Err(e) = r {
                    c.fail(&what(), || format!("{}\n{e}\n{}", what(), show_out(&p)));
                }
                c.sample(|| format!("{} -> {}", what(), show_out(&p)));
                c.steps(6);
                c.traces_n(2);
                c.states_by_construction(1);
            }
        }
    });
    c.note("list operations", "every crash point inside every content stream method that takes lists or nested writers");
}

fn explore() {
    let c = Ctx::new("C28");
    values(c);
    content(c);
    sized(c);
    streams(c);
    operations(c);
    writers(c);
    c.finish()
}
