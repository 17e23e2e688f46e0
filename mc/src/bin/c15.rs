//! C15: reported limits equal the extremes of everything written.
use mc::gen::{layout, settings, trees, M, MODES, PRIMS, T};
use mc::kinds::KINDS;
use mc::ops::ops;
use mc::pdf::V;
use mc::streams::{calls, CTORS};
use mc::*;
use pdf_writer::types::PostScriptOp;
use pdf_writer::*;

fn main() {
    guard(explore)
}

/// The extremes of a value as it stands in the file.
fn lim(v: &V, m: &mut M) {
    match v {
        V::Null | V::Bool(_) => {}
        // Large reals need no decimal point.
        V::Int(i) if i32::try_from(*i).is_err() => m.real(*i as f32),
        V::Int(i) => m.int(*i),
        V::Real(s) => m.real(s.parse().unwrap()),
        V::Name(n) => m.name(n.len()),
        V::Str(s) => m.str(s.len()),
        V::Ref(n, g) => {
            m.int(*n);
            m.int(*g);
        }
        V::Arr(a) => {
            a.iter().for_each(|v| lim(v, m));
            m.arr(a.len());
        }
        V::Dict(d) => {
            d.iter().for_each(|(k, v)| {
                m.name(k.len());
                lim(v, m);
            });
            m.dict(d.len());
        }
    }
}

fn of_chunk(b: &[u8]) -> Result<M, String> {
    let mut m = M::default();
    for o in pdf::parse_chunk(b)? {
        m.int(o.num);
        lim(&o.val, &mut m);
    }
    Ok(m)
}

fn of_content(b: &[u8]) -> Result<M, String> {
    let mut m = M::default();
    for o in pdf::parse_content(b)? {
        o.operands.iter().for_each(|v| lim(v, &mut m));
    }
    Ok(m)
}

fn same(c: &Ctx, what: &dyn Fn() -> String, bytes: &[u8], want: Result<M, String>, got: M) {
    match want {
        Ok(m) if m == got => c.sample(|| format!("{}: {got:?}", what())),
        Ok(m) => c.fail(&what(), || format!("{}\nlimits {got:?}\nexpected {m:?}\nwritten: {}", what(), show_out(bytes))),
        Err(e) => c.fail(&what(), || format!("{}\nunreadable: {e}\n{}", what(), show_out(bytes))),
    }
    c.states_by_construction(1);
    c.traces_n(1);
}

fn chunk(c: &Ctx, what: &dyn Fn() -> String, f: impl FnOnce() -> Chunk) {
    match catch(f) {
        Ok(ch) => same(c, what, ch.as_bytes(), of_chunk(ch.as_bytes()), M::of(ch.limits())),
        Err(p) => c.fail(&what(), || format!("{}\npanicked: {p}", what())),
    }
}

fn content(c: &Ctx, what: &dyn Fn() -> String, pretty: bool, f: impl FnOnce(&mut Content)) {
    let r = catch(|| {
        let mut ct = Content::with_settings(settings(pretty));
        f(&mut ct);
        ct.finish()
    });
    match r {
        Ok(b) => same(c, what, &b, of_content(&b), M::of(b.limits())),
        Err(p) => c.fail(&what(), || format!("{}\npanicked: {p}", what())),
    }
}

/// Single values: all boundary numbers, all lengths of names and strings.
fn scalars(c: &Ctx) {
    c.phase("integers");
    let mut ints: Vec<i32> = (0..31).flat_map(|s| [-1, 0, 1].map(|d| (1i32 << s) + d)).collect();
    ints.extend((0..10).map(|d| 10i32.pow(d)));
    ints.extend(ints.clone().iter().map(|i| -i));
    ints.extend([i32::MAX, i32::MIN, i32::MIN + 1, i32::MAX - 1]);
    let n = ints.len();
    par(n * n, |i| {
        let (a, b) = (ints[i / n], ints[i % n]);
        let what = || format!("integers {a} then {b}");
        chunk(c, &what, || {
            let mut ch = Chunk::new();
            ch.indirect(Ref::new(1)).primitive(a);
            ch.indirect(Ref::new(2)).primitive(b);
            ch
        });
        content(c, &what, i % 2 == 0, |ct| drop(ct.op("x").operand(a).operand(b)));
    });
    c.phase("floats");
    // Every exponent with several mantissas, both signs.
    let mut floats: Vec<f32> = vec![];
    for e in 0..255u32 {
        for m in [0u32, 1, 0x40_0000, 0x7f_ffff, 0x12_3456] {
            floats.push(f32::from_bits(e << 23 | m));
        }
    }
    if c.thorough {
        // All signs, exponents and upper mantissa bits.
        floats.extend((0..1u32 << 19).map(|b| f32::from_bits(b << 12)).filter(|f| f.is_finite()));
    }
    floats.extend((0..20).map(|i| i as f32));
    floats.extend(floats.clone().iter().map(|f| -f));
    par(floats.len(), |i| {
        let f = floats[i];
        for g in [f, 0.25, -0.75, 3.0, 1e30, -2e9] {
            for g in [g, floats[(i + 1) % floats.len()]] {
                let what = || format!("floats {f:e} then {g:e}");
                chunk(c, &what, || {
                    let mut ch = Chunk::new();
                    ch.indirect(Ref::new(1)).primitive(f);
                    ch.indirect(Ref::new(2)).primitive(Rect::new(0.0, g, 0.5, 1.0));
                    ch
                });
                content(c, &what, i % 2 == 0, |ct| drop(ct.op("x").operand(f).operand(g)));
            }
        }
    });
    c.note("floats", format!("{} covering every exponent", floats.len()));
    c.phase("lengths");
    let max = c.bound(300, 3000);
    let mut ns: Vec<usize> = sizes(c.bound(70_000, 140_000)).into_iter().rev().collect();
    ns.extend(0..max);
    par(ns.len() * 6, |i| {
        let (n, k) = (ns[i / 6], i % 6);
        let bytes = [b"a", b"(", b"\\", b"\xff", b"#", b"\0"][k];
        let s = bytes.repeat(n);
        let t: String = ["a", "(", "\\", "\u{e9}", "\u{1f600}", "\n"][k].repeat(n);
        let what = |w: &str| format!("{w} of {n} times {:?}", show_bytes(bytes));
        for pretty in [false, true] {
            let one = |f: &dyn Fn(Obj<'_>)| {
                let mut ch = Chunk::with_settings(settings(pretty));
                f(ch.indirect(Ref::new(1)));
                ch
            };
            chunk(c, &|| what("name"), || one(&|o| o.primitive(Name(&s))));
            chunk(c, &|| what("string"), || one(&|o| o.primitive(Str(&s))));
            chunk(c, &|| what("text"), || one(&|o| o.primitive(TextStr(&t))));
            chunk(c, &|| what("key"), || one(&|o| drop(o.dict().pair(Name(&s), 1))));
            chunk(c, &|| what("tagged text"), || {
                one(&|o| {
                    let l = LanguageIdentifier::from_lang_region("de", "CH").unwrap();
                    let e = LanguageIdentifier::from_lang("en").unwrap();
                    o.primitive(TextStrWithLang(&[(l, t.as_str()), (e, "x")][..1 + n % 2]))
                })
            });
            chunk(c, &|| what("stream data"), || {
                let mut ch = Chunk::with_settings(settings(pretty));
                ch.stream(Ref::new(1), &s);
                ch
            });
            chunk(c, &|| what("array"), || {
                one(&|o| match k {
                    0 => drop(o.array().items(vec![Null; n])),
                    1 => drop(o.array().typed::<Name>().items(vec![Name(b""); n])),
                    2 => {
                        let mut a = o.array();
                        for _ in 0..n {
                            a.push().array();
                        }
                    }
                    3 => drop(o.dict().insert(Name(b"")).array().items(vec![true; n])),
                    4 => drop(o.start::<TypedArray<i32>>().items(vec![0; n])),
                    _ => {
                        let mut a = o.array();
                        a.push().array().items(vec![Null; n]);
                        a.push().array().items(vec![Null; 2 * n]);
                        a.push().array().items(vec![Null; 7]);
                    }
                })
            });
            chunk(c, &|| what("dictionary"), || {
                one(&|o| match k {
                    0 => drop(o.dict().pairs((0..n).map(|_| (Name(b"A"), Null)))),
                    1 => drop(o.dict().typed::<bool>().pairs((0..n).map(|_| (Name(b""), true)))),
                    2 => {
                        let mut d = o.dict();
                        for _ in 0..n {
                            d.insert(Name(b"")).dict();
                        }
                    }
                    3 => drop(o.array().push().dict().pairs((0..n).map(|_| (Name(b"A"), Null)))),
                    4 => {
                        let mut d = o.dict();
                        d.insert(Name(b"A")).dict().pairs((0..n).map(|_| (Name(b"A"), Null)));
                        d.insert(Name(b"B")).dict().pairs((0..n / 2).map(|_| (Name(b"A"), Null)));
                    }
                    _ => drop(o.dict().insert(Name(b"A")).dict().insert(Name(b"B")).dict().pairs((0..n).map(|_| (Name(b"A"), Null)))),
                })
            });
        }
    });
    c.note("lengths of names, strings, texts, arrays, dictionaries", format!("0-{} and around powers of two and ten up to {}", max - 1, ns[0]));
    c.phase("dates");
    let step = |d: Date, i: usize| match i {
        0 => d.month(1),
        1 => d.day(2),
        2 => d.hour(3),
        3 => d.minute(4),
        4 => d.second(5),
        5 => d.utc_offset_hour(-7),
        6 => d.utc_offset_hour(0),
        _ => d.utc_offset_minute(9),
    };
    for n in 0..=c.bound(5, 7) {
        par(8usize.pow(n as u32), |i| {
            let s = seq(i, 8, n);
            chunk(c, &|| format!("date {s:?}"), || {
                let mut ch = Chunk::new();
                ch.indirect(Ref::new(1)).primitive(s.iter().fold(Date::new(2021), |d, i| step(d, *i)));
                ch
            });
        });
    }
}

/// Values of every shape.
fn values(c: &Ctx) {
    let max = c.bound(5, 6);
    for n in 1..=max {
        c.phase(&format!("value trees of {n} nodes"));
        let leaves = match n {
            1..=3 => PRIMS,
            4 => &PRIMS[..c.bound(14, 39)],
            5 => &PRIMS[..c.bound(9, 14)],
            _ => &PRIMS[..7],
        };
        let ts: Vec<T> = trees(n, leaves, &[b"K", b"", b"Long key", b"k"]);
        c.note(&format!("value trees of {n} nodes"), ts.len());
        par(ts.len(), |i| {
            for (j, mode) in MODES.iter().enumerate() {
                let pretty = (i + j) % 2 == 0;
                let what = || format!("{:?} {mode:?} {}", ts[i], layout(pretty));
                chunk(c, &what, || {
                    let mut ch = Chunk::with_settings(settings(pretty));
                    let _ = ts[i].emit(ch.indirect(Ref::new(1)), *mode);
                    ch
                });
                content(c, &what, pretty, |ct| {
                    let mut op = ct.op("x");
                    let _ = ts[i].emit(op.obj(), *mode);
                    let _ = ts[(i * 7 + 1) % ts.len()].emit(op.obj(), *mode);
                });
            }
            c.steps(8 * ts[i].size() as u64);
        });
    }
}

/// Content streams over all operations.
fn contents(c: &Ctx) {
    let all = ops();
    let n = all.len();
    let plain: Vec<usize> = (0..n).filter(|i| all[*i].plain).collect();
    let show = |s: &[usize]| s.iter().map(|i| all[*i].label.clone()).collect::<Vec<_>>().join("; ");
    c.phase("content operations");
    let pairs = |second: &[usize]| {
        par(n * second.len(), |i| {
            let s = [i / second.len(), second[i % second.len()]];
            for pretty in [false, true] {
                content(c, &|| format!("{} {}", show(&s), layout(pretty)), pretty, |ct| s.iter().for_each(|j| (all[*j].run)(ct)));
            }
            c.steps(6);
        });
    };
    par(n, |i| {
        for pretty in [false, true] {
            content(c, &|| format!("{} {}", show(&[i]), layout(pretty)), pretty, |ct| (all[i].run)(ct));
        }
    });
    for w in &mc::ops::wide() {
        par(w.n, |i| {
            content(c, &|| format!("{} operands {i}", w.op), i % 2 == 0, |ct| (w.run)(ct, i));
            c.steps(3);
        });
    }
    pairs(&(0..n).collect::<Vec<_>>());
    if c.thorough {
        let k = plain.len();
        par(k * k * k, |i| {
            let s: Vec<usize> = seq(i, k, 3).iter().map(|j| plain[*j]).collect();
            content(c, &|| show(&s), i % 2 == 0, |ct| s.iter().for_each(|j| (all[*j].run)(ct)));
            c.steps(4);
        });
    }
    c.note("content operation variants", n);
}

/// Every typed writer, stream and collection.
fn writers(c: &Ctx) {
    for (name, ts) in [("interactive", tables::interactive()), ("document", tables::document()), ("graphics", tables::graphics())] {
        c.phase(name);
        for t in &ts {
            let n = t.vars.len();
            for (m, w) in t.wide.iter().enumerate() {
                par(w.n, |i| {
                    let place = t.places()[i % t.places().len()];
                    let pretty = i / 3 % 2 == 0;
                    chunk(c, &|| format!("{} {} argument {i} {place:?} {}", t.name, w.label, layout(pretty)), || {
                        let mut ch = Chunk::with_settings(settings(pretty));
                        (t.run_wide)(&mut ch, place, m, i);
                        ch
                    });
                    c.steps(3);
                });
            }
            par(1 + n + n * n, |i| {
                let s: Vec<usize> = match i {
                    0 => vec![],
                    i if i <= n => vec![i - 1],
                    i => vec![(i - 1 - n) / n, (i - 1 - n) % n],
                };
                if !t.compatible(&s) || t.kind == tab::Kind::Value && s.len() != 1 {
                    return;
                }
                for (j, place) in t.places().iter().enumerate() {
                    let pretty = (i + j) % 2 == 0;
                    let what = || format!("{} {place:?} {}", t.show(&s), layout(pretty));
                    chunk(c, &what, || {
                        let mut ch = Chunk::with_settings(settings(pretty));
                        (t.run)(&mut ch, *place, &s);
                        ch
                    });
                    c.steps(s.len() as u64 + 2);
                }
            });
        }
    }
    c.phase("collections");
    let max = c.bound(4, 6);
    for coll in &tables::collections::collections() {
        let k = coll.steps.len();
        for n in 0..=max {
            par(k.pow(n as u32), |i| {
                let s = seq(i, k, n);
                chunk(c, &|| format!("{} {s:?}", coll.name), || {
                    let mut ch = Chunk::with_settings(settings(i % 3 == 0));
                    (coll.run)(ch.indirect(Ref::new(2)), i % 2 == 0, i % 5 == 0, &s);
                    ch
                });
                c.steps(n as u64 + 2);
            });
        }
        par(c.bound(150, 600), |n| {
            for k in 0..k {
                let s = vec![k; n];
                chunk(c, &|| format!("{} {n} times {k}", coll.name), || {
                    let mut ch = Chunk::new();
                    (coll.run)(ch.indirect(Ref::new(2)), false, false, &s);
                    ch
                });
            }
        });
    }
    c.phase("streams");
    let cs = calls();
    for n in 0..=c.bound(3, 4) {
        par(cs.len().pow(n as u32), |i| {
            let s = seq(i, cs.len(), n);
            for (j, ctor) in CTORS.iter().enumerate() {
                let data = vec![b'x'; (i * 7 + j * 100) % 1500];
                chunk(c, &|| format!("{} {s:?} data of {} bytes", ctor.name, data.len()), || {
                    let mut ch = Chunk::with_settings(settings((i + j) % 2 == 0));
                    (ctor.run)(&mut ch, Ref::new(2), &data, &mut |w| s.iter().for_each(|i| (cs[*i].run)(w)));
                    ch
                });
                c.steps(n as u64 + 2);
            }
        });
    }
    c.phase("calculator programs");
    let nums = [
        PostScriptOp::Real(2.0), PostScriptOp::Real(-7.25), PostScriptOp::Integer(3), PostScriptOp::Integer(-9),
        PostScriptOp::Add, PostScriptOp::Real(1e13), PostScriptOp::Integer(i32::MIN), PostScriptOp::Real(1e-9), PostScriptOp::Real(0.0),
    ];
    let one = |o: &PostScriptOp, m: &mut M| match o {
        PostScriptOp::Real(r) => m.real(*r),
        PostScriptOp::Integer(i) => m.int(*i as i64),
        _ => {}
    };
    for n in 0..=4 {
        par(nums.len().pow(n as u32), |i| {
            let s = seq(i, nums.len(), n);
            let p: Vec<PostScriptOp> = s.iter().map(|i| nums[*i]).collect();
            let mut m = M::default();
            p.iter().for_each(|o| one(o, &mut m));
            let b = PostScriptOp::encode(&p);
            same(c, &|| format!("{p:?}"), &b, Ok(m), M::of(b.limits()));
            for nested in [[PostScriptOp::Integer(4), PostScriptOp::If(&p)], [PostScriptOp::Real(0.5), PostScriptOp::IfElse(&p, &nums[1..3])]] {
                let mut m = m;
                one(&nested[0], &mut m);
                if let PostScriptOp::IfElse(..) = nested[1] {
                    nums[1..3].iter().for_each(|o| one(o, &mut m));
                }
                let b = PostScriptOp::encode(&nested);
                same(c, &|| format!("{nested:?}"), &b, Ok(m), M::of(b.limits()));
            }
        });
    }
}

/// A buffer with exactly these limits.
fn profile(l: &[usize]) -> Buf {
    let mut ct = Content::new();
    let mut op = ct.op("x");
    if l[0] > 0 {
        op.operand([0, -7, 70000][l[0]]);
    }
    if l[1] > 0 {
        op.operand([0.0, -2.5, 1e20][l[1]]);
    }
    if l[2] > 0 {
        op.operand(Name(&b"abcdefgh"[..l[2] * 4]));
    }
    if l[3] > 0 {
        op.operand(Str(&b"(((((((("[..l[3] * 4]));
    }
    if l[4] > 0 {
        op.obj().array().items(vec![Null; l[4] * 9]);
    }
    if l[5] > 0 {
        op.obj().dict().pairs(vec![(Name(b""), Null); l[5] * 5]);
    }
    drop(op);
    ct.finish()
}

/// Merging takes the maximum of each field independently: all combinations of
/// two profiles with three levels per field.
fn merging(c: &Ctx) {
    c.phase("merging profiles");
    let n = 3usize.pow(6);
    let bufs: Vec<Buf> = (0..n).map(|i| profile(&seq(i, 3, 6))).collect();
    let ms: Vec<M> = bufs.iter().map(|b| of_content(b).unwrap()).collect();
    par(n * n, |i| {
        let (a, b) = (i / n, i % n);
        let mut want = ms[a];
        want.merge(&ms[b]);
        let what = |w: &str| format!("{w} of profiles {:?} and {:?}", seq(a, 3, 6), seq(b, 3, 6));
        let mut l = bufs[a].limits().clone();
        l.merge(bufs[b].limits());
        let same = |w: &str, got: M, want: M| {
            if got != want {
                c.fail(&what(w), || format!("{}\n{got:?}, expected {want:?}", what(w)));
            }
        };
        same("merge", M::of(&l), want);
        let mut x = Chunk::new();
        x.merge_limits(bufs[a].limits());
        same("merge_limits into an empty chunk", M::of(x.limits()), ms[a]);
        x.merge_limits(bufs[b].limits());
        same("merge_limits", M::of(x.limits()), want);
        let mut y = Chunk::new();
        y.merge_limits(bufs[b].limits());
        let mut z = Pdf::new();
        z.merge_limits(bufs[a].limits());
        z.extend(&y);
        same("extend", M::of(z.limits()), want);
        let mut r = Chunk::new();
        r.merge_limits(bufs[a].limits());
        y.renumber_into(&mut r, |r| r);
        same("renumber_into", M::of(r.limits()), want);
        same("renumber", M::of(y.renumber(|r| r).limits()), ms[b]);
        same("clone", M::of(r.clone().limits()), want);
        // Writing the same on top instead of merging.
        let mut v = Chunk::new();
        v.merge_limits(bufs[a].limits());
        v.indirect(Ref::new(1)).array();
        let mut one = want;
        one.int(1);
        let mut only = ms[a];
        only.int(1);
        same("a write after merging", M::of(v.limits()), only);
        v.merge_limits(bufs[b].limits());
        same("merging after a write", M::of(v.limits()), one);
        c.states_by_construction(1);
        c.steps(10);
        c.traces_n(1);
    });
    c.note("merged profiles", format!("all {n} x {n} with three levels per field"));
}

/// Limits survive merging no matter how large the chunks are.
fn large(c: &Ctx) {
    c.phase("large chunks");
    let small = profile(&[1; 6]);
    let big = profile(&[2; 6]);
    let ns: Vec<usize> = sizes(c.bound(70_000, 300_000)).into_iter().rev().collect();
    par(ns.len() * 6, |i| {
        let (n, k) = (ns[i / 6], i % 6);
        // A stream of `n` bytes, or `n / 16` objects.
        let fill = |ch: &mut Chunk, id: i32, n: usize| match k % 2 {
            0 => drop(ch.stream(Ref::new(id), &vec![b'x'; n])),
            _ => (0..n / 16).for_each(|j| ch.indirect(Ref::new(id + j as i32)).primitive(Null)),
        };
        let (na, nb) = [(n, 0), (0, n), (n, n)][k / 2];
        let (mut a, mut b) = (Chunk::new(), Chunk::new());
        a.merge_limits(small.limits());
        b.merge_limits(big.limits());
        fill(&mut a, 1, na);
        fill(&mut b, 500_000, nb);
        let mut want = M::of(a.limits());
        want.merge(&M::of(b.limits()));
        let what = |w: &str| format!("{w} of chunks with {na} and {nb} bytes, filling {}", k % 2);
        let same = |w: &str, got: M, want: M| {
            c.check(got == want, &what(w), || format!("{}\n{got:?}, expected {want:?}", what(w)));
        };
        let mut p = Pdf::new();
        p.extend(&a);
        same("the first extend", M::of(p.limits()), M::of(a.limits()));
        p.extend(&b);
        same("extend", M::of(p.limits()), want);
        let mut q = a.clone();
        b.renumber_into(&mut q, |r| r);
        let mut r = b.clone();
        a.renumber_into(&mut r, |r| r);
        r.merge_limits(b.limits());
        let mut e = b.clone();
        e.extend(&a);
        for (w, x) in [("renumber_into", &q), ("renumber_into the larger", &r), ("extend the larger", &e)] {
            let mut got = M::of(x.limits());
            let mut want = want;
            // Renumbering may or may not count the numbers of objects.
            got.int = 0;
            want.int = 0;
            same(w, got, want);
        }
        c.states_by_construction(1);
        c.steps(8);
        c.traces_n(1);
    });
    c.note("sizes of merged chunks", format!("{} sizes up to {}", ns.len(), ns[0]));
}

/// Histories of writes, clones and merges over two chunks and a document,
/// checked after every operation.
fn histories(c: &Ctx) {
    let content = profile(&[2, 2, 2, 2, 2, 2]);
    let small = profile(&[1, 0, 1, 0, 2, 0]);
    let lims = [of_content(&content).unwrap(), of_content(&small).unwrap()];
    // write 0-2, merge limits a/b into 0-2, extend 0<-1, 1<-0, 2<-0, 2<-1,
    // clone 0<-1, renumber 1<-0, fresh 0
    const N: usize = 3 + 6 + 7;
    let max = c.bound(5, 6);
    for len in 0..=max {
        c.phase(&format!("histories of {len} operations"));
        par(N.pow(len as u32), |i| {
            let s = seq(i, N, len);
            let what = || format!("history {s:?}");
            let mut st: Vec<Chunk> = (0..2).map(|k| Chunk::with_settings(settings((i + k) % 2 == 0))).collect();
            let mut doc = Pdf::new();
            let mut model = [M::default(); 3];
            for (n, o) in s.iter().enumerate() {
                let id = Ref::new(n as i32 * 40 + 3);
                match *o {
                    o @ 0..=2 => {
                        let k = &KINDS[(i + n * 11) % KINDS.len()];
                        (k.write)(if o == 2 { &mut doc } else { &mut st[o] }, id);
                        model[o].int(id.get() as i64);
                        tab::lim_x(&k.want(), &mut model[o]);
                    }
                    o @ 3..=8 => {
                        let (t, w) = ((o - 3) / 2, (o - 3) % 2);
                        let l = [&content, &small][w].limits();
                        (if t == 2 { &mut *doc } else { &mut st[t] }).merge_limits(l);
                        model[t].merge(&lims[w]);
                    }
                    9 => {
                        let (a, b) = st.split_at_mut(1);
                        a[0].extend(&b[0]);
                        let m = model[1];
                        model[0].merge(&m);
                    }
                    10 => {
                        let (a, b) = st.split_at_mut(1);
                        b[0].extend(&a[0]);
                        let m = model[0];
                        model[1].merge(&m);
                    }
                    o @ 11..=12 => {
                        doc.extend(&st[o - 11]);
                        let m = model[o - 11];
                        model[2].merge(&m);
                    }
                    13 => {
                        st[0] = st[1].clone();
                        model[0] = model[1];
                    }
                    14 => {
                        let mut max = 0;
                        let from = st[0].clone();
                        from.renumber_into(&mut st[1], |r| {
                            max = max.max(r.get() + 1);
                            Ref::new(r.get() + 1)
                        });
                        let m = model[0];
                        model[1].merge(&m);
                        model[1].int(max as i64);
                    }
                    _ => {
                        st[0] = Chunk::new();
                        model[0] = M::default();
                    }
                }
                for t in 0..3 {
                    let l = M::of(if t == 2 { doc.limits() } else { st[t].limits() });
                    if l != model[t] {
                        c.fail(&what(), || format!("{}\nafter operation {n}: chunk {t} reports {l:?}, expected {:?}", what(), model[t]));
                    }
                }
            }
            c.states_by_construction(1);
            c.steps(len as u64);
            c.traces_n(1);
        });
    }
    c.note("histories", format!("all of up to {max} of {N} operations"));
}

fn explore() {
    let c = Ctx::new("C15");
    scalars(c);
    values(c);
    contents(c);
    writers(c);
    merging(c);
    large(c);
    histories(c);
    c.finish()
}
