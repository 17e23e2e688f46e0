//! C05: nested objects read back exactly as composed.
use mc::gen::*;
use mc::tab::{hinted, user, HINTS};
use mc::*;
use pdf_writer::*;

fn run(c: &Ctx, t: &T, mode: Mode, pretty: bool, nested: u8, neighbours: bool) {
    let r = catch(|| {
        let mut ch = Chunk::with_settings(settings(pretty));
        if neighbours {
            ch.indirect(Ref::new(1)).primitive(1);
        }
        let r = match nested {
            0 => t.emit(ch.indirect(Ref::new(2)), mode),
            1 => {
                let mut a = ch.indirect(Ref::new(2)).array();
                a.item(1);
                let r = t.emit(a.push(), mode);
                a.item(2);
                r
            }
            _ => {
                let mut d = ch.indirect(Ref::new(2)).dict();
                let r = t.emit(d.insert(Name(b"K")), mode);
                d.pair(Name(b"L"), 2);
                r
            }
        };
        if neighbours {
            ch.indirect(Ref::new(3)).primitive(Name(b"E"));
        }
        r.map(|_| ch)
    });
    let want = match nested {
        0 => t.x(),
        1 => X::Arr(vec![X::I(1), t.x(), X::I(2)]),
        _ => X::Dict(vec![(b"K".to_vec(), t.x()), (b"L".to_vec(), X::I(2))]),
    };
    c.steps(t.size() as u64);
    c.trace();
    let desc = |what: &str, out: &[u8]| {
        format!(
            "{what}\nvalue composed: {}\ncalls: {mode:?}, {}, nesting {nested}\noutput: {}",
            want.show(),
            layout(pretty),
            show_out(out)
        )
    };
    let sig = || {
        let mut s = format!("{:?}", t);
        s.truncate(200);
        format!("compose {} {mode:?} {nested} {s}", layout(pretty))
    };
    match r {
        Err(p) => c.fail(&sig(), || desc(&format!("panicked: {p}"), b"")),
        Ok(Err(e)) => c.fail(&sig(), || desc(&e, b"")),
        Ok(Ok(ch)) => {
            let out = ch.as_bytes();
            match pdf::parse_chunk(out) {
                Err(e) => c.fail(&sig(), || desc(&format!("not well-formed: {e}"), out)),
                Ok(objs) => {
                    let i = neighbours as usize;
                    let n = if neighbours { 3 } else { 1 };
                    let ok = objs.len() == n
                        && objs[i].num == 2
                        && objs[i].gen == 0
                        && objs[i].stream.is_none()
                        && matches(&want, &objs[i].val)
                        && (!neighbours
                            || (objs[0].val == pdf::V::Int(1)
                                && objs[2].val == pdf::V::Name(b"E".to_vec())));
                    c.check(ok, &sig(), || {
                        desc(&format!("read back differently: {:?}", objs), out)
                    });
                    c.sample(|| format!("{} -> {}", want.show(), show_out(out)));
                }
            }
        }
    }
}

/// Many elements handed over in one call, in one container and in several.
fn bulk(c: &Ctx, n: usize, keys: &[&'static [u8]]) {
    for pretty in [false, true] {
        for form in 0..6 {
            for hint in (0..HINTS).filter(|h| n < 20 || n % HINTS == *h) {
            let ints: Vec<i32> = (0..n as i32).collect();
            let r = catch(|| hinted(hint, || {
                let mut ch = Chunk::with_settings(settings(pretty));
                let o = ch.indirect(Ref::new(2));
                let (len, empty) = match form {
                    0 => {
                        let mut a = o.array();
                        a.items(user(ints.iter().copied()));
                        (a.len(), a.is_empty())
                    }
                    1 => {
                        let mut a = o.array().typed::<i32>();
                        a.items(user(ints.iter().copied()));
                        (a.len(), a.is_empty())
                    }
                    2 => {
                        let mut a = o.array();
                        for w in ints.chunks(300) {
                            a.items(w);
                        }
                        (a.len(), a.is_empty())
                    }
                    3 => {
                        let mut d = o.dict();
                        d.pairs(user(ints.iter().map(|i| (Name(keys[*i as usize]), *i))));
                        (d.len(), d.is_empty())
                    }
                    4 => {
                        let mut d = o.dict().typed::<i32>();
                        d.pairs(user(ints.iter().map(|i| (Name(keys[*i as usize]), *i))));
                        (d.len(), d.is_empty())
                    }
                    _ => {
                        let mut a = o.array().typed::<Ref>();
                        a.items(user(ints.iter().map(|i| Ref::new(i + 1))));
                        (a.len(), a.is_empty())
                    }
                };
                (ch, len, empty)
            }));
            c.steps(n as u64);
            c.trace();
            let sig = format!("bulk {n} {} form {form}, iterators announcing their length in way {hint}", layout(pretty));
            let want = match form {
                0..=2 => X::Arr(ints.iter().map(|i| X::I(*i as i64)).collect()),
                3 | 4 => X::Dict(
                    ints.iter().map(|i| (keys[*i as usize].to_vec(), X::I(*i as i64))).collect(),
                ),
                _ => X::Arr(ints.iter().map(|i| X::Ref(*i as i64 + 1)).collect()),
            };
            match r {
                Err(p) => c.fail(&sig, || format!("{sig}: panicked: {p}")),
                Ok((ch, len, empty)) => {
                    let ok = len as usize == n
                        && empty == (n == 0)
                        && pdf::parse_chunk(ch.as_bytes())
                            .is_ok_and(|o| o.len() == 1 && matches(&want, &o[0].val));
                    c.check(ok, &sig, || {
                        format!("{sig}: reports length {len}, output {}", show_out(ch.as_bytes()))
                    });
                }
            }
            }
        }
    }
    c.states_by_construction(1);
}

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C05");
    // Every primitive on its own, in every position.
    c.phase("single");
    for p in PRIMS {
        for mode in MODES {
            for pretty in [true, false] {
                for nested in 0..3 {
                    for nb in [false, true] {
                        run(c, &T::P(*p), mode, pretty, nested, nb);
                    }
                }
            }
        }
    }
    c.states_by_construction(PRIMS.len() as u64);

    // All adjacent triples in arrays (pairs with full mode coverage).
    c.phase("arrays");
    let mut alpha: Vec<T> = PRIMS.iter().map(|p| T::P(*p)).collect();
    alpha.extend([
        T::A(vec![]),
        T::D(vec![]),
        T::A(vec![T::P(P::Name(b""))]),
        T::D(vec![(b"", T::P(P::I(3)))]),
        T::D(vec![(b"K", T::P(P::Name(b"")))]),
        T::A(vec![T::A(vec![T::P(P::I(5))]), T::D(vec![])]),
    ]);
    let k = alpha.len();
    let n = c.bound(3, 4);
    for len in 0..=n {
        let total = k.pow(len as u32);
        par(total, |i| {
            let s = seq(i, k, len);
            let t = T::A(s.iter().map(|j| alpha[*j].clone()).collect());
            for pretty in [false, true] {
                if len <= 2 {
                    for mode in MODES {
                        for nested in 0..3 {
                            run(c, &t, mode, pretty, nested, true);
                        }
                    }
                } else if len == 3 {
                    for mode in MODES {
                        run(c, &t, mode, pretty, (i % 3) as u8, false);
                    }
                } else {
                    run(c, &t, MODES[i % 5], pretty, 0, false);
                }
            }
        });
        c.states_by_construction(total as u64);
    }
    // All two-entry dictionaries over keys and values, three entries in thorough.
    c.phase("dicts");
    let keys: &[&'static [u8]] = &[b"K", b"", b"1", b"Length", b"a/b", b"\xff"];
    let ke = keys.len() * k;
    let n = c.bound(2, 3);
    for len in 0..=n {
        let total = ke.pow(len as u32);
        par(total, |i| {
            let s = seq(i, ke, len);
            let t = T::D(s.iter().map(|j| (keys[j / k], alpha[j % k].clone())).collect());
            for pretty in [false, true] {
                if len < 2 {
                    for mode in MODES {
                        for nested in 0..3 {
                            run(c, &t, mode, pretty, nested, true);
                        }
                    }
                } else if len == 2 {
                    for mode in MODES {
                        run(c, &t, mode, pretty, (i % 3) as u8, false);
                    }
                } else {
                    run(c, &t, MODES[i % 5], pretty, 0, false);
                }
            }
        });
        c.states_by_construction(total as u64);
    }
    // All tree shapes.
    c.phase("trees");
    let leaves = [P::I(7), P::Name(b""), P::Str(b"(")];
    for n in 1..=c.bound(6, 8) {
        let ts = trees(n, &leaves, &[b"K", b"", b"2"]);
        c.phase(&format!("{} trees with {n} nodes", ts.len()));
        par(ts.len(), |i| {
            for pretty in [false, true] {
                let modes: &[Mode] = if n <= 5 { &MODES } else { &MODES[i % 5..i % 5 + 1] };
                for mode in modes {
                    run(c, &ts[i], *mode, pretty, 0, n <= 5);
                    if n <= 4 {
                        run(c, &ts[i], *mode, pretty, 1, true);
                        run(c, &ts[i], *mode, pretty, 2, true);
                    }
                }
            }
        });
        c.states_by_construction(ts.len() as u64);
    }
    // Large containers: every size of interest, all modes, also many at once.
    let ns = sizes(c.bound(5000, 70_000));
    let extra = [9_999, 10_001, 16_383, 16_384, 16_385, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_000];
    let ns: Vec<usize> = ns.iter().copied().chain(extra.into_iter().filter(|x| !ns.contains(x))).collect();
    c.phase("large");
    let keys: Vec<&'static [u8]> =
        (0..70_010).map(|i| &*Box::leak(format!("k{i}").into_bytes().into_boxed_slice())).collect();
    let pools: &[&[P]] = &[
        &[P::I(7)],
        &[P::Name(b"N")],
        &[P::I(7), P::Ref(4), P::Name(b""), P::Str(b"("), P::Bool(true), P::F(2.5), P::Null],
    ];
    par(ns.len() * pools.len(), |i| {
        // The largest first.
        let n = ns[ns.len() - 1 - i / pools.len()];
        let pool = pools[i % pools.len()];
        let items: Vec<T> = (0..n).map(|j| T::P(pool[j % pool.len()])).collect();
        let arr = T::A(items.clone());
        let dict = T::D(items.iter().enumerate().map(|(j, t)| (keys[j], t.clone())).collect());
        for pretty in [false, true] {
            for mode in MODES {
                if n > 600 && (n + i) % 5 != mode as usize {
                    continue;
                }
                run(c, &arr, mode, pretty, (i % 3) as u8, true);
                run(c, &dict, mode, pretty, (i % 3) as u8, true);
            }
        }
        // An array of containers and a dictionary of containers.
        if n < 3000 {
            let inner = |j: usize| match j % 3 {
                0 => T::A(vec![]),
                1 => T::D(vec![(b"K" as &[u8], T::P(P::Name(b"")))]),
                _ => T::A(vec![T::P(P::I(j as i32))]),
            };
            let t = T::A((0..n).map(inner).collect());
            run(c, &t, MODES[i % 5], i % 2 == 0, 0, true);
            let t = T::D((0..n).map(|j| (keys[j], inner(j))).collect());
            run(c, &t, MODES[i % 5], i % 2 == 1, 0, true);
        }
        c.states_by_construction(4);
    });
    par(ns.len(), |i| bulk(c, ns[ns.len() - 1 - i], &keys));
    c.note("large containers", format!("{} sizes up to {}", ns.len(), ns.iter().max().unwrap()));
    // Deep nesting: all container patterns of period up to 3, depths up to 300.
    c.phase("depth");
    let depths = c.bound(300, 1100);
    par(depths * 14, |i| {
        let depth = i / 14 + 1;
        let pat = i % 14;
        let (len, bits) = match pat {
            0..=1 => (1, pat),
            2..=5 => (2, pat - 2),
            _ => (3, pat - 6),
        };
        let mut t = T::P(P::Name(b""));
        for l in (0..depth).rev() {
            t = if bits >> (l % len) & 1 == 0 {
                if l % 2 == 0 {
                    T::A(vec![t])
                } else {
                    T::A(vec![T::P(P::I(1)), t, T::P(P::I(2))])
                }
            } else {
                T::D(vec![(b"A", t), (b"B", T::P(P::I(2)))])
            };
        }
        for pretty in [false, true] {
            run(c, &t, MODES[i % 5], pretty, 0, true);
        }
    });
    c.states_by_construction(depths as u64 * 14);
    c.note("array length over full alphabet", c.bound(3, 4));
    c.note("alphabet", k);
    c.note("dict entries over keys x alphabet", n);
    c.note("tree nodes", c.bound(6, 8));
    c.note("nesting depth", depths);
    c.finish()
}
