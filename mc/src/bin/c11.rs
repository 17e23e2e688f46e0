//! C11: the layout setting never changes the meaning of the output.
use mc::doc::{show, write_all, Step};
use mc::gen::{settings, trees, M, MODES, P, PRIMS, T};
use mc::kinds::KINDS;
use mc::ops::ops;
use mc::pdf::{Entry, V};
use mc::streams::{calls, CTORS};
use mc::*;
use pdf_writer::*;

fn main() {
    guard(explore)
}

/// Compare the two runs of a program.
fn two<T>(c: &Ctx, what: &dyn Fn() -> String, run: impl Fn(bool) -> T, cmp: impl Fn(&T, &T) -> Result<(), String>, bytes: impl Fn(&T) -> &[u8]) {
    let (p, q) = match (catch(|| run(true)), catch(|| run(false))) {
        (Ok(p), Ok(q)) => (p, q),
        (Err(a), Err(b)) if a == b => return,
        (a, b) => {
            let (a, b) = (a.err(), b.err());
            return c.fail(&what(), || format!("{}\npanics: pretty {a:?}, compact {b:?}", what()));
        }
    };
    let (pb, qb) = (bytes(&p), bytes(&q));
    let r = if qb.len() > pb.len() {
        Err(format!("the compact form has {} bytes, the pretty form {}", qb.len(), pb.len()))
    } else {
        cmp(&p, &q)
    };
    match r {
        Ok(()) => c.sample(|| format!("{}: {} / {}", what(), show_out(pb), show_out(qb))),
        Err(e) => c.fail(&what(), || format!("{}\n{e}\npretty: {}\ncompact: {}", what(), show_out(pb), show_out(qb))),
    }
    c.states_by_construction(1);
    c.traces_n(2);
}

fn same_chunk(p: &Chunk, q: &Chunk) -> Result<(), String> {
    let (a, b) = (pdf::parse_chunk(p.as_bytes())?, pdf::parse_chunk(q.as_bytes())?);
    let ok = a.len() == b.len()
        && a.iter().zip(&b).all(|(x, y)| x.num == y.num && x.gen == y.gen && x.val == y.val && x.stream == y.stream);
    if !ok {
        return Err(format!("pretty reads {a:?}, compact {b:?}"));
    }
    if p.refs().ne(q.refs()) {
        return Err("refs() differ".into());
    }
    if M::of(p.limits()) != M::of(q.limits()) {
        return Err("limits differ".into());
    }
    Ok(())
}

fn chunk(c: &Ctx, what: &dyn Fn() -> String, f: impl Fn(&mut Chunk)) {
    let run = |pretty| {
        let mut ch = Chunk::with_settings(settings(pretty));
        f(&mut ch);
        ch
    };
    two(c, what, run, same_chunk, |c| c.as_bytes())
}

fn content(c: &Ctx, what: &dyn Fn() -> String, f: impl Fn(&mut Content)) {
    let run = |pretty| {
        let mut ct = Content::with_settings(settings(pretty));
        f(&mut ct);
        (ct.state_nesting_depth(), ct.finish())
    };
    let cmp = |p: &(usize, Buf), q: &(usize, Buf)| {
        let (a, b) = (pdf::parse_content(&p.1)?, pdf::parse_content(&q.1)?);
        let ok = a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.operator == y.operator && x.operands == y.operands);
        if !ok {
            return Err(format!("pretty reads {a:?}, compact {b:?}"));
        }
        if p.0 != q.0 || M::of(p.1.limits()) != M::of(q.1.limits()) {
            return Err("nesting depth or limits differ".into());
        }
        Ok(())
    };
    two(c, what, run, cmp, |b| b.1.as_slice())
}

fn doc(c: &Ctx, what: &dyn Fn() -> String, xref: Option<i32>, f: impl Fn(&mut Pdf)) {
    let run = |pretty| {
        let mut p = Pdf::with_settings(settings(pretty));
        f(&mut p);
        match xref {
            None => p.finish(),
            Some(x) => p.finish_with_xref_stream(Ref::new(x)),
        }
    };
    let cmp = |p: &Vec<u8>, q: &Vec<u8>| {
        let (a, b) = (pdf::parse_doc(p, None)?, pdf::parse_doc(q, None)?);
        pdf::check_xref(&a)?;
        pdf::check_xref(&b)?;
        let objs = |d: &pdf::Doc| -> Vec<(i64, i64, V, Option<Vec<u8>>)> {
            let x = d.xref_stream.as_ref().map(|o| o.num);
            let o = d.objs.iter().filter(|o| Some(o.num) != x);
            o.map(|o| (o.num, o.gen, o.val.clone(), o.stream.clone())).collect()
        };
        // The cross-reference stream's own data and field widths hold offsets.
        let trailer = |d: &pdf::Doc| match &d.trailer {
            V::Dict(e) => e.iter().filter(|(k, _)| xref.is_none() || k != b"Length" && k != b"W").cloned().collect::<Vec<_>>(),
            _ => vec![],
        };
        let kinds = |d: &pdf::Doc| -> Vec<Option<(u64, u64)>> {
            let e = d.entries.iter();
            e.map(|e| match e {
                Entry::Free { next, gen } => Some((*next, *gen)),
                Entry::Used { .. } => None,
            })
            .collect()
        };
        if (a.version, a.marker, objs(&a), trailer(&a), kinds(&a)) != (b.version, b.marker, objs(&b), trailer(&b), kinds(&b)) {
            return Err(format!("pretty reads {a:?}, compact {b:?}"));
        }
        Ok(())
    };
    two(c, what, run, cmp, |b| b)
}

fn values(c: &Ctx) {
    let max = c.bound(4, 6);
    for n in 1..=max {
        c.phase(&format!("value trees of {n} nodes"));
        let leaves = match n {
            1..=3 => PRIMS,
            4 => &PRIMS[..c.bound(12, 24)],
            5 => &PRIMS[..9],
            _ => &PRIMS[..5],
        };
        let ts = trees(n, leaves, &[b"K", b"", b"Long key", b"k"]);
        c.note(&format!("value trees of {n} nodes"), ts.len());
        par(ts.len(), |i| {
            for mode in MODES {
                let what = || format!("{:?} {mode:?}", ts[i]);
                chunk(c, &what, |ch| {
                    let _ = ts[i].emit(ch.indirect(Ref::new(1)), mode);
                });
                chunk(c, &what, |ch| {
                    let mut s = ch.stream(Ref::new(1), b"endobj");
                    let _ = ts[i].emit(s.insert(Name(b"A")), mode);
                    s.pair(Name(b"B"), Name(b""));
                });
                content(c, &what, |ct| {
                    let mut op = ct.op("x");
                    let _ = ts[i].emit(op.obj(), mode);
                    let _ = ts[(i * 7 + 1) % ts.len()].emit(op.obj(), mode);
                });
            }
            c.steps(12 * ts[i].size() as u64);
        });
    }
    // Every primitive next to every other one, in all contexts.
    c.phase("neighbours");
    let n = PRIMS.len();
    par(n * n * n, |i| {
        let s: Vec<P> = seq(i, n, 3).iter().map(|j| PRIMS[*j]).collect();
        let what = || format!("{s:?}");
        chunk(c, &what, |ch| {
            let mut a = ch.indirect(Ref::new(1)).array();
            s.iter().for_each(|p| p.emit(a.push()));
        });
        content(c, &what, |ct| {
            let mut op = ct.op("x");
            s.iter().for_each(|p| p.emit(op.obj()));
        });
        content(c, &what, |ct| s.iter().for_each(|p| p.emit(ct.op("x").obj())));
        c.steps(12);
    });
}

fn documents(c: &Ctx) {
    let n = KINDS.len();
    let k = c.bound(8, 16);
    c.phase("documents");
    for len in 0..=c.bound(3, 4) {
        let kinds: Vec<usize> = if len <= 3 { (0..n).collect() } else { (0..k).collect() };
        par(kinds.len().pow(len as u32), |i| {
            let nums = [[1, 2, 3, 4], [7, 3, 30, 1], [4, 3, 2, 1], [100, 2, 300, 4]][i % 4];
            let steps: Vec<Step> = seq(i, kinds.len(), len).iter().enumerate().map(|(j, k)| (nums[j], kinds[*k])).collect();
            let xref = [None, Some(5), Some(400)][i / 4 % 3];
            let what = || format!("{} xref {xref:?}", show(&steps));
            doc(c, &what, xref, |p| {
                match i % 5 {
                    0 => drop(p.set_version(2, 0)),
                    1 => drop(p.set_binary_marker(b"ABCD")),
                    2 => drop(p.set_file_id((b"a(".to_vec(), b"\xff".to_vec()))),
                    _ => {}
                }
                write_all(p, &steps);
                if i % 7 == 0 {
                    p.catalog(Ref::new(350)).pages(Ref::new(3));
                }
                if i % 7 == 1 {
                    p.document_info(Ref::new(351)).title(TextStr("T"));
                }
            });
            c.steps(2 * len as u64 + 6);
        });
    }
    c.note("documents", format!("all of up to {} objects", c.bound(3, 4)));
    c.phase("concatenations");
    // Chunks of either layout, concatenated and renumbered.
    par(n * n, |i| {
        let steps = [(1, i / n), (2, i % n)];
        for how in 0..5 {
            chunk(c, &|| format!("{} how {how}", show(&steps)), |ch| {
                let mut a = ch.clone();
                let mut b = ch.clone();
                write_all(&mut a, &steps[..1]);
                write_all(&mut b, &steps[1..]);
                match how {
                    0 => {
                        ch.extend(&a);
                        ch.extend(&b);
                    }
                    1 => {
                        a.extend(&b);
                        *ch = a;
                    }
                    2 => {
                        a.extend(&b);
                        *ch = a.renumber(|r| Ref::new(r.get() + 10));
                    }
                    3 => {
                        *ch = a;
                        b.renumber_into(ch, |r| Ref::new(r.get() + 10));
                    }
                    _ => {
                        write_all(ch, &steps);
                        let r = ch.renumber(|r| Ref::new(r.get() * 2));
                        ch.extend(&r);
                    }
                }
            });
            c.steps(10);
        }
    });
}

fn writers(c: &Ctx) {
    for (name, ts) in [("interactive", tables::interactive()), ("document", tables::document()), ("graphics", tables::graphics())] {
        c.phase(name);
        for t in &ts {
            let n = t.vars.len();
            let plain = t.plain();
            for (m, w) in t.wide.iter().enumerate() {
                par(w.n, |i| {
                    let place = t.places()[i % t.places().len()];
                    chunk(c, &|| format!("{} {} argument {i} {place:?}", t.name, w.label), |ch| (t.run_wide)(ch, place, m, i));
                    c.steps(6);
                });
            }
            par(1 + n + n * n, |i| {
                let s: Vec<usize> = match i {
                    0 => vec![],
                    i if i <= n => vec![i - 1],
                    i => vec![(i - 1 - n) / n, (i - 1 - n) % n],
                };
                if !t.compatible(&s) || t.kind == tab::Kind::Value && s.len() != 1 {
                    return;
                }
                for place in t.places() {
                    chunk(c, &|| format!("{} {place:?}", t.show(&s)), |ch| (t.run)(ch, *place, &s));
                    c.steps(2 * s.len() as u64 + 4);
                }
            });
            let k = plain.len();
            if t.kind != tab::Kind::Value && (c.thorough || k <= 45) {
                par(k * k * k, |i| {
                    let s: Vec<usize> = seq(i, k, 3).iter().map(|j| plain[*j]).collect();
                    if t.compatible(&s) {
                        let place = t.places()[i % t.places().len()];
                        chunk(c, &|| format!("{} {place:?}", t.show(&s)), |ch| (t.run)(ch, place, &s));
                        c.steps(10);
                    }
                });
            }
        }
    }
    c.phase("collections");
    let max = c.bound(4, 6);
    for coll in &tables::collections::collections() {
        let k = coll.steps.len();
        for n in 0..=max {
            par(k.pow(n as u32), |i| {
                let s = seq(i, k, n);
                chunk(c, &|| format!("{} {s:?}", coll.name), |ch| (coll.run)(ch.indirect(Ref::new(2)), i % 2 == 0, i % 3 == 0, &s));
                c.steps(2 * n as u64 + 4);
            });
        }
    }
    c.phase("streams");
    let cs = calls();
    for n in 0..=c.bound(2, 3) {
        par(cs.len().pow(n as u32) * CTORS.len(), |i| {
            let (ctor, s) = (&CTORS[i % CTORS.len()], seq(i / CTORS.len(), cs.len(), n));
            for data in [&b""[..], b"x", b"\n", b"endstream\nendobj\n", b"\r"] {
                let what = || format!("{} {s:?} data {:?}", ctor.name, show_bytes(data));
                chunk(c, &what, |ch| {
                    (ctor.run)(ch, Ref::new(2), data, &mut |w| s.iter().for_each(|i| (cs[*i].run)(w)));
                    ch.stream(Ref::new(3), data);
                });
                c.steps(2 * n as u64 + 6);
            }
        });
    }
}

fn contents(c: &Ctx) {
    let all = ops();
    let n = all.len();
    let plain: Vec<usize> = (0..n).filter(|i| all[*i].plain).collect();
    let go = |s: &[usize]| {
        let what = || s.iter().map(|i| all[*i].label.clone()).collect::<Vec<_>>().join("; ");
        content(c, &what, |ct| s.iter().for_each(|j| (all[*j].run)(ct)));
        c.steps(2 * s.len() as u64 + 2);
    };
    c.phase("content operations");
    go(&[]);
    par(n, |i| go(&[i]));
    par(n * n, |i| {
        let s = [i / n, i % n];
        go(&s);
    });
    for w in &mc::ops::wide() {
        par(w.n, |i| {
            content(c, &|| format!("{} operands {i}", w.op), |ct| (w.run)(ct, i));
            c.steps(4);
        });
    }
    let k = plain.len();
    par(k * k * k, |i| {
        let s: Vec<usize> = seq(i, k, 3).iter().map(|j| plain[*j]).collect();
        go(&s);
    });
    c.note("content operation variants", n);
    c.note("content operation methods", k);
    par(k, |i| {
        go(&vec![plain[i]; 300]);
        go(&(0..n).map(|j| (j * 37 + i) % n).collect::<Vec<_>>());
    });
}

/// Deep nesting, many elements, many objects.
fn sized(c: &Ctx) {
    c.phase("sizes");
    let depths = sizes(c.bound(520, 2100));
    par(depths.len() * 6, |i| {
        let (d, shape) = (depths[i / 6], i % 6);
        let mut t = T::P(P::Name(b""));
        for l in 0..d {
            t = match (shape % 3, l % 2) {
                (0, _) | (2, 0) => T::A(if shape < 3 { vec![t] } else { vec![T::P(P::I(1)), t, T::P(P::Str(b")"))] }),
                _ => T::D(if shape < 3 { vec![(b"A", t)] } else { vec![(b"", T::P(P::I(1))), (b"A", t), (b"B", T::P(P::Bool(true)))] }),
            };
        }
        for mode in MODES {
            let what = || format!("depth {d} shape {shape} {mode:?}");
            chunk(c, &what, |ch| {
                let _ = t.emit(ch.indirect(Ref::new(1)), mode);
                ch.indirect(Ref::new(2)).dict().pair(Name(b"A"), 1);
            });
            content(c, &what, |ct| {
                let mut o = ct.op("xx");
                let _ = t.emit(o.obj(), mode);
                o.operand(1);
            });
            c.steps(4 * d as u64 + 4);
        }
    });
    let counts = sizes(c.bound(5000, 70_000));
    par(counts.len() * 4, |i| {
        let (n, k) = (counts[i / 4], i % 4);
        chunk(c, &|| format!("{n} elements, form {k}"), |ch| match k {
            0 => drop(ch.indirect(Ref::new(1)).array().items(0..n as i32)),
            1 => {
                let mut a = ch.indirect(Ref::new(1)).array();
                for j in 0..n {
                    a.push().dict().pair(Name(b"A"), j as i32);
                }
            }
            2 => {
                let mut d = ch.indirect(Ref::new(1)).dict();
                for j in 0..n {
                    d.insert(Name(format!("k{j}").as_bytes())).array().item(j as i32);
                }
            }
            _ => (0..n).for_each(|j| drop(ch.indirect(Ref::new(j as i32 + 1)).dict().pair(Name(b"A"), j as i32))),
        });
        content(c, &|| format!("{n} operands, form {k}"), |ct| match k {
            0 => drop(ct.op("xx").operands(0..n as i32)),
            1 => drop(ct.set_dash_pattern((0..n).map(|j| j as f32), 0.5)),
            2 => {
                let mut p = ct.show_positioned();
                let mut it = p.items();
                for j in 0..n {
                    it.show(Str(b"a")).adjust(j as f32);
                }
            }
            _ => (0..n).for_each(|j| drop(ct.line_to(j as f32, 1.0))),
        });
        doc(c, &|| format!("{n} objects, form {k}"), (k % 2 == 1).then_some(n as i32 + 1), |p| {
            for j in 0..n.min(c.bound(3000, 70_000)) {
                p.indirect(Ref::new(if k < 2 { j as i32 + 1 } else { n as i32 - j as i32 })).array().item(1);
            }
        });
        c.steps(6 * n as u64 + 6);
    });
    c.note("sizes", format!("nesting to depth {}, {} elements, operands and objects", depths.last().unwrap(), counts.last().unwrap()));
}

fn explore() {
    let c = Ctx::new("C11");
    values(c);
    documents(c);
    writers(c);
    contents(c);
    sized(c);
    c.finish()
}
