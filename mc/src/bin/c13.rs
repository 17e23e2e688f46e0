//! C13: concatenating chunks equals writing everything in one place.
use mc::doc::{show, verify, write_all, Step};
use mc::gen::{settings, M};
use mc::kinds::KINDS;
use mc::model::matches;
use mc::*;
use pdf_writer::*;

fn main() {
    guard(explore)
}

/// One operation on a store of chunks and a document (the last index).
#[derive(Clone, Copy, Debug)]
enum Op {
    Write(usize),
    /// Append the second to the first.
    Extend(usize, usize),
    /// Append a copy of the chunk to itself.
    Twice(usize),
    /// Replace the first with a clone of the second.
    Clone(usize, usize),
    /// Replace with a new empty chunk.
    Fresh(usize),
    /// Merge the limits of a content stream.
    Limits(usize),
}

fn ops(chunks: usize) -> Vec<Op> {
    let mut v: Vec<Op> = (0..=chunks).map(Op::Write).collect();
    for a in 0..=chunks {
        for b in 0..chunks {
            if a != b {
                v.push(Op::Extend(a, b));
            }
        }
    }
    for a in 0..chunks {
        for b in 0..chunks {
            if a != b {
                v.push(Op::Clone(a, b));
            }
        }
    }
    v.push(Op::Twice(0));
    v.push(Op::Fresh(0));
    v.push(Op::Limits(0));
    if chunks == 1 {
        v.push(Op::Limits(1));
    }
    v
}

fn limits_of(steps: &[Step]) -> M {
    let mut m = M::default();
    for (n, k) in steps {
        m.int(*n as i64);
        tab::lim_x(&KINDS[*k].want(), &mut m);
    }
    m
}

/// A content stream and its limits, of growing size.
fn foreign(n: usize) -> (Buf, M) {
    let mut ct = Content::new();
    let mut m = M::default();
    let k = 100 + n;
    match n % 4 {
        0 => {
            ct.show(Str(&vec![b'x'; k]));
            m.str(k);
        }
        1 => {
            ct.set_parameters(Name(&vec![b'n'; k]));
            m.name(k);
        }
        2 => {
            ct.set_line_width(k as f32 * 1e9 + 0.5);
            m.num(k as f32 * 1e9 + 0.5);
        }
        _ => {
            ct.set_dash_pattern(vec![1.5; k], 0.25);
            m.num(1.5);
            m.arr(k);
        }
    }
    (ct.finish(), m)
}

fn check_chunk(ch: &Chunk, steps: &[Step], skip: usize) -> Result<(), String> {
    check_with(ch, steps, skip, &M::default())
}

fn check_with(ch: &Chunk, steps: &[Step], skip: usize, extra: &M) -> Result<(), String> {
    if ch.len() != ch.as_bytes().len() {
        return Err("len() differs from the number of bytes".into());
    }
    let refs: Vec<i32> = ch.refs().map(|r| r.get()).collect();
    let want: Vec<i32> = steps.iter().map(|s| s.0).collect();
    if refs != want || ch.refs().len() != want.len() {
        return Err(format!("refs() gives {refs:?}, expected {want:?}"));
    }
    let (l, mut m) = (M::of(ch.limits()), limits_of(steps));
    m.merge(extra);
    if l != m {
        return Err(format!("limits {l:?}, expected {m:?}"));
    }
    let objs = pdf::parse_chunk(&ch.as_bytes()[skip..])?;
    let ok = objs.len() == steps.len()
        && objs.iter().zip(steps).all(|(o, (n, k))| {
            o.num == *n as i64
                && o.gen == 0
                && o.stream.as_deref() == KINDS[*k].data
                && matches(&KINDS[*k].want(), &o.val)
        });
    if !ok {
        return Err(format!("objects read back as {objs:?}"));
    }
    Ok(())
}

/// The kinds used for the n-th object of a run.
fn kind(run: usize, n: usize) -> usize {
    (run * 5 + n * (1 + run % 3)) % KINDS.len()
}

fn history(c: &Ctx, alpha: &[Op], chunks: usize, s: &[usize], run: usize) {
    let what = || {
        let v: Vec<_> = s.iter().map(|i| format!("{:?}", alpha[*i])).collect();
        format!("{} with run {run}", v.join("; "))
    };
    let pretty = |i: usize| run >> i & 1 == 0;
    let mut model: Vec<Vec<Step>> = vec![vec![]; chunks + 1];
    let mut extra = vec![M::default(); chunks + 1];
    let mut other = false;
    let r = catch(|| {
        let mut st: Vec<Chunk> = (0..chunks).map(|i| Chunk::with_settings(settings(pretty(i)))).collect();
        let mut doc = Pdf::with_settings(settings(pretty(chunks)));
        let mut n = 0;
        let mut lim = 0;
        let mut own: Vec<bool> = (0..=chunks).map(pretty).collect();
        for i in s {
            match alpha[*i] {
                Op::Write(a) => {
                    n += 1;
                    let step = (n, kind(run, n as usize));
                    model[a].push(step);
                    let ch = if a == chunks { &mut *doc } else { &mut st[a] };
                    let before = ch.len();
                    write_all(ch, &[step]);
                    // The object looks as it does in a chunk of its own.
                    let mut alone = Chunk::with_settings(settings(own[a]));
                    write_all(&mut alone, &[step]);
                    if ch.as_bytes()[before..].trim_ascii() != alone.as_bytes().trim_ascii() {
                        other = true;
                    }
                }
                Op::Extend(a, b) => {
                    let add = model[b].clone();
                    model[a].extend(add);
                    let e = extra[b];
                    extra[a].merge(&e);
                    if a == chunks {
                        doc.extend(&st[b]);
                    } else {
                        let (x, y) = if a < b {
                            let (l, r) = st.split_at_mut(b);
                            (&mut l[a], &r[0])
                        } else {
                            let (l, r) = st.split_at_mut(a);
                            (&mut r[0], &l[b])
                        };
                        x.extend(y);
                    }
                }
                Op::Twice(a) => {
                    let add = model[a].clone();
                    model[a].extend(add);
                    let copy = st[a].clone();
                    st[a].extend(&copy);
                }
                Op::Clone(a, b) => {
                    model[a] = model[b].clone();
                    extra[a] = extra[b];
                    own[a] = own[b];
                    st[a] = st[b].clone();
                }
                Op::Fresh(a) => {
                    model[a].clear();
                    extra[a] = M::default();
                    own[a] = pretty(a);
                    st[a] = Chunk::with_settings(settings(pretty(a)));
                }
                Op::Limits(a) => {
                    lim += 1;
                    let (buf, m) = foreign(run + lim);
                    if M::of(buf.limits()) != m {
                        panic!("limits of a content stream: {:?}, expected {m:?}", buf.limits());
                    }
                    extra[a].merge(&m);
                    if a == chunks { doc.merge_limits(buf.limits()) } else { st[a].merge_limits(buf.limits()) }
                }
            }
        }
        (st, doc)
    });
    let (st, doc) = match r {
        Ok(r) => r,
        Err(p) => return c.fail(&what(), || format!("{}\npanicked: {p}", what())),
    };
    c.check(!other, &what(), || format!("{}\nan object is written differently than in a chunk of its own", what()));
    let header = Pdf::new().as_bytes().len();
    for (i, m) in model.iter().enumerate() {
        let (ch, skip) = if i == chunks { (&*doc, header) } else { (&st[i], 0) };
        if let Err(e) = check_with(ch, m, skip, &extra[i]) {
            c.fail(&what(), || format!("{}\nchunk {i}: {e}\nbytes: {}", what(), show_out(ch.as_bytes())));
        }
    }
    // Finishing: the file must hold exactly what was gathered.
    let m = &model[chunks];
    let dup = m.iter().enumerate().any(|(i, a)| m[..i].iter().any(|b| a.0 == b.0));
    let xref = (run / 2 % 2 == 1).then_some(100);
    let out = catch(|| match xref {
        Some(x) => doc.finish_with_xref_stream(Ref::new(x)),
        None => doc.finish(),
    });
    match out {
        Err(p) => c.check(dup, &what(), || format!("{}\nfinish panicked: {p}", what())),
        Ok(out) => {
            c.check(!dup, &what(), || format!("{}\nduplicate objects accepted", what()));
            if let Err(e) = verify(&out, m, xref, None) {
                c.fail(&what(), || format!("{}\n{e}\nfile: {}", what(), show_out(&out)));
            }
            if m.len() > 1 {
                c.sample(|| format!("{}: {}", what(), show(m)));
            }
        }
    }
    c.states_by_construction(1);
    c.steps(s.len() as u64 + 1);
    c.traces_n(1);
}

/// An ordered tree over consecutive objects.
#[derive(Clone)]
enum Tree {
    Leaf,
    Node(Vec<Tree>),
}

/// All trees with 1 to `max` leaves whose inner nodes have at least two
/// children, by number of leaves.
fn trees(max: usize) -> Vec<Vec<Tree>> {
    // forests[n]: all sequences of trees with n leaves in total.
    let mut trees: Vec<Vec<Tree>> = vec![vec![]];
    let mut forests: Vec<Vec<Vec<Tree>>> = vec![vec![vec![]]];
    for n in 1..=max {
        let mut two = vec![];
        for first in 1..n {
            for t in &trees[first] {
                for rest in &forests[n - first] {
                    let mut v = vec![t.clone()];
                    v.extend(rest.iter().cloned());
                    two.push(v);
                }
            }
        }
        let mut ts: Vec<Tree> = if n == 1 { vec![Tree::Leaf] } else { vec![] };
        ts.extend(two.iter().cloned().map(Tree::Node));
        let mut fs: Vec<Vec<Tree>> = ts.iter().map(|t| vec![t.clone()]).collect();
        fs.extend(two);
        trees.push(ts);
        forests.push(fs);
    }
    trees
}

/// Build a tree: leaves are written into the chunk of their node, either
/// directly or through a chunk of their own.
fn build(t: &Tree, steps: &[Step], next: &mut usize, run: usize, depth: usize) -> Chunk {
    let mut ch = Chunk::with_settings(settings((run + depth) % 2 == 0));
    let leaf = |ch: &mut Chunk, next: &mut usize| {
        write_all(ch, &steps[*next..*next + 1]);
        *next += 1;
    };
    match t {
        Tree::Leaf => leaf(&mut ch, next),
        Tree::Node(v) => {
            for t in v {
                match t {
                    Tree::Leaf if run / 2 % 2 == 0 => leaf(&mut ch, next),
                    t => ch.extend(&build(t, steps, next, run / 2, depth + 1)),
                }
            }
        }
    }
    ch
}

fn nesting(c: &Ctx) {
    c.phase("concatenation trees");
    let max = c.bound(7, 9);
    let all = trees(max);
    for n in 1..=max {
        let ts = &all[n];
        c.note(&format!("concatenation trees over {n} objects"), ts.len());
        par(ts.len() * 16, |i| {
            let (t, run) = (&ts[i / 16], i % 16);
            let steps: Vec<Step> = (0..n).map(|j| (((j * 3 + run) % 13 + 1) as i32, kind(i, j))).collect();
            let what = || format!("tree {} over {} run {run}", i / 16, show(&steps));
            let r = catch(|| {
                let ch = build(t, &steps, &mut 0, run, 0);
                let mut p = Pdf::with_settings(settings(run % 2 == 0));
                p.extend(&ch);
                (ch, p.finish())
            });
            match r {
                Err(p) => c.fail(&what(), || format!("{}: panicked {p}", what())),
                Ok((ch, out)) => {
                    let e = check_chunk(&ch, &steps, 0).and_then(|_| verify(&out, &steps, None, None).map(|_| ()));
                    if let Err(e) = e {
                        c.fail(&what(), || format!("{}: {e}\n{}", what(), show_out(&out)));
                    }
                }
            }
            c.states_by_construction(1);
            c.steps(2 * n as u64);
            c.traces_n(1);
        });
    }
}

/// Long chains and wide concatenations, large chunks.
fn long(c: &Ctx) {
    c.phase("many chunks");
    let max = c.bound(350, 1100);
    par(max * 4, |i| {
        let (n, shape) = (i / 4, i % 4);
        let steps: Vec<Step> = (0..n).map(|j| ((n - j) as i32, kind(n, j))).collect();
        let mk = |s: &[Step], p| {
            let mut ch = Chunk::with_settings(settings(p));
            write_all(&mut ch, s);
            ch
        };
        let ch = match shape {
            // Wide: one object per chunk.
            0 => steps.iter().enumerate().fold(Chunk::new(), |mut a, (j, s)| {
                a.extend(&mk(&[*s], j % 2 == 0));
                a
            }),
            // Deep to the right: each chunk is put in front of the others.
            1 => steps.iter().enumerate().rev().fold(Chunk::new(), |a, (j, s)| {
                let mut b = mk(&[*s], j % 3 == 0);
                b.extend(&a);
                b
            }),
            // Halves.
            2 => {
                let mut parts: Vec<Chunk> = steps.iter().map(|s| mk(&[*s], true)).collect();
                while parts.len() > 1 {
                    parts = parts
                        .chunks(2)
                        .map(|p| {
                            let mut a = p[0].clone();
                            p.iter().skip(1).for_each(|b| a.extend(b));
                            a
                        })
                        .collect();
                }
                parts.pop().unwrap_or_else(Chunk::new)
            }
            // Runs of growing length with empty chunks between them.
            _ => {
                let mut a = Chunk::new();
                let (mut p, mut l) = (0, 1);
                while p < n {
                    a.extend(&Chunk::new());
                    a.extend(&mk(&steps[p..n.min(p + l)], l % 2 == 0));
                    p += l;
                    l += 1;
                }
                a
            }
        };
        let what = || format!("{n} objects, shape {shape}");
        let mut p = Pdf::new();
        p.extend(&ch);
        let out = p.finish();
        if let Err(e) = check_chunk(&ch, &steps, 0).and_then(|_| verify(&out, &steps, None, None).map(|_| ())) {
            c.fail(&what(), || format!("{}: {e}\n{}", what(), show_out(&out)));
        }
        c.states_by_construction(1);
        c.steps(2 * n as u64);
        c.traces_n(1);
    });
    c.note("many chunks", format!("0-{} objects in four shapes", max - 1));
    // A chunk whose size is at a boundary, with another one after it.
    c.phase("sizes");
    let ns = sizes(c.bound(70_000, 1_100_000));
    par(ns.len() * 2, |i| {
        let n = ns[ns.len() - 1 - i / 2];
        let data = vec![b'x'; n];
        let small = [(n as i32 + 2, 0), (n as i32 + 3, 1)];
        let r = catch(|| {
            let mut a = Chunk::with_settings(settings(i % 2 == 0));
            a.stream(Ref::new(1), &data);
            if i % 4 < 2 && n < 20_000 {
                for j in 0..n as i32 {
                    a.indirect(Ref::new(j + 2)).primitive(j);
                }
            }
            let count = a.refs().len();
            let mut b = Chunk::new();
            write_all(&mut b, &small);
            // The limits of a large chunk and of one behind it.
            let mut x = Chunk::new();
            x.indirect(Ref::new(2)).array().item(Name(&[b'n'; 90])).item(Str(&[b's'; 91])).item(1.5e9).item(-2_000_000_000);
            let mut d = x.indirect(Ref::new(1)).dict();
            d.pairs((0..40).map(|_| (Name(b"K"), Null)));
            drop(d);
            x.indirect(Ref::new(1)).array().items([true; 50]);
            let mut big = a.clone();
            big.extend(&x);
            let mut want = M::of(a.limits());
            want.merge(&M::of(x.limits()));
            let front = M::of(big.limits());
            x.stream(Ref::new(4), &data);
            let mut y = b.clone();
            y.extend(&x);
            let mut back = M::of(b.limits());
            back.merge(&M::of(x.limits()));
            assert!(front == want && M::of(y.limits()) == back, "the limits differ");
            let mut p = Pdf::new();
            p.extend(&a);
            a.extend(&b);
            p.extend(&b);
            (count, a, p.finish())
        });
        let what = format!("sizes {n} {}", i % 4);
        match r {
            Err(e) => c.fail(&what, || format!("{what}: panicked: {e}")),
            Ok((count, a, out)) => {
                let e = pdf::parse_doc(&out, None).and_then(|d| {
                    pdf::check_xref(&d)?;
                    let objs = pdf::parse_chunk(a.as_bytes())?;
                    let same = |a: &[pdf::IObj], b: &[pdf::IObj]| {
                        a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.num == b.num && a.val == b.val && a.stream == b.stream)
                    };
                    if !same(&objs, &d.objs) || objs.len() != count + 2 || objs[0].stream.as_deref() != Some(&data) {
                        return Err("objects differ".into());
                    }
                    Ok(())
                });
                if let Err(e) = e {
                    c.fail(&what, || format!("{what}: {e}"));
                }
            }
        }
        c.states_by_construction(1);
        c.steps(6);
        c.traces_n(1);
    });
    c.note("chunk sizes", format!("{ns:?}"));
    // Many objects in one chunk, behind and before others.
    c.phase("many objects in a chunk");
    let ms: Vec<usize> = sizes(c.bound(70_000, 300_000)).into_iter().rev().collect();
    par(ms.len() * 2, |i| {
        let (n, down) = (ms[i / 2], i % 2 == 0);
        let steps: Vec<Step> = (0..n).map(|j| (if down { n - j + 2 } else { j + 3 } as i32, kind(n, j))).collect();
        let all = [&[(1, 0)], &steps[..], &[(2, 1)]].concat();
        let what = || format!("{n} objects in a chunk between two others, descending {down}");
        let r = catch(|| {
            let mk = |s: &[Step], p| {
                let mut ch = Chunk::with_settings(settings(p));
                write_all(&mut ch, s);
                ch
            };
            let mut a = mk(&all[..1], true);
            a.extend(&mk(&steps, i % 4 < 2));
            a.extend(&mk(&all[n + 1..], false));
            check_chunk(&a, &all, 0)?;
            let mut p = Pdf::new();
            p.extend(&a);
            verify(&p.finish(), &all, None, None).map(|_| ())
        });
        if let Err(e) | Ok(Err(e)) = r {
            c.fail(&what(), || format!("{}: {e}", what()));
        }
        c.states_by_construction(1);
        c.steps(n as u64 + 4);
        c.traces_n(1);
    });
    c.note("objects in a chunk", format!("{} counts up to {}", ms.len(), ms[0]));
    // High object numbers.
    c.phase("high object numbers");
    let mut ids: Vec<i32> = sizes(c.bound(1_100_000, 17_000_000)).into_iter().rev().filter(|n| *n > 9).map(|n| n as i32).collect();
    if cfg!(debug_assertions) && !c.thorough {
        ids.insert(0, (1 << 24) + 1);
    }
    par(ids.len(), |i| {
        let all = [(5, 0), (ids[i], i % KINDS.len()), (2, 1)];
        let r = catch(|| {
            let mut a = Chunk::new();
            let mut b = Chunk::new();
            write_all(&mut a, &all[..1]);
            write_all(&mut b, &all[1..]);
            a.extend(&b);
            check_chunk(&a, &all, 0)?;
            let mut p = Pdf::new();
            p.extend(&a);
            verify(&p.finish(), &all, None, None).map(|_| ())
        });
        if let Err(e) | Ok(Err(e)) = r {
            c.fail(&show(&all), || format!("{}: {e}", show(&all)));
        }
        c.states_by_construction(1);
        c.steps(5);
        c.traces_n(1);
    });
    c.note("high object numbers", format!("{} up to {}", ids.len(), ids[0]));
}

fn explore() {
    let c = Ctx::new("C13");
    for (chunks, lo, hi) in [(1, 0, c.bound(7, 9)), (2, 0, c.bound(5, 7)), (3, 1, c.bound(4, 5))] {
        let alpha = ops(chunks);
        let k = alpha.len();
        for len in lo..=hi {
            c.phase(&format!("histories of {len} operations over {chunks} chunks and a document"));
            par(k.pow(len as u32), |i| {
                let s = seq(i, k, len);
                if len <= 3 {
                    for run in 0..KINDS.len() {
                        history(c, &alpha, chunks, &s, run);
                    }
                } else {
                    history(c, &alpha, chunks, &s, i % 97);
                }
            });
        }
        c.note(&format!("histories over {chunks} chunks and a document"), format!("all of up to {hi} of {k} operations"));
    }
    nesting(c);
    long(c);
    c.finish()
}
