//! C29: output is append-only and depends only on the calls made.
#![allow(dropping_references)]
use mc::gen::{layout, settings, M};
use mc::kinds::KINDS;
use mc::tab::{with_obj, Place, Table};
use mc::*;
use pdf_writer::types::*;
use pdf_writer::*;

fn main() {
    guard(explore)
}

/// What happens to a buffer between calls, without any influence.
const MEDDLE: [&str; 12] = [
    "nothing",
    "inspect",
    "reserve 0",
    "reserve 1",
    "reserve 5000",
    "clone and drop",
    "continue on a clone",
    "continue while a clone is written to",
    "move",
    "swap out and in",
    "write another document",
    "empty chunk added",
];

fn meddle(ch: &mut Chunk, how: usize, pretty: bool) {
    match how {
        0 => {}
        1 => {
            let _ = (ch.len(), ch.as_bytes().len(), ch.limits().clone(), ch.refs().len(), ch.refs().collect::<Vec<_>>());
            let _ = format!("{ch:?}");
        }
        2 => ch.reserve(0),
        3 => ch.reserve(1),
        4 => ch.reserve(5000),
        5 => drop(ch.clone()),
        6 => *ch = ch.clone(),
        7 => {
            let mut d = ch.clone();
            d.indirect(Ref::new(77)).array().item(i32::MIN).item(Name(b"Other"));
            d.stream(Ref::new(78), b"other").pair(Name(b"A"), 1e30);
        }
        8 => {
            let old = std::mem::replace(ch, Chunk::with_capacity(0));
            let boxed = Box::new(old);
            *ch = *boxed;
        }
        9 => {
            let mut other = Chunk::with_settings(settings(!pretty));
            std::mem::swap(ch, &mut other);
            ch.indirect(Ref::new(79)).dict().pair(Name(b"Other"), i32::MAX);
            std::mem::swap(ch, &mut other);
        }
        10 => {
            let mut p = Pdf::with_settings(settings(!pretty));
            p.catalog(Ref::new(1)).pages(Ref::new(2));
            p.set_file_id((b"x".to_vec(), b"y".to_vec()));
            let mut ct = Content::new();
            ct.save_state().set_font(Name(b"F"), 1e10);
            p.stream(Ref::new(4), &ct.finish());
            p.finish_with_xref_stream(Ref::new(5));
        }
        _ => ch.extend(&Chunk::with_settings(settings(!pretty))),
    }
}

/// One step of a chunk history.
struct Step {
    name: String,
    run: Box<dyn Fn(&mut Chunk, Ref, bool) + Send + Sync>,
}

fn other(pretty: bool) -> Chunk {
    let mut c = Chunk::with_settings(settings(!pretty));
    c.indirect(Ref::new(41)).array().item(Ref::new(42)).item(2.5);
    c.stream(Ref::new(42), b"41 0 R").pair(Name(b"P"), Ref::new(41));
    c
}

fn steps() -> Vec<Step> {
    let mut v: Vec<Step> = vec![];
    let mut add = |name: &str, run: Box<dyn Fn(&mut Chunk, Ref, bool) + Send + Sync>| v.push(Step { name: name.into(), run });
    add("extend", Box::new(|c, _, p| c.extend(&other(p))));
    add("renumber_into", Box::new(|c, r, p| other(p).renumber_into(c, |o| Ref::new(o.get() + r.get()))));
    add("extend with renumbered", Box::new(|c, r, p| c.extend(&other(p).renumber(|o| if o.get() == 41 { r } else { o }))));
    add("renumber self", Box::new(|c, _, _| {
        let n = c.renumber(|o| o.next());
        c.extend(&n)
    }));
    add("merge_limits", Box::new(|c, _, p| c.merge_limits(other(p).limits())));
    add("rejected n", Box::new(|c, r, _| {
        let _ = catch(|| drop(c.icc_profile(r, b"data").n(2)));
    }));
    add("rejected tint", Box::new(|c, r, _| {
        let _ = catch(|| drop(c.color_space(r).separation(Name(b"S")).tint_ref(Ref::new(8))));
    }));
    add("page", Box::new(|c, r, _| {
        let mut p = c.page(r);
        p.media_box(Rect::new(0.0, 0.0, 9.5, 9.0)).parent(Ref::new(1));
        p.resources().fonts().pair(Name(b""), Ref::new(3));
    }));
    add("names", Box::new(|c, r, _| {
        let mut t = c.name_tree::<Ref>(r);
        t.names().insert(Str(b"a"), Ref::new(2)).insert(Str(b""), Ref::new(1));
    }));
    add("content", Box::new(|c, r, p| {
        let mut ct = Content::with_settings(settings(p));
        ct.save_state().rect(1.0, 2.0, 3.0, 4.0).restore_state();
        let b = ct.finish();
        c.merge_limits(b.limits());
        c.stream(r, &b);
    }));
    for k in KINDS {
        v.push(Step { name: k.name.into(), run: Box::new(|c, r, _| (k.write)(c, r)) });
    }
    v
}

#[derive(PartialEq, Clone)]
struct Snap {
    bytes: Vec<u8>,
    lim: M,
    refs: Vec<Ref>,
}

fn snap(c: &Chunk) -> Snap {
    Snap { bytes: c.as_bytes().to_vec(), lim: M::of(c.limits()), refs: c.refs().collect() }
}

impl Snap {
    fn diff(&self, o: &Snap) -> Option<String> {
        if self.bytes != o.bytes {
            Some(format!("bytes differ:\n{}\n{}", show_out(&self.bytes), show_out(&o.bytes)))
        } else if self.lim != o.lim {
            Some(format!("limits differ: {:?} {:?}", self.lim, o.lim))
        } else if self.refs != o.refs {
            Some(format!("objects differ: {:?} {:?}", self.refs, o.refs))
        } else {
            None
        }
    }
}

/// Run the history in a chunk, meddling in the gaps. Checks that the chunk only
/// grows. Returns all intermediate states.
fn run(c: &Ctx, what: &dyn Fn() -> String, mut ch: Chunk, st: &[Step], s: &[usize], gaps: &[usize], pretty: bool) -> Option<Vec<Snap>> {
    let mut snaps = vec![];
    let mut prev = snap(&ch);
    if !prev.bytes.is_empty() || ch.len() != 0 {
        c.fail(&what(), || format!("{}: a new chunk is not empty", what()));
        return None;
    }
    let grown = |prev: &Snap, ch: &Chunk, by: &str| {
        let now = snap(ch);
        let ok = now.bytes.starts_with(&prev.bytes) && now.refs.starts_with(&prev.refs) && ch.len() == now.bytes.len();
        c.check(ok, &what(), || {
            format!("{}: {by} changed what was written before:\n{}\n{}", what(), show_out(&prev.bytes), show_out(&now.bytes))
        });
        let max = |a: &M, b: &M| a.int <= b.int && a.real <= b.real && a.name <= b.name && a.str <= b.str && a.arr <= b.arr && a.dict <= b.dict;
        c.check(max(&prev.lim, &now.lim), &what(), || format!("{}: {by} lowered the limits", what()));
        now
    };
    for n in 0..=s.len() {
        let g = gaps.get(n).copied().unwrap_or(0);
        if let Err(p) = catch(|| meddle(&mut ch, g, pretty)) {
            c.fail(&what(), || format!("{}: {} panicked {p}", what(), MEDDLE[g]));
            return None;
        }
        let now = grown(&prev, &ch, MEDDLE[g]);
        if let Some(d) = prev.diff(&now) {
            c.fail(&what(), || format!("{}: {} had an effect: {d}", what(), MEDDLE[g]));
            return None;
        }
        if n < s.len() {
            let step = &st[s[n]];
            if let Err(p) = catch(|| (step.run)(&mut ch, Ref::new(1 + 100 * n as i32), pretty)) {
                c.fail(&what(), || format!("{}: {} panicked {p}", what(), step.name));
                return None;
            }
            prev = grown(&now, &ch, &step.name);
            snaps.push(prev.clone());
        }
    }
    Some(snaps)
}

fn compare(c: &Ctx, what: &dyn Fn() -> String, a: &[Snap], b: &[Snap]) {
    for (n, (a, b)) in a.iter().zip(b).enumerate() {
        if let Some(d) = a.diff(b) {
            c.fail(&what(), || format!("{}: after step {n} {d}", what()));
        }
    }
    c.check(a.len() == b.len(), &what(), || "harness".into());
}

fn chunks(c: &Ctx) {
    c.phase("chunk histories");
    let st = steps();
    let n = st.len();
    let k = MEDDLE.len();
    let show = |s: &[usize]| s.iter().map(|i| st[*i].name.as_str()).collect::<Vec<_>>().join("; ");
    let max = c.bound(2, 3);
    for len in 0..=max {
        par(n.pow(len as u32), |i| {
            let s = seq(i, n, len);
            for pretty in [false, true] {
                let new = || Chunk::with_settings(settings(pretty));
                let what = || format!("{} [{}]", layout(pretty), show(&s));
                let Some(base) = run(c, &what, new(), &st, &s, &[], pretty) else { return };
                // Every meddling in every single gap, and everywhere.
                for g in 1..k {
                    for at in 0..=len + 1 {
                        let gaps: Vec<usize> = (0..=len).map(|j| if j == at || at == len + 1 { g } else { 0 }).collect();
                        let what = || format!("{} [{}] with {} at {at}", layout(pretty), show(&s), MEDDLE[g]);
                        if let Some(o) = run(c, &what, new(), &st, &s, &gaps, pretty) {
                            compare(c, &what, &base, &o);
                        }
                    }
                }
                // Initial capacities around every size reached.
                let mut caps = vec![0, 1, 2, 7, 8, 64, 1204, 1 << 16];
                for b in &base {
                    let z = b.bytes.len();
                    caps.extend(z.saturating_sub(2)..=z + 2);
                }
                caps.sort();
                caps.dedup();
                for cap in caps {
                    let what = || format!("{} [{}] with capacity {cap}", layout(pretty), show(&s));
                    let ch = Chunk::with_settings_and_capacity(settings(pretty), cap);
                    if let Some(o) = run(c, &what, ch, &st, &s, &[], pretty) {
                        compare(c, &what, &base, &o);
                    }
                    c.traces_n(1);
                }
                if pretty {
                    for ch in [Chunk::new(), Chunk::with_capacity(3), Chunk::with_settings(Settings::default())] {
                        if let Some(o) = run(c, &what, ch, &st, &s, &[], pretty) {
                            compare(c, &|| format!("default settings: {}", what()), &base, &o);
                        }
                    }
                }
                c.sample(|| format!("{} -> {}", what(), base.last().map_or(String::new(), |b| show_out(&b.bytes))));
                c.states_by_construction(1);
                c.steps(((k * (len + 2)) * (2 * len + 1)) as u64);
                c.traces_n((k * (len + 2)) as u64);
            }
        });
    }
    c.note("chunk histories", format!("all sequences of up to {max} of {n} steps, each of {k} meddlings at each point and everywhere, all capacities around each size"));
    // All combinations of meddlings.
    c.phase("meddling combinations");
    let few: Vec<usize> = (0..n).filter(|i| ["extend", "renumber_into", "name", "stream", "names", "dict"].contains(&st[*i].name.as_str())).collect();
    let m = few.len();
    let g = c.bound(2usize, 3);
    par(m.pow(g as u32 - 1) * k.pow(g as u32), |i| {
        let s: Vec<usize> = seq(i % m.pow(g as u32 - 1), m, g - 1).iter().map(|j| few[*j]).collect();
        let gaps = seq(i / m.pow(g as u32 - 1), k, g);
        for pretty in [false, true] {
            let what = || format!("{} [{}] with {gaps:?}", layout(pretty), show(&s));
            let new = || Chunk::with_settings(settings(pretty));
            if let (Some(a), Some(b)) = (run(c, &what, new(), &st, &s, &[], pretty), run(c, &what, new(), &st, &s, &gaps, pretty)) {
                compare(c, &what, &a, &b);
            }
        }
        c.states_by_construction(2);
        c.steps(8 * g as u64);
        c.traces_n(2);
    });
    // Two chunks written alternately: all interleavings.
    c.phase("interleaved chunks");
    let len = c.bound(2, 3);
    let few: Vec<usize> = (0..n).filter(|i| i % c.bound(4, 5) == 0).collect();
    let m = few.len();
    par(m.pow(2 * len as u32), |i| {
        let all: Vec<usize> = seq(i, m, 2 * len).iter().map(|j| few[*j]).collect();
        let (a, b) = all.split_at(len);
        let alone = |s: &[usize], pretty: bool| {
            let mut ch = Chunk::with_settings(settings(pretty));
            for (n, x) in s.iter().enumerate() {
                (st[*x].run)(&mut ch, Ref::new(1 + 100 * n as i32), pretty);
            }
            snap(&ch)
        };
        let (wa, wb) = (alone(a, true), alone(b, false));
        for mask in (0u32..1 << (2 * len)).filter(|m| m.count_ones() as usize == len) {
            let (mut x, mut y) = (Chunk::with_settings(settings(true)), Chunk::with_settings(settings(false)));
            let (mut i, mut j) = (0, 0);
            for t in 0..2 * len {
                if mask >> t & 1 == 1 {
                    (st[a[i]].run)(&mut x, Ref::new(1 + 100 * i as i32), true);
                    i += 1;
                } else {
                    (st[b[j]].run)(&mut y, Ref::new(1 + 100 * j as i32), false);
                    j += 1;
                }
            }
            let what = || format!("interleaving {mask:b} of [{}] and [{}]", show(a), show(b));
            for (w, g) in [(&wa, snap(&x)), (&wb, snap(&y))] {
                if let Some(d) = w.diff(&g) {
                    c.fail(&what(), || format!("{}: {d}", what()));
                }
            }
            c.states_by_construction(1);
            c.steps(2 * len as u64);
            c.traces_n(1);
        }
    });
    c.note("interleavings", format!("all interleavings of two histories of {len} out of {m} steps"));
}

/// Content streams: growth, capacities, reservations, moves.
fn contents(c: &Ctx) {
    c.phase("content streams");
    let ops = ops::ops();
    let plain: Vec<usize> = (0..ops.len()).filter(|i| ops[*i].plain).collect();
    let go = |s: &[usize], pretty: bool, cap: Option<usize>, how: usize, what: &dyn Fn() -> String| -> Vec<(Vec<u8>, usize)> {
        let mut ct = match cap {
            Some(n) => Content::with_settings_and_capacity(settings(pretty), n),
            None => Content::with_settings(settings(pretty)),
        };
        let mut snaps: Vec<(Vec<u8>, usize)> = vec![];
        c.check(ct.len() == 0, &what(), || format!("{}: a new stream is not empty", what()));
        for i in s {
            match how {
                0 => {}
                1 => ct.reserve(0),
                2 => ct.reserve(3),
                3 => ct.reserve(4000),
                4 => ct = *Box::new(ct),
                5 => {
                    let mut other = Content::with_settings(settings(!pretty));
                    std::mem::swap(&mut ct, &mut other);
                    ct.save_state().set_leading(3.5);
                    std::mem::swap(&mut ct, &mut other);
                }
                6 => {
                    let mut other = Content::new();
                    other.begin_text().set_parameters(Name(b"Other"));
                    other.finish();
                }
                _ => {
                    let _ = (ct.len(), ct.as_bytes().to_vec(), ct.state_nesting_depth());
                }
            }
            (ops[*i].run)(&mut ct);
            let now = (ct.as_bytes().to_vec(), ct.state_nesting_depth());
            if let Some((p, _)) = snaps.last() {
                c.check(now.0.starts_with(p), &what(), || {
                    format!("{}: {} changed earlier bytes:\n{}\n{}", what(), ops[*i].label, show_out(p), show_out(&now.0))
                });
            }
            c.check(ct.len() == now.0.len(), &what(), || format!("{}: wrong length", what()));
            snaps.push(now);
        }
        let before = ct.as_bytes().to_vec();
        let b = ct.finish();
        let ok = before.starts_with(&b) && before.len() - b.len() <= 1 && before[b.len()..].iter().all(|b| pdf::is_ws(*b));
        c.check(ok, &what(), || format!("{}: finishing turned {} into {}", what(), show_out(&before), show_out(&b)));
        c.check(b.as_slice() == &b[..] && b.clone().into_vec() == b.to_vec(), &what(), || "buffer views differ".into());
        snaps.push((b.into_vec(), 0));
        snaps
    };
    let one = |s: &[usize], pretty: bool| {
        let show = || format!("{} [{}]", layout(pretty), s.iter().map(|i| ops[*i].label.as_str()).collect::<Vec<_>>().join("; "));
        let base = go(s, pretty, None, 0, &show);
        let same = |o: Vec<(Vec<u8>, usize)>, how: &dyn Fn() -> String| {
            c.check(o == base, &how(), || {
                let z = |v: &[(Vec<u8>, usize)]| show_out(&v.last().unwrap().0);
                format!("{}: result differs:\n{}\n{}", how(), z(&o), z(&base))
            });
            c.traces_n(1);
            c.steps(s.len() as u64 + 1);
        };
        for how in 1..8 {
            let what = || format!("{} with meddling {how}", show());
            same(go(s, pretty, None, how, &what), &what);
        }
        let total = base.last().unwrap().0.len();
        let mut caps = vec![0, 1, 2, 3, 8, 1 << 14];
        caps.extend(base.iter().map(|b| b.0.len()));
        caps.extend([total.saturating_sub(1), total + 1]);
        caps.sort();
        caps.dedup();
        for cap in caps {
            let what = || format!("{} with capacity {cap}", show());
            same(go(s, pretty, Some(cap), 0, &what), &what);
        }
        c.states_by_construction(1);
    };
    par(ops.len(), |i| [false, true].iter().for_each(|p| one(&[i], *p)));
    let k = plain.len();
    par(k * k, |i| [false, true].iter().for_each(|p| one(&[plain[i / k], plain[i % k]], *p)));
    if c.thorough {
        par(k * ops.len(), |i| {
            one(&[i / k, plain[i % k]], i % 2 == 0);
            one(&[plain[i % k], i / k], i % 2 == 1);
        });
        par(k * k * k, |i| one(&seq(i, k, 3).iter().map(|j| plain[*j]).collect::<Vec<_>>(), i % 2 == 0));
    }
    c.note("content streams", format!("{} operations: all single, all pairs of methods{}; capacities at every intermediate size", ops.len(), c.bound("", ", pairs with all variants, all triples of methods")));
}

/// Typed writers: each object is appended whole, in any buffer.
fn writers(c: &Ctx) {
    let one = |what: &dyn Fn() -> String, pretty: bool, f: &dyn Fn(&mut Chunk)| {
        let build = |cap: usize, reserve: usize| {
            let mut ch = Chunk::with_settings_and_capacity(settings(pretty), cap);
            ch.indirect(Ref::new(1)).primitive(Name(b"Before"));
            let before = snap(&ch);
            ch.reserve(reserve);
            f(&mut ch);
            (before, ch)
        };
        let base = match catch(|| build(1204, 0)) {
            Ok((before, ch)) => {
                let s = snap(&ch);
                c.check(s.bytes.starts_with(&before.bytes) && s.refs.starts_with(&before.refs), &what(), || {
                    format!("{}: changed what was there before: {}", what(), show_out(&s.bytes))
                });
                // Continuing does not change it either.
                let mut ch = ch;
                ch.indirect(Ref::new(3)).primitive(1);
                c.check(ch.as_bytes().starts_with(&s.bytes), &what(), || {
                    format!("{}: was changed later: {}", what(), show_out(ch.as_bytes()))
                });
                s
            }
            Err(p) => return c.fail(&what(), || format!("{}: panicked {p}", what())),
        };
        let z = base.bytes.len();
        let b = c.bound(3, 5);
        for (cap, res) in [(0, 0), (z / 2, 0), (z, 0), (0, z), (z - 1, 1)][..b].iter() {
            if let Some(d) = base.diff(&snap(&build(*cap, *res).1)) {
                c.fail(&what(), || format!("{} {} with capacity {cap}, reserving {res}: {d}", what(), layout(pretty)));
            }
        }
        // Again, to see what the code remembers.
        if let Some(d) = base.diff(&snap(&build(1204, 0).1)) {
            c.fail(&what(), || format!("{} {}: writing it again gives something else: {d}", what(), layout(pretty)));
        }
        c.states_by_construction(1);
        c.steps(3 * b as u64 + 7);
        c.traces_n(b as u64 + 2);
    };
    let mut all: Vec<Table> = tables::interactive();
    all.extend(tables::document());
    all.extend(tables::graphics());
    let mut vars = 0;
    for t in &all {
        c.phase(t.name);
        let n = t.vars.len();
        vars += n;
        par(n, |i| {
            for place in t.places() {
                for pretty in [false, true] {
                    one(&|| format!("{} {place:?}", t.show(&[i])), pretty, &|ch| (t.run)(ch, *place, &[i]));
                }
            }
        });
        if t.kind == tab::Kind::Value {
            continue;
        }
        let set: Vec<usize> = if c.thorough { (0..n).collect() } else { t.plain() };
        let k = set.len();
        par(k * k, |i| {
            let s = [set[i / k], set[i % k]];
            if t.compatible(&s) {
                one(&|| t.show(&s), i % 2 == 0, &|ch| (t.run)(ch, Place::Indirect, &s));
            }
        });
    }
    c.note("typed writers", format!("{} writers, {vars} method variants, all pairs of {}", all.len(), c.bound("methods", "variants")));
    let colls = tables::collections::collections();
    for coll in &colls {
        c.phase(&coll.name);
        let n = coll.steps.len();
        for len in 0..=c.bound(2, 4) {
            par(n.pow(len as u32), |i| {
                let s = seq(i, n, len);
                one(&|| format!("{} {s:?}", coll.name), i % 2 == 0, &|ch| with_obj(ch, Place::Indirect, |o| (coll.run)(o, true, true, &s)));
            });
        }
    }
    c.phase("streams");
    let calls = streams::calls();
    let n = calls.len();
    for len in 0..=c.bound(1, 2) {
        par(n.pow(len as u32), |i| {
            let s = seq(i, n, len);
            for ctor in streams::CTORS {
                for data in [&b""[..], b"x", b"\n", &[b'a'; 3000]] {
                    one(&|| format!("{} of {} bytes {s:?}", ctor.name, data.len()), i % 2 == 0, &|ch| {
                        (ctor.run)(ch, Ref::new(2), data, &mut |w| s.iter().for_each(|i| (calls[*i].run)(w)))
                    });
                }
            }
        });
    }
}

/// Documents: only the header fields may change; finishing appends.
fn documents(c: &Ctx) {
    c.phase("documents");
    type Call = (&'static str, fn(&mut Pdf, Ref));
    const CALLS: &[Call] = &[
        ("version 2.0", |p, _| p.set_version(2, 0)),
        ("version 1.4", |p, _| p.set_version(1, 4)),
        ("version 10.200", |p, _| p.set_version(10, 200)),
        ("marker", |p, _| p.set_binary_marker(b"ABCD")),
        ("marker \\n", |p, _| p.set_binary_marker(b"\xff\xfe\xfd\xfc")),
        ("file id", |p, _| p.set_file_id((b"one".to_vec(), b"two\xff".to_vec()))),
        ("catalog", |p, r| drop(p.catalog(r).pages(Ref::new(9)))),
        ("info", |p, r| drop(p.document_info(r).title(TextStr("t")))),
        ("object", |p, r| p.indirect(r).primitive(Name(b"%PDF-1.7\n%\x80"))),
        ("stream", |p, r| drop(p.stream(r, b"%PDF-1.3\n%abcd"))),
        ("extend", |p, r| {
            let mut c = Chunk::new();
            c.indirect(r).primitive(2.5);
            p.extend(&c)
        }),
        ("reserve", |p, _| p.reserve(9000)),
        ("inspect", |p, _| {
            let _ = (p.len(), p.as_bytes().len(), p.limits().clone(), p.refs().count(), format!("{p:?}"));
        }),
        ("clone of the chunk", |p, _| {
            let mut c: Chunk = (**p).clone();
            c.indirect(Ref::new(99)).array();
        }),
        ("move", |p, _| {
            let q = std::mem::replace(p, Pdf::with_capacity(0));
            *p = *Box::new(q);
        }),
    ];
    const QUIET: usize = 11;
    let n = CALLS.len();
    let max = c.bound(4, 5);
    let ends: [fn(Pdf) -> Vec<u8>; 3] = [
        |p| p.finish(),
        |p| p.finish_with_xref_stream(Ref::new(800)),
        |p| p.finish_with_xref_stream_and_filter(Ref::new(800), |b: &[u8]| {
            (b.iter().flat_map(|b| format!("{b:02x}").into_bytes()).collect(), XRefFilter::Single(Filter::AsciiHexDecode))
        }),
    ];
    for len in 0..=max {
        par(n.pow(len as u32), |i| {
            let s = seq(i, n, len);
            let pretty = i % 2 == 0;
            let what = || format!("{} {:?}", layout(pretty), s.iter().map(|i| CALLS[*i].0).collect::<Vec<_>>());
            let go = |s: &[usize], cap: Option<usize>, check: bool| {
                let mut p = match cap {
                    Some(n) => Pdf::with_settings_and_capacity(settings(pretty), n),
                    None => Pdf::with_settings(settings(pretty)),
                };
                // The two header lines and the blank line.
                let head = p.len();
                let mut prev = snap(&p);
                // Numbering ignores the calls without effect.
                let mut id = 0;
                for i in s {
                    (CALLS[*i].1)(&mut p, Ref::new(1 + id));
                    id += (*i < QUIET) as i32;
                    let now = snap(&p);
                    if check {
                        let body = now.bytes.len() >= prev.bytes.len()
                            && now.bytes[head..].starts_with(&prev.bytes[head..])
                            && now.refs.starts_with(&prev.refs)
                            && p.len() == now.bytes.len();
                        c.check(body, &what(), || format!("{}: {} changed earlier bytes:\n{}\n{}", what(), CALLS[*i].0, show_out(&prev.bytes), show_out(&now.bytes)));
                        let header_call = *i < 5;
                        let quiet = *i >= QUIET;
                        c.check(header_call || now.bytes[..head] == prev.bytes[..head], &what(), || format!("{}: {} changed the header", what(), CALLS[*i].0));
                        c.check(!header_call || now.bytes.len() == prev.bytes.len() && now.lim == prev.lim, &what(), || format!("{}: {} wrote something", what(), CALLS[*i].0));
                        if let (true, Some(d)) = (quiet, prev.diff(&now)) {
                            c.fail(&what(), || format!("{}: {} had an effect: {d}", what(), CALLS[*i].0));
                        }
                    }
                    prev = now;
                }
                let e = ends[i / 7 % 3];
                (prev, e(p))
            };
            let r = catch(|| {
                let (before, out) = go(&s, None, true);
                c.check(out.starts_with(&before.bytes), &what(), || {
                    format!("{}: finishing changed earlier bytes:\n{}\n{}", what(), show_out(&before.bytes), show_out(&out))
                });
                // Without the calls that have no effect, and at any capacity.
                let loud: Vec<usize> = s.iter().copied().filter(|i| *i < QUIET).collect();
                for cap in [None, Some(0), Some(before.bytes.len()), Some(out.len())] {
                    let (_, o) = go(&loud, cap, false);
                    c.check(o == out, &what(), || format!("{}: capacity {cap:?} without meddling gives\n{}\ninstead of\n{}", what(), show_out(&o), show_out(&out)));
                }
            });
            if let Err(p) = r {
                c.fail(&what(), || format!("{}: panicked {p}", what()));
            }
            c.states_by_construction(1);
            c.steps(5 * (len as u64 + 2));
            c.traces_n(5);
        });
    }
    c.note("documents", format!("all sequences of up to {max} of {n} document-level calls, three ways of finishing"));
    // Character maps written alternately.
    c.phase("character maps");
    let info = SystemInfo { registry: Str(b"Adobe"), ordering: Str(b"Identity"), supplement: 0 };
    type Add = (&'static str, fn(&mut UnicodeCmap));
    const ADDS: &[Add] = &[
        ("1 a", |m| m.pair(1, 'a')),
        ("2 😀", |m| m.pair(2, '\u{1f600}')),
        ("3 fi", |m| m.pair_with_multiple(3, ['f', 'i'])),
        ("65535 -", |m| m.pair(65535, '-')),
        ("258", |m| m.pair(258, '\u{e9}')),
    ];
    let k = ADDS.len();
    let len = c.bound(2, 3);
    par(k.pow(2 * len as u32), |i| {
        let s = seq(i, k, 2 * len);
        let (a, b) = s.split_at(len);
        let alone = |s: &[usize]| {
            let mut m = UnicodeCmap::<u16>::new(Name(b"A"), info);
            s.iter().for_each(|i| (ADDS[*i].1)(&mut m));
            m.finish().to_vec()
        };
        let (wa, wb) = (alone(a), alone(b));
        for mask in (0u32..1 << (2 * len)).filter(|m| m.count_ones() as usize == len) {
            let (mut x, mut y) = (UnicodeCmap::<u16>::new(Name(b"A"), info), UnicodeCmap::<u16>::new(Name(b"A"), info));
            let (mut i, mut j) = (0, 0);
            for t in 0..2 * len {
                if mask >> t & 1 == 1 {
                    (ADDS[a[i]].1)(&mut x);
                    i += 1;
                } else {
                    (ADDS[b[j]].1)(&mut y);
                    j += 1;
                }
            }
            let ok = x.finish().to_vec() == wa && y.finish().to_vec() == wb;
            let what = || format!("character maps {a:?} and {b:?} interleaved as {mask:b}");
            c.check(ok, &what(), || format!("{}: differ from maps written alone", what()));
            c.states_by_construction(1);
            c.steps(2 * len as u64);
            c.traces_n(1);
        }
    });
}

/// Nothing written before, elsewhere, has any influence: whatever the thread did,
/// the probes come out as in a fresh thread.
fn unrelated(c: &Ctx) {
    c.phase("after unrelated work");
    let st = steps();
    let ops = ops::ops();
    let calls = streams::calls();
    let plain: Vec<usize> = (0..ops.len()).filter(|i| ops[*i].plain).collect();
    let probe = || {
        let mut out = vec![];
        for pretty in [true, false] {
            let mut ch = Chunk::with_settings(settings(pretty));
            for (n, s) in st.iter().enumerate() {
                (s.run)(&mut ch, Ref::new(1 + 100 * n as i32), pretty);
            }
            let mut one = Chunk::with_settings(settings(pretty));
            nest(one.indirect(Ref::new(1)), 3, 0);
            nest(one.indirect(Ref::new(2)), 3, 5);
            one.stream(Ref::new(3), b"data").pair(Name(b"A"), Str(b"(a")).pair(Name(b"B#"), TextStr("\u{e9}\u{20ac}"));
            let mut ct = Content::with_settings(settings(pretty));
            for i in plain.iter().take(60) {
                let _ = catch(|| (ops[*i].run)(&mut ct));
            }
            let mut p = Pdf::with_settings(settings(pretty));
            let mut q = Pdf::with_settings(settings(!pretty));
            p.extend(&one);
            q.extend(&one);
            p.indirect(Ref::new(9999)).array().items([1.0f32, -2.5, 1e10, 1e-7]);
            out.push(snap(&ch).bytes);
            out.push(format!("{:?}{:?}", snap(&ch).lim, snap(&ch).refs).into_bytes());
            out.push(snap(&one).bytes);
            out.push(format!("{:?}", snap(&one).lim).into_bytes());
            out.push(ct.finish().to_vec());
            out.push(p.finish());
            out.push(q.finish_with_xref_stream(Ref::new(10_000)));
            let mut m = UnicodeCmap::<u16>::new(Name(b"A"), SystemInfo { registry: Str(b"R"), ordering: Str(b"O"), supplement: 1 });
            m.pair(3, 'a');
            m.pair_with_multiple(7, ['f', '\u{1f600}']);
            out.push(m.finish().to_vec());
        }
        out
    };
    let fresh = || std::thread::scope(|s| s.spawn(probe).join().unwrap());
    let base = fresh();
    let one = |what: &dyn Fn() -> String, f: &(dyn Fn() + Sync)| {
        let got = std::thread::scope(|s| {
            s.spawn(|| {
                let _ = catch(f);
                probe()
            })
            .join()
            .unwrap()
        });
        for (n, (a, b)) in base.iter().zip(&got).enumerate() {
            c.check(a == b, &what(), || format!("after {}, probe {n} gives\n{}\ninstead of\n{}", what(), show_out(b), show_out(a)));
        }
        c.check(base.len() == got.len(), &what(), || "harness".into());
        c.states_by_construction(1);
        c.steps(base.len() as u64 + 1);
        c.traces_n(1);
    };
    // The same while a panic unwinds the thread.
    let mut got = vec![];
    unwinding(|| got = probe());
    for (n, (a, b)) in base.iter().zip(&got).enumerate() {
        let what = format!("during unwinding, probe {n}");
        c.check(a == b, &what, || format!("{what} gives\n{}\ninstead of\n{}", show_out(b), show_out(a)));
    }
    // Nesting of every depth: dictionaries, arrays, both; content streams.
    let deep = c.bound(260, 700);
    par(deep * 6, |i| {
        let (depth, how) = (i / 6, i % 6);
        one(&|| format!("nesting {depth} deep ({how})"), &|| {
            let mut ch = Chunk::with_settings(settings(how != 5));
            match how {
                3 => {
                    let mut ct = Content::new();
                    (0..depth.min(28)).for_each(|_| drop(ct.save_state()));
                    (0..depth).for_each(|_| drop(ct.begin_marked_content(Name(b"A"))));
                    (0..depth).for_each(|_| drop(ct.end_marked_content()));
                    (0..depth.min(28)).for_each(|_| drop(ct.restore_state()));
                    ct.finish();
                }
                4 => {
                    let mut ct = Content::new();
                    nest(ct.begin_marked_content_with_properties(Name(b"A")).properties().insert(Name(b"K")), depth, 3);
                }
                5 => nest(ch.indirect(Ref::new(1)), depth, 0),
                _ => nest(ch.indirect(Ref::new(1)), depth, [0, depth, 2][how]),
            }
        });
    });
    // Names, strings, texts, arrays, dictionaries and streams of every size.
    let sizes = ctx::sizes(c.bound(300, 3000));
    let sized: Vec<usize> = (0..70).chain(sizes).chain([4095, 4096, 65_535, 65_536, 70_000]).collect();
    par(sized.len() * 9, |i| {
        let (n, how) = (sized[i / 9], i % 9);
        one(&|| format!("size {n} ({how})"), &|| {
            let mut ch = Chunk::new();
            let v: Vec<u8> = (0..n).map(|j| if how % 2 == 0 { b'(' } else { (j * 7) as u8 }).collect();
            let obj = ch.indirect(Ref::new(1));
            match how {
                0 | 1 => obj.primitive(Str(&v)),
                2 => obj.primitive(Name(&v)),
                3 => obj.primitive(TextStr(&"\u{e9}\u{1f600}".repeat(n / 2))),
                4 => drop(obj.array().items(0..n as i32)),
                5 => {
                    let mut d = obj.dict();
                    (0..n).for_each(|j| drop(d.pair(Name(format!("K{j}").as_bytes()), j as f32 * 0.37)));
                }
                6 => {
                    drop(obj);
                    ch.stream(Ref::new(2), &v).filter(Filter::AsciiHexDecode);
                }
                7 => {
                    drop(obj);
                    let mut m = UnicodeCmap::<u16>::new(Name(b"A"), SystemInfo { registry: Str(b"R"), ordering: Str(b"O"), supplement: 1 });
                    (0..n).for_each(|j| m.pair_with_multiple(j as u16, ['a', '\u{1f600}']));
                    m.finish();
                }
                _ => {
                    drop(obj);
                    let mut p = Pdf::new();
                    (0..n).for_each(|j| p.indirect(Ref::new(1 + 2 * j as i32)).primitive(j as i32));
                    p.finish();
                }
            }
        });
    });
    // One method of anything, also where it is rejected.
    let mut tabs: Vec<Table> = tables::interactive();
    tabs.extend(tables::document());
    tabs.extend(tables::graphics());
    for t in &tabs {
        let every = c.bound(5, 1);
        let set: Vec<usize> = if c.thorough { (0..t.vars.len()).collect() } else { t.some_of_each(2) };
        par(set.len() / every + 1, |b| {
            let part: Vec<usize> = set.iter().copied().skip(b * every).take(every).collect();
            one(&|| part.iter().map(|i| t.show(&[*i])).collect::<Vec<_>>().join(" and ").to_string(), &|| {
                for i in &part {
                    for place in t.places() {
                        let _ = catch(|| {
                            let mut ch = Chunk::with_settings(settings(i % 2 == 0));
                            (t.run)(&mut ch, *place, &[*i])
                        });
                    }
                }
            });
        });
    }
    for coll in tables::collections::collections() {
        let k = coll.steps.len();
        par(k, |i| {
            one(&|| format!("{} {i}", coll.name), &|| {
                let mut ch = Chunk::new();
                with_obj(&mut ch, Place::Indirect, |o| (coll.run)(o, true, true, &[i, (i + 1) % k]));
            });
        });
    }
    par(ops.len(), |i| {
        one(&|| ops[i].label.to_string(), &|| {
            let mut ct = Content::with_settings(settings(i % 2 == 0));
            (ops[i].run)(&mut ct);
            ct.finish();
        })
    });
    par(calls.len(), |i| {
        one(&|| format!("stream call {i}"), &|| {
            let mut ch = Chunk::new();
            (streams::CTORS[i % streams::CTORS.len()].run)(&mut ch, Ref::new(2), b"d", &mut |w| (calls[i].run)(w));
        })
    });
    let n = st.len();
    par(n * n, |i| {
        one(&|| format!("{}; {}", st[i / n].name, st[i % n].name), &|| {
            let mut ch = Chunk::new();
            (st[i / n].run)(&mut ch, Ref::new(5), true);
            (st[i % n].run)(&mut ch, Ref::new(600), false);
        })
    });
    // What goes on at the same time in other threads, and after it all.
    let now = fresh();
    c.check(base == now, "fresh thread at the end", || "a fresh thread gives something else at the end".into());
    c.note("after unrelated work", format!("{deep} depths of 6 kinds, {} sizes of 9 kinds, methods of {} writers, {} operations, all pairs of {n} steps, each before the same probes", sized.len(), tabs.len(), ops.len()));
}

/// Writing that leaves off in the middle `mid` times with everything still open.
type Host = (String, Box<dyn Fn(&mut dyn FnMut()) -> Vec<Vec<u8>> + Send + Sync>);

fn hosts() -> Vec<Host> {
    fn deep(obj: Obj<'_>, depth: usize, kind: usize, mid: &mut dyn FnMut()) {
        mid();
        if depth == 0 {
            obj.primitive(-7);
        } else if [true, false, depth % 2 == 0][kind] {
            let mut a = obj.array();
            mid();
            a.item(1).item(2.5);
            mid();
            a.item(3);
            deep(a.push(), depth - 1, kind, mid);
            mid();
            a.item(Name(b"N")).item(4);
            assert_eq!(a.len(), 6);
        } else {
            let mut d = obj.dict();
            mid();
            d.pair(Name(b"A"), 1).pair(Name(b"B"), TextStr("(\u{e9}"));
            mid();
            deep(d.insert(Name(b"C")), depth - 1, kind, mid);
            mid();
            d.pair(Name(b"D"), Ref::new(7)).pair(Name(b"E"), Str(b"(x"));
            assert_eq!(d.len(), 5);
        }
    }
    let mut v: Vec<Host> = vec![];
    let done = |ch: Chunk| vec![snap(&ch).bytes, format!("{:?}{:?}", snap(&ch).lim, snap(&ch).refs).into_bytes()];
    for pretty in [true, false] {
        for kind in 0..3 {
            for depth in [0, 1, 2, 5] {
                v.push((format!("nesting of kind {kind}, {depth} deep, {}", layout(pretty)), Box::new(move |mid| {
                    let mut ch = Chunk::with_settings(settings(pretty));
                    for n in 1..3 {
                        deep(ch.indirect(Ref::new(n)), depth, kind, mid);
                    }
                    done(ch)
                })));
            }
        }
        v.push((format!("a stream, {}", layout(pretty)), Box::new(move |mid| {
            let mut ch = Chunk::with_settings(settings(pretty));
            for n in 1..3 {
                let mut st = ch.stream(Ref::new(n), b"data");
                mid();
                st.filter(Filter::FlateDecode);
                mid();
                {
                    let mut p = st.decode_parms();
                    p.colors(2);
                    mid();
                    p.columns(3);
                }
                deep(st.insert(Name(b"K")), 2, 2, mid);
                mid();
                st.pair(Name(b"L"), 1);
            }
            done(ch)
        })));
        v.push((format!("operations, {}", layout(pretty)), Box::new(move |mid| {
            let mut ct = Content::with_settings(settings(pretty));
            mid();
            ct.save_state().set_line_width(1.0);
            mid();
            ct.set_line_width(2.0).begin_text();
            {
                let mut op = ct.op("xx");
                mid();
                op.operand(1);
                mid();
                op.operand(2);
                deep(op.obj(), 2, 2, mid);
                mid();
                op.operand(3);
                mid();
            }
            {
                let mut sp = ct.show_positioned();
                mid();
                let mut it = sp.items();
                mid();
                it.show(Str(b"a(")).adjust(1.0);
                mid();
                it.adjust(2.0).show(Str(b"b"));
                mid();
            }
            {
                let mut m = ct.begin_marked_content_with_properties(Name(b"T"));
                mid();
                let mut p = m.properties();
                mid();
                p.identify(3);
                mid();
                p.actual_text(TextStr("x"));
            }
            ct.end_marked_content();
            mid();
            let depth = ct.state_nesting_depth();
            ct.end_text().restore_state();
            mid();
            let depths = vec![depth as u8, ct.state_nesting_depth() as u8];
            let buf = ct.finish();
            vec![depths, format!("{:?}", buf.limits()).into_bytes(), buf.into_vec()]
        })));
        v.push((format!("typed writers, {}", layout(pretty)), Box::new(move |mid| {
            let mut p = Pdf::with_settings(settings(pretty));
            {
                let mut cat = p.catalog(Ref::new(1));
                mid();
                cat.pages(Ref::new(2));
                mid();
                let mut names = cat.names();
                {
                    let mut tree = names.destinations();
                    mid();
                    let mut e = tree.names();
                    e.insert(Str(b"a"), Ref::new(3));
                    mid();
                    e.insert(Str(b"b"), Ref::new(4));
                }
                mid();
            }
            mid();
            {
                let mut page = p.page(Ref::new(5));
                page.media_box(Rect::new(0.0, 0.0, 5.0, 5.0));
                mid();
                page.annotations([6, 7].into_iter().map(Ref::new).inspect(|_| mid()));
                mid();
                let mut res = page.resources();
                mid();
                res.fonts().pair(Name(b"F"), Ref::new(8));
            }
            {
                let mut font = p.cid_font(Ref::new(8));
                let mut w = font.widths();
                mid();
                w.consecutive(1, [2.0, 3.0]);
                mid();
                w.same(4, 5, 6.0);
            }
            {
                let mut f = p.indirect(Ref::new(9)).start::<writers::Type1Font>();
                let mut e = f.encoding_custom();
                mid();
                let mut d = e.differences();
                d.consecutive(1, [Name(b"a")]);
                mid();
                d.consecutive(7, [Name(b"b"), Name(b"c")]);
            }
            {
                let cs = p.indirect(Ref::new(10)).start::<writers::ColorSpace>();
                let mut dn = cs.device_n([Name(b"A"), Name(b"B")]);
                mid();
                dn.alternate_color_space().device_rgb();
                mid();
                dn.tint_ref(Ref::new(11));
                mid();
                dn.attrs().process();
            }
            mid();
            p.set_file_id((b"a".to_vec(), b"b".to_vec()));
            mid();
            vec![p.finish()]
        })));
    }
    v.push(("a character map".into(), Box::new(|mid| {
        let mut m = UnicodeCmap::<u16>::new(Name(b"A"), SystemInfo { registry: Str(b"R"), ordering: Str(b"O"), supplement: 1 });
        for i in 0..210 {
            if i % 33 < 2 {
                mid();
            }
            m.pair_with_multiple(i, ['a', '\u{1f600}']);
        }
        mid();
        let buf = m.finish();
        vec![format!("{:?}", buf.limits()).into_bytes(), buf.into_vec()]
    })));
    v.push(("renumbering".into(), Box::new(|mid| {
        let mut ch = Chunk::new();
        ch.indirect(Ref::new(1)).array().item(Ref::new(2)).item(Ref::new(3)).item(Str(b"1 0 R"));
        ch.stream(Ref::new(2), b"1 0 R").pair(Name(b"A"), Ref::new(1));
        let out = ch.renumber(|r| {
            mid();
            Ref::new(r.get() + 10)
        });
        vec![snap(&out).bytes, format!("{:?}{:?}", snap(&out).lim, snap(&out).refs).into_bytes()]
    })));
    v.push(("iterators".into(), Box::new(|mid| {
        let mut ch = Chunk::new();
        let mut ct = Content::new();
        ch.indirect(Ref::new(1)).array().items((0..3).inspect(|_| mid()));
        ct.set_dash_pattern((0..3).map(|i| i as f32 + 0.5).inspect(|_| mid()), 1.0);
        ct.set_fill_color((0..3).map(|i| i as f32).inspect(|_| mid()));
        ct.op("xx").operands((0..3).inspect(|_| mid()));
        let mut out = vec![snap(&ch).bytes, ct.finish().into_vec()];
        let mut p = Pdf::new();
        p.extend(&ch);
        out.push(p.finish_with_xref_stream_and_filter(Ref::new(5), |d| {
            mid();
            (d.to_vec(), XRefFilter::Single(Filter::Crypt))
        }));
        out
    })));
    v
}

/// Work on something else while writers are open: neither has any influence on
/// the other.
fn within(c: &Ctx) {
    c.phase("while writers are open");
    let st = steps();
    let ops = ops::ops();
    let plain: Vec<usize> = (0..ops.len()).filter(|i| ops[*i].plain).collect();
    let hosts = hosts();
    // What may happen in between.
    let guests = st.len() + ops.len() + hosts.len();
    let guest = |g: usize| -> Vec<Vec<u8>> {
        if let Some(s) = st.get(g) {
            let mut ch = Chunk::with_settings(settings(g % 2 == 0));
            (s.run)(&mut ch, Ref::new(5), g % 2 == 0);
            vec![snap(&ch).bytes, format!("{:?}{:?}", snap(&ch).lim, snap(&ch).refs).into_bytes()]
        } else if let Some(o) = ops.get(g - st.len()) {
            let mut ct = Content::with_settings(settings(g % 2 == 0));
            (ops[plain[g % plain.len()]].run)(&mut ct);
            (o.run)(&mut ct);
            vec![ct.finish().to_vec()]
        } else {
            hosts[g - st.len() - ops.len()].1(&mut || ())
        }
    };
    let alone: Vec<_> = (0..guests).map(guest).collect();
    let mut gaps = 0;
    for (what, host) in &hosts {
        let mut n = 0;
        let base = host(&mut || n += 1);
        gaps += n;
        par((n + 1) * guests, |i| {
            // In one gap, or in all of them.
            let (at, g) = (i / guests, i % guests);
            let full = || format!("{what}, with work {g} in {} gap", if at == n { "every".into() } else { format!("the {at}th") });
            let mut k = 0;
            let mut other = None;
            let got = catch(|| host(&mut || {
                if at == n || at == k {
                    let o = guest(g);
                    if o != alone[g] {
                        other = Some(o);
                    }
                }
                k += 1;
            }));
            let show = |o: &[Vec<u8>]| o.iter().map(|b| show_out(b)).collect::<Vec<_>>().join("\n");
            match got {
                Err(p) => c.fail(&full(), || format!("{}: panicked: {p}", full())),
                Ok(got) => {
                    c.check(got == base, &full(), || format!("{}: gives\n{}\ninstead of\n{}", full(), show(&got), show(&base)));
                    if let Some(o) = &other {
                        c.fail(&full(), || format!("{}: the work itself gives\n{}\ninstead of\n{}", full(), show(o), show(&alone[g])));
                    }
                }
            }
            c.states_by_construction(1);
            c.steps(k as u64);
            c.traces_n(2);
        });
    }
    c.note("work while writers are open", format!("{guests} pieces of work in each and all of {gaps} gaps of {} histories", hosts.len()));
}

/// Writers of independent chunks and contents opened, used and closed in every
/// interleaving, not only one inside the other.
fn interleaved(c: &Ctx) {
    c.phase("interleaved writers");
    const KINDS: usize = 8;
    /// What is still open of one of them: call it to go on, drop it to close.
    type Open<'a> = Box<dyn FnMut(usize) + 'a>;
    fn open<'a>(kind: usize, ch: &'a mut Chunk, ct: &'a mut Content, n: usize) -> Open<'a> {
        let id = Ref::new(10 + n as i32);
        let n = n as i32;
        match kind {
            0 => {
                let mut d = ch.indirect(id).dict();
                Box::new(move |k| drop(d.pair(Name(b"K"), k as i32 + n)))
            }
            1 => {
                let mut d = ch.indirect(id).dict();
                Box::new(move |k| {
                    let mut e = d.insert(Name(b"K")).dict();
                    e.pair(Name(b"L"), TextStr("(")).pair(Name(b"M"), n);
                    e.insert(Name(b"A")).array().items([k as i32; 3]);
                })
            }
            2 => {
                let mut a = ch.indirect(id).array();
                Box::new(move |k| drop(a.item(k as i32 + n)))
            }
            3 => {
                let mut a = ch.indirect(id).array();
                Box::new(move |k| {
                    a.item(Str(b"s"));
                    a.push().dict().pair(Name(b"K"), k as i32).pair(Name(b""), Null);
                })
            }
            4 => {
                let mut s = ch.stream(id, b"data");
                Box::new(move |k| drop(s.pair(Name(b"K"), k as f32 + 0.5)))
            }
            5 => {
                let mut o = ct.op("xx");
                Box::new(move |k| drop(o.operand(k as i32 + n)))
            }
            6 => {
                let mut p = ct.show_positioned();
                let mut first = true;
                // The items list borrows from its writer: open it per call.
                Box::new(move |k| {
                    if std::mem::take(&mut first) {
                        p.items().show(Str(b"(")).adjust(k as f32).adjust(n as f32);
                    }
                })
            }
            _ => {
                ct.save_state();
                let mut p = ct.begin_marked_content_with_properties(Name(b"T"));
                let mut first = true;
                Box::new(move |k| {
                    if std::mem::take(&mut first) {
                        p.properties().identify(k as i32).pair(Name(b"N"), n);
                    }
                })
            }
        }
    }
    // Every order of the steps of `w` participants.
    fn orders(left: &mut Vec<usize>, cur: &mut Vec<usize>, all: &mut Vec<Vec<usize>>) {
        if left.iter().all(|l| *l == 0) {
            return all.push(cur.clone());
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i);
                orders(left, cur, all);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    let run = |kinds: &[usize], order: &[usize], pretty: usize, steps: usize| {
        catch(|| {
            let w = kinds.len();
            let set = |i: usize| settings(pretty >> i & 1 == 1);
            let mut own: Vec<(Chunk, Content)> = (0..w).map(|i| (Chunk::with_settings(set(i)), Content::with_settings(set(i)))).collect();
            let mut left: Vec<Option<(&mut Chunk, &mut Content)>> = own.iter_mut().map(|(a, b)| Some((a, b))).collect();
            let mut opened: Vec<Option<Open>> = (0..w).map(|_| None).collect();
            let mut at = vec![0; w];
            for i in order {
                let i = *i;
                match at[i] {
                    0 => {
                        let (ch, ct) = left[i].take().unwrap();
                        opened[i] = Some(open(kinds[i], ch, ct, i));
                    }
                    k if k == steps - 1 => opened[i] = None,
                    k => opened[i].as_mut().unwrap()(k),
                }
                at[i] += 1;
            }
            drop(opened);
            own.into_iter().map(|(ch, ct)| (snap(&ch).bytes, format!("{:?}", ch.limits()), ct.state_nesting_depth(), ct.finish())).collect::<Vec<_>>()
        })
    };
    let mut count = vec![];
    for w in 2..=c.bound(2usize, 3) {
        let steps = 7 - w;
        let alone: Vec<Vec<_>> = (0..2 * w)
            .map(|m| {
                (0..KINDS)
                    .map(|kind| {
                        // One of them with the others unused.
                        let (i, pretty) = (m / 2, m % 2);
                        let mut kinds = vec![0; w];
                        kinds[i] = kind;
                        run(&kinds, &vec![i; steps], pretty << i, steps).map(|mut v| v.swap_remove(i))
                    })
                    .collect()
            })
            .collect();
        let mut all = vec![];
        orders(&mut vec![steps; w], &mut vec![], &mut all);
        count.push(all.len());
        let combos = KINDS.pow(w as u32) << w;
        par(all.len() * combos, |x| {
            let (order, y) = (&all[x / combos], x % combos);
            let (kinds, pretty) = (seq(y >> w, KINDS, w), y & ((1 << w) - 1));
            let what = || format!("writers of kinds {kinds:?}, layouts {pretty:b}, in the order {order:?}");
            let got = run(&kinds, order, pretty, steps);
            let ok = got.as_ref().is_ok_and(|g| (0..w).all(|i| alone[2 * i + (pretty >> i & 1)][kinds[i]].as_ref() == Ok(&g[i])));
            c.check(ok, &what(), || format!("{}: {got:?}", what()));
            c.states_by_construction(1);
            c.steps(order.len() as u64);
            c.traces_n(1);
        });
    }
    c.note("interleaved writers", format!("{count:?} interleavings of 2 writers with 5 steps (and 3 with 4) of {KINDS} kinds"));
}

/// Handing what is being written to another thread has no influence, with or
/// without writers open.
fn across(c: &Ctx) {
    c.phase("across threads");
    fn elsewhere<T: Send>(f: impl FnOnce() -> T + Send) -> T {
        std::thread::scope(|s| s.spawn(f).join().unwrap_or_else(|p| std::panic::resume_unwind(p)))
    }
    let st = steps();
    let n = st.len();
    let max = c.bound(2u32, 3);
    for len in 1..=max as usize {
        par(n.pow(len as u32) * (1 << len), |i| {
            let (s, mask) = (seq(i >> len, n, len), i & ((1 << len) - 1));
            let pretty = (i >> len) % 2 == 0;
            let what = || format!("{} with the steps of mask {mask:b} on other threads", s.iter().map(|j| st[*j].name.as_str()).collect::<Vec<_>>().join("; "));
            let go = |mask: usize| {
                catch(|| {
                    let mut ch = Chunk::with_settings(settings(pretty));
                    let mut v = vec![];
                    for (k, j) in s.iter().enumerate() {
                        let id = Ref::new(1 + 100 * k as i32);
                        if mask >> k & 1 == 1 {
                            ch = elsewhere(|| {
                                (st[*j].run)(&mut ch, id, pretty);
                                ch
                            });
                        } else {
                            (st[*j].run)(&mut ch, id, pretty);
                        }
                        v.push(snap(&ch));
                    }
                    v
                })
            };
            match (go(0), go(mask)) {
                (Ok(a), Ok(b)) => compare(c, &what, &a, &b),
                _ => c.fail(&what(), || format!("{}: panicked", what())),
            }
            c.states_by_construction(1);
            c.steps(len as u64);
            c.traces_n(2);
        });
    }
    let ops = ops::ops();
    let plain: Vec<usize> = (0..ops.len()).filter(|i| ops[*i].plain).collect();
    let k = plain.len();
    par(k * k, |i| {
        let (a, b) = (&ops[plain[i / k]], &ops[plain[i % k]]);
        let go = |mask: usize| {
            catch(|| {
                let mut ct = Content::with_settings(settings(i % 2 == 0));
                let mut v = vec![];
                ct.save_state();
                for (n, o) in [a, b, a].into_iter().enumerate() {
                    if mask >> n & 1 == 1 {
                        ct = elsewhere(|| {
                            (o.run)(&mut ct);
                            ct
                        });
                    } else {
                        (o.run)(&mut ct);
                    }
                    v.push(ct.state_nesting_depth());
                }
                ct.restore_state();
                v.push(ct.state_nesting_depth());
                (v, ct.finish())
            })
        };
        let (x, y) = (go(0).ok(), go(1 + i % 7).ok());
        let what = || format!("{}; {} on threads {}", a.label, b.label, 1 + i % 7);
        c.check(x.is_some() && x == y, &what(), || format!("{}: {x:?} and {y:?}", what()));
        c.states_by_construction(1);
        c.steps(3);
        c.traces_n(2);
    });
    // Open writers handed over after each call.
    let many = |mask: usize, pretty: bool, kind: usize| {
        catch(|| {
            let mut at = 0;
            let mut there = || {
                at += 1;
                mask >> (at - 1) & 1 == 1
            };
            macro_rules! step {
                ($($w:ident)* => $e:expr) => { if there() { elsewhere(|| { let _ = $e; }); } else { let _ = $e; } };
            }
            let mut ch = Chunk::with_settings(settings(pretty));
            let mut ct = Content::with_settings(settings(pretty));
            match kind {
                0 => {
                    let mut d = ch.indirect(Ref::new(1)).dict();
                    step!(d => { d.pair(Name(b"A"), 1); });
                    let mut a = d.insert(Name(b"B")).array();
                    step!(a => { a.item(Name(b"")); });
                    step!(a => { a.item(2); });
                    let mut e = a.push().dict();
                    step!(e => { e.pair(Name(b"C"), Str(b"(")); });
                    step!(e => e.finish());
                    step!(a => { a.item(3).item(1.5); });
                    step!(a => drop(a));
                    step!(d => { d.pair(Name(b"D"), Ref::new(3)); });
                    step!(d => drop(d));
                }
                1 => {
                    let mut s = ch.stream(Ref::new(1), b"data");
                    step!(s => { s.filter(Filter::FlateDecode); });
                    let mut p = s.decode_parms();
                    step!(p => { p.colors(2); });
                    step!(p => { p.columns(3); });
                    step!(p => drop(p));
                    step!(s => { s.pair(Name(b"K"), Name(b"V")); });
                    step!(s => drop(s));
                }
                2 => {
                    step!(ct => { ct.save_state().begin_text(); });
                    let mut p = ct.show_positioned();
                    let mut it = p.items();
                    step!(it => { it.show(Str(b"a")); });
                    step!(it => { it.adjust(1.0).adjust(-2.0); });
                    step!(it => { it.show(Str(b"\xff")); });
                    step!(it => drop(it));
                    step!(p => drop(p));
                    let mut o = ct.op("xx");
                    step!(o => { o.operand(1); });
                    step!(o => { o.operand(Name(b"x")); });
                    step!(o => { o.operand(-2.5); });
                    step!(o => drop(o));
                    step!(ct => { ct.end_text().restore_state(); });
                }
                _ => {
                    let mut m = ct.begin_marked_content_with_properties(Name(b"T"));
                    let mut p = m.properties();
                    step!(p => { p.identify(3); });
                    step!(p => { p.pair(Name(b"X"), Null); });
                    step!(p => drop(p));
                    step!(m => drop(m));
                    step!(ct => { ct.end_marked_content(); });
                    let mut i = ch.indirect(Ref::new(4)).array();
                    step!(i => { i.item(i32::MIN); });
                    step!(i => { i.item(1e-30); });
                    step!(i => drop(i));
                }
            }
            let depth = ct.state_nesting_depth();
            (ch.as_bytes().to_vec(), format!("{:?}", ch.limits()), depth, ct.finish(), at)
        })
    };
    for kind in 0..4 {
        for pretty in [true, false] {
            let Ok(base) = many(0, pretty, kind) else {
                return c.fail("handed over", || format!("writers of kind {kind} panicked"));
            };
            par(1 << base.4, |mask| {
                let what = || format!("writers of kind {kind}, {}, calls of mask {mask:b} on other threads", layout(pretty));
                let got = many(mask, pretty, kind);
                c.check(got.as_ref() == Ok(&base), &what(), || format!("{}: {got:?} instead of {base:?}", what()));
                c.states_by_construction(1);
                c.steps(base.4 as u64);
                c.traces_n(1);
            });
        }
    }
    c.note("across threads", format!("all sequences of up to {max} of {n} steps with every choice of threads, all pairs of {k} operations, every choice of threads for each call on open writers"));
}

/// Dictionaries and arrays inside each other, `arrays` of the levels being arrays.
fn nest(obj: Obj<'_>, depth: usize, arrays: usize) {
    if depth == 0 {
        obj.primitive(1.5);
    } else if arrays > 0 && (arrays >= depth || depth % 2 == 0) {
        let mut a = obj.array();
        a.item(Null);
        nest(a.push(), depth - 1, arrays - 1);
        a.item(Name(b"after"));
    } else {
        let mut d = obj.dict();
        d.pair(Name(b"A"), 1);
        nest(d.insert(Name(b"K")), depth - 1, arrays);
        d.pair(Name(b"Z"), Str(b"after"));
    }
}

fn explore() {
    let c = Ctx::new("C29");
    within(c);
    interleaved(c);
    across(c);
    unrelated(c);
    chunks(c);
    contents(c);
    documents(c);
    writers(c);
    c.finish()
}
