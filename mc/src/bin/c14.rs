//! C14: renumbering changes exactly the object numbers and references.
#![allow(unexpected_cfgs)]
use mc::gen::{layout, settings, trees, Mode, M, P};
use mc::kinds::KINDS;
use mc::pdf::{IObj, V};
use mc::streams::{calls, CTORS};
use mc::*;
use pdf_writer::*;
use std::collections::HashMap;

fn main() {
    guard(explore)
}

/// A mapping of object numbers.
#[derive(Clone, Debug)]
enum Map {
    /// Listed numbers; all others stay.
    Table(Vec<(i32, i32)>),
    Shift(i32),
    Const(i32),
    /// Another new number for every call.
    Fresh(i32),
}

impl Map {
    fn at(&self, old: i32, call: usize) -> i32 {
        match self {
            Map::Table(t) => t.iter().find(|p| p.0 == old).map_or(old, |p| p.1),
            Map::Shift(d) => old.saturating_add(*d).max(1),
            Map::Const(n) => *n,
            Map::Fresh(n) => n + call as i32 * 7,
        }
    }
}

/// Same value up to references, which `m(old, new)` compares.
fn eq(a: &V, b: &V, m: &mut dyn FnMut(i64, i64) -> bool) -> bool {
    match (a, b) {
        (V::Ref(x, g), V::Ref(y, h)) => g == h && m(*x, *y),
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(x, y, m)),
        (V::Dict(a), V::Dict(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && eq(x, y, m))
        }
        _ => a == b,
    }
}

fn count_refs(v: &V) -> usize {
    match v {
        V::Ref(..) => 1,
        V::Arr(a) => a.iter().map(count_refs).sum(),
        V::Dict(d) => d.iter().map(|(_, v)| count_refs(v)).sum(),
        _ => 0,
    }
}

/// What the target holds before renumbering into it.
const TARGETS: usize = 6;
fn target(kind: usize) -> Option<Chunk> {
    let mut ch = Chunk::with_settings(settings(kind % 2 == 0));
    match kind {
        0 => return None,
        1 => {}
        2 => drop(ch.indirect(Ref::new(50)).array().item(Ref::new(3)).item(Str(b"0123456789012345"))),
        3 => drop(ch.stream(Ref::new(50), b"3 0 R")),
        4 => {
            ch.indirect(Ref::new(60)).primitive(Name(b""));
            drop(ch.indirect(Ref::new(61)).dict().pair(Name(b"A"), 2.5));
        }
        _ => ch.reserve(5000),
    };
    Some(ch)
}

/// Renumber a chunk holding these objects and check everything about the
/// result.
#[allow(clippy::too_many_arguments)]
fn renumbered(src: &Chunk, pretty: bool, objs: &[IObj], raw: bool, map: &Map, tgt: usize) -> Result<Chunk, String> {
    let src_bytes = src.as_bytes().to_vec();
    let mut log: Vec<(i32, i32)> = vec![];
    let f = |r: Ref| {
        let new = map.at(r.get(), log.len());
        log.push((r.get(), new));
        Ref::new(new)
    };
    let (mut out, prev) = match target(tgt) {
        None => (src.renumber(f), None),
        Some(t) => {
            let mut out = t.clone();
            src.renumber_into(&mut out, f);
            (out, Some(t))
        }
    };
    if src.as_bytes() != src_bytes {
        return Err("the source changed".into());
    }
    let before = prev.as_ref().map_or(0, |p| p.len());
    if let Some(p) = &prev {
        if !out.as_bytes().starts_with(p.as_bytes()) {
            return Err("the previous content of the target changed".into());
        }
    }
    let got = pdf::parse_chunk(&out.as_bytes()[before..])?;
    if got.len() != objs.len() {
        return Err(format!("{} objects instead of {}", got.len(), objs.len()));
    }
    // Numbers, references, everything else.
    let mut limits = M::default();
    if let Some(p) = &prev {
        limits.merge(&M::of(p.limits()));
    }
    limits.merge(&M::of(src.limits()));
    let fresh: HashMap<i64, i64> = log.iter().map(|(o, n)| (*n as i64, *o as i64)).collect();
    let mut used = std::collections::HashSet::new();
    let mut same = |old: i64, new: i64| {
        limits.int(new);
        match map {
            Map::Fresh(_) => fresh.get(&new) == Some(&old) && used.insert(new),
            m => m.at(old as i32, 0) as i64 == new,
        }
    };
    for (a, b) in objs.iter().zip(&got) {
        if !same(a.num, b.num) || a.gen != b.gen || a.stream != b.stream || !eq(&a.val, &b.val, &mut same) {
            return Err(format!("object {} {} {:?} became {} {} {:?}", a.num, a.gen, a.val, b.num, b.gen, b.val));
        }
    }
    // The mapping sees the numbers in the chunk and no others.
    let total: usize = objs.iter().map(|o| 1 + count_refs(&o.val)).sum();
    if log.len() != total {
        return Err(format!("the mapping was called {} times for {total} numbers", log.len()));
    }
    let mut refs: Vec<i64> = prev.iter().flat_map(|p| p.refs().map(|r| r.get() as i64)).collect();
    refs.extend(got.iter().map(|o| o.num));
    if out.refs().map(|r| r.get() as i64).collect::<Vec<_>>() != refs {
        return Err(format!("refs() gives {:?} for {refs:?}", out.refs().collect::<Vec<_>>()));
    }
    if raw {
        // Generation numbers of raw objects may or may not be registered.
        objs.iter().for_each(|o| limits.int(o.gen));
        let l = M::of(out.limits());
        let ints = out.limits().int() as i64;
        limits.int = ints.min(limits.int.max(70000)).max(limits.int.min(ints));
        if (M { int: 0, ..l }) != (M { int: 0, ..limits }) {
            return Err(format!("limits {l:?}, expected {limits:?}"));
        }
    } else if M::of(out.limits()) != limits {
        return Err(format!("limits {:?}, expected {limits:?}", M::of(out.limits())));
    }
    // Exact offsets: the finished file resolves every object.
    let mut sorted = refs.clone();
    sorted.sort();
    sorted.dedup();
    let top = *sorted.last().unwrap_or(&1);
    if sorted.len() == refs.len() && top < 500.max(20 * refs.len() as i64) {
        {
            let mut p = Pdf::new();
            p.extend(&out);
            let d = pdf::parse_doc(&p.finish(), None)?;
            if !raw {
                pdf::check_xref(&d)?;
            }
            let by_num: HashMap<i64, &IObj> = d.objs.iter().map(|o| (o.num, o)).collect();
            for o in &got {
                let at = d.entries.get(o.num as usize);
                let found = by_num.get(&o.num).map(|p| p.offset as u64);
                if !matches!(at, Some(pdf::Entry::Used { offset, .. }) if Some(*offset) == found) {
                    return Err(format!("object {} is not where the file says: {at:?}", o.num));
                }
                let e = by_num.get(&o.num).ok_or("object lost when finishing")?;
                if e.val != o.val || e.stream != o.stream || e.gen != o.gen {
                    return Err(format!("object {} is {e:?} in the finished file", o.num));
                }
            }
        }
    }
    // The layout setting: what is written next looks like in a new chunk.
    let want_pretty = prev.as_ref().map_or(pretty, |_| tgt % 2 == 0);
    let (at, result) = (out.len(), out.clone());
    let next = |ch: &mut Chunk| drop(ch.indirect(Ref::new(77)).dict().pair(Name(b"A"), 1));
    next(&mut out);
    let mut alone = Chunk::with_settings(settings(want_pretty));
    next(&mut alone);
    if out.as_bytes()[at..] != *alone.as_bytes() {
        return Err("the layout setting was not kept".into());
    }
    Ok(result)
}

fn check(c: &Ctx, what: &dyn Fn() -> String, src: &Chunk, pretty: bool, objs: &[IObj], raw: bool, map: &Map, tgt: usize) {
    let full = || format!("{} under {map:?} into target {tgt}", what());
    match catch(|| renumbered(src, pretty, objs, raw, map, tgt)) {
        Ok(Ok(out)) => {
            if objs.len() > 1 || matches!(map, Map::Fresh(_)) {
                c.sample(|| format!("{} -> {}", full(), show_out(out.as_bytes())));
            }
        }
        Ok(Err(e)) => c.fail(&full(), || format!("{}\n{e}\nsource: {}", full(), show_out(src.as_bytes()))),
        Err(p) => c.fail(&full(), || format!("{}\npanicked: {p}\nsource: {}", full(), show_out(src.as_bytes()))),
    }
    c.states_by_construction(1);
    c.steps(2 + objs.len() as u64);
    c.traces_n(1);
}

/// Parse what the chunk under test holds; other properties decide that this is
/// what was written.
fn source(c: &Ctx, what: &dyn Fn() -> String, ch: &Chunk) -> Vec<IObj> {
    pdf::parse_chunk(ch.as_bytes()).unwrap_or_else(|e| {
        c.fail(&what(), || format!("{}\nsource unreadable: {e}\n{}", what(), show_out(ch.as_bytes())));
        vec![]
    })
}

/// All functions from some numbers to a pool, and a mapping with new numbers
/// for every occurrence.
fn maps(olds: &[i32], pool: &[i32]) -> Vec<Map> {
    let mut v: Vec<Map> = (0..pool.len().pow(olds.len() as u32))
        .map(|i| {
            let s = seq(i, pool.len(), olds.len());
            Map::Table(olds.iter().copied().zip(s.iter().map(|j| pool[*j])).collect())
        })
        .collect();
    v.push(Map::Fresh(1));
    v.push(Map::Fresh(i32::MAX - 5000));
    v
}

const LEAVES: &[P] = &[
    P::Ref(3),
    P::Ref(31),
    P::I(3),
    P::I(0),
    P::Name(b"R"),
    P::Str(b"3 0 R"),
    P::Str(b"("),
    P::Name(b"3 0 R"),
    P::Name(b""),
    P::Str(b"\\"),
    P::Name(b"stream"),
    P::Str(b">>\nstream\n"),
    P::Str(b"% 3 0 R"),
    P::Name(b"endobj"),
    P::Str(b"\nendobj\n"),
    P::Str(b"\xff 3 0 R"),
    P::Text("\u{e9}3 0 R"),
    P::F(3.5),
    P::Null,
    P::Lang(&[("en", "", "3 0 R")]),
    P::Date(2),
    P::Name(b"%"),
];

fn values(c: &Ctx) {
    let ms = maps(&[3, 31], &[1, 3, 31, 205, i32::MAX]);
    let max = c.bound(4, 5);
    for n in 1..=max {
        c.phase(&format!("value trees of {n} nodes"));
        let leaves = if n == 5 { &LEAVES[..12] } else { LEAVES };
        let ts = trees(n, leaves, &[b"K", b"R", b"stream", b"0", b"endobj"]);
        c.note(&format!("value trees of {n} nodes"), format!("{} under {} mappings in both layouts", ts.len(), ms.len()));
        par(ts.len() * 2, |i| {
            let (t, pretty) = (&ts[i / 2], i % 2 == 0);
            let mut ch = Chunk::with_settings(settings(pretty));
            let _ = t.emit(ch.indirect(Ref::new(3)), Mode::Short);
            let what = || format!("{t:?} {}", layout(pretty));
            let objs = source(c, &what, &ch);
            for (j, m) in ms.iter().enumerate() {
                check(c, &what, &ch, pretty, &objs, false, m, (i / 2 + j) % TARGETS);
            }
        });
    }
}

/// Byte strings, names and texts that look like other things, between
/// references.
fn lookalikes(c: &Ctx) {
    let m = Map::Table(vec![(3, 8), (4, 1234567)]);
    let one = |s: &[u8], place: usize, pretty: bool| {
        let mut ch = Chunk::with_settings(settings(pretty));
        let (a, b) = (Ref::new(3), Ref::new(4));
        let text = String::from_utf8_lossy(s).into_owned();
        match place {
            0 => drop(ch.indirect(a).array().item(a).item(Str(s)).item(b)),
            1 => drop(ch.indirect(a).dict().pair(Name(b"A"), Str(s)).pair(Name(b"B"), b)),
            2 => ch.indirect(a).primitive(Str(s)),
            3 => drop(ch.stream(a, b"3 0 R").pair(Name(b"A"), Str(s)).pair(Name(b"B"), b)),
            4 => drop(ch.stream(a, s).pair(Name(b"B"), b)),
            5 => drop(ch.indirect(a).array().item(a).item(Name(s)).item(b)),
            6 => drop(ch.indirect(a).dict().pair(Name(s), b).pair(Name(b"A"), 3)),
            7 => drop(ch.indirect(a).array().item(0).item(TextStr(&text)).item(b)),
            8 => ch.indirect(a).primitive(Name(s)),
            _ => {
                ch.stream(a, s);
                ch.stream(b, s);
            }
        }
        let what = || format!("{:?} in place {place} {}", show_bytes(s), layout(pretty));
        let objs = source(c, &what, &ch);
        check(c, &what, &ch, pretty, &objs, false, &m, 0);
    };
    let bytes = b"()\\R 3\n%>0";
    c.phase("byte strings");
    let max = c.bound(5, 7);
    for n in 0..=max {
        par(bytes.len().pow(n as u32), |i| {
            let s: Vec<u8> = seq(i, bytes.len(), n).iter().map(|j| bytes[*j]).collect();
            for place in if n <= 4 { 0..10 } else { 0..2 } {
                one(&s, place, (i + place) % 2 == 0);
                if n <= 4 {
                    one(&s, place, (i + place) % 2 == 1);
                }
            }
        });
    }
    c.note("byte strings between references", format!("all of up to {max} of {} bytes", bytes.len()));
    c.phase("fragments");
    let frags: &[&[u8]] = &[
        b"3 0 R", b"\n", b"endobj", b"(", b")", b"stream\n", b">>", b"endstream", b" ", b"\\", b"obj", b"%", b"<", b"\xff", b"R", b"4 0 obj",
        b"\r", b"/", b"[", b"<<", b"\0", b"\x0c",
    ];
    let max = c.bound(3, 4);
    for n in 0..=max {
        par(frags.len().pow(n as u32), |i| {
            let s: Vec<u8> = seq(i, frags.len(), n).iter().flat_map(|j| frags[*j]).copied().collect();
            for place in 0..10 {
                one(&s, place, false);
                one(&s, place, true);
            }
        });
    }
    c.note("fragments in strings, names, texts and data", format!("all of up to {max} of {}", frags.len()));
}

/// Chunks of several objects.
fn objects(c: &Ctx) {
    let ids = [5, 2, 9];
    let ms: Vec<Map> = vec![
        Map::Table(vec![(5, 2), (2, 9), (9, 5)]),
        Map::Shift(1),
        Map::Const(6),
        Map::Fresh(10),
        Map::Table(vec![(9, 1)]),
        Map::Shift(0),
        Map::Table(vec![(5, 300), (2, 301), (9, 302)]),
        Map::Shift(i32::MAX - 9),
        Map::Shift(-4),
    ];
    for n in 0..=3 {
        c.phase(&format!("chunks of {n} objects"));
        par(KINDS.len().pow(n as u32), |i| {
            let steps: Vec<doc::Step> = seq(i, KINDS.len(), n).iter().enumerate().map(|(j, k)| (ids[j], *k)).collect();
            let mk = |pretty| {
                let mut ch = Chunk::with_settings(settings(pretty));
                doc::write_all(&mut ch, &steps);
                ch
            };
            let both = [mk(false), mk(true)];
            let what = || doc::show(&steps);
            let objs = [source(c, &what, &both[0]), source(c, &what, &both[1])];
            let all = ms.len() * TARGETS * 2;
            for j in 0..all {
                if n == 3 && !c.thorough && j != i % all {
                    continue;
                }
                let p = j % 2;
                check(c, &what, &both[p], p == 1, &objs[p], false, &ms[j / 2 % ms.len()], j / 2 / ms.len());
            }
        });
    }
    c.note("chunks of up to three objects", format!("all {} kinds, {} mappings, {TARGETS} targets", KINDS.len(), ms.len()));
    c.phase("streams");
    let cs = calls();
    let datas: &[&[u8]] = &[b"", b"3 0 R", b"\nendobj\n3 0 R", b"x\n", b")3 0 R(", b"\r", b"endstream\nendobj\n\n4 0 obj\n(", b"%"];
    let len = c.bound(2, 3);
    for n in 0..=len {
        par(cs.len().pow(n as u32) * CTORS.len(), |i| {
            let (ctor, s) = (&CTORS[i % CTORS.len()], seq(i / CTORS.len(), cs.len(), n));
            for (j, data) in datas.iter().enumerate() {
                let pretty = (i + j) % 2 == 0;
                let mut ch = Chunk::with_settings(settings(pretty));
                (ctor.run)(&mut ch, Ref::new(3), data, &mut |w| s.iter().for_each(|i| (cs[*i].run)(w)));
                ch.indirect(Ref::new(4)).primitive(Ref::new(3));
                let what = || {
                    let l: Vec<_> = s.iter().map(|i| cs[*i].label.clone()).collect();
                    format!("{} {:?} {} {}", ctor.name, show_bytes(data), l.join("; "), layout(pretty))
                };
                let objs = source(c, &what, &ch);
                check(c, &what, &ch, pretty, &objs, false, &ms[(i + j) % ms.len()], (i / 3 + j) % TARGETS);
                check(c, &what, &ch, pretty, &objs, false, &Map::Fresh(1), 0);
            }
        });
    }
}

/// Every typed writer.
fn writers(c: &Ctx) {
    let ms = [Map::Fresh(3), Map::Shift(100)];
    for (name, ts) in [("interactive", tables::interactive()), ("document", tables::document()), ("graphics", tables::graphics())] {
        c.phase(name);
        for t in &ts {
            let n = t.vars.len();
            par(1 + n + if c.thorough { n * n } else { 0 }, |i| {
                let s: Vec<usize> = match i {
                    0 if t.kind == tab::Kind::Value => return,
                    0 => vec![],
                    i if i <= n => vec![i - 1],
                    i => vec![(i - 1 - n) / n, (i - 1 - n) % n],
                };
                if !t.compatible(&s) || s.len() == 2 && t.kind == tab::Kind::Value {
                    return;
                }
                for place in t.places() {
                    for pretty in [false, true] {
                        let mut ch = Chunk::with_settings(settings(pretty));
                        (t.run)(&mut ch, *place, &s);
                        let what = || {
                            let l: Vec<_> = s.iter().map(|i| t.vars[*i].label.clone()).collect();
                            format!("{}: {} {place:?} {}", t.name, l.join("; "), layout(pretty))
                        };
                        let objs = source(c, &what, &ch);
                        for (j, m) in ms.iter().enumerate() {
                            check(c, &what, &ch, pretty, &objs, false, m, (i + j) % TARGETS);
                        }
                    }
                }
            });
        }
    }
    c.phase("collections");
    let colls = tables::collections::collections();
    let max = c.bound(3, 4);
    for coll in &colls {
        let k = coll.steps.len();
        for n in 0..=max {
            par(k.pow(n as u32), |i| {
                let s = seq(i, k, n);
                for pretty in [false, true] {
                    let mut ch = Chunk::with_settings(settings(pretty));
                    (coll.run)(ch.indirect(Ref::new(2)), i % 2 == 0, i % 3 == 0, &s);
                    let what = || format!("{} {s:?} {}", coll.name, layout(pretty));
                    let objs = source(c, &what, &ch);
                    check(c, &what, &ch, pretty, &objs, false, &ms[i % 2], i % TARGETS);
                }
            });
        }
    }
}

/// Sizes: nesting, lengths, counts and digits.
fn extents(c: &Ctx) {
    let m = [Map::Table(vec![(3, 8), (4, 1234567)]), Map::Fresh(1000)];
    let (a, b) = (Ref::new(3), Ref::new(4));
    c.phase("nested parentheses and long strings");
    let ns = sizes(c.bound(70_000, 300_000));
    let ns: Vec<usize> = ns.into_iter().rev().collect();
    par(ns.len() * 12, |i| {
        let (n, k) = (ns[i / 12], i % 12);
        let inner: &[u8] = b" 3 0 R ";
        let s: Vec<u8> = match k {
            0 => [&vec![b'('; n][..], inner, &vec![b')'; n]].concat(),
            1 => [&b"(".repeat(n)[..], inner, &b" 4 0 R )".repeat(n)].concat(),
            2 => [&b"( 3 0 R ".repeat(n)[..], &vec![b')'; n]].concat(),
            3 => [&b"()".repeat(n)[..], inner].concat(),
            4 => [&b"\\".repeat(n)[..], inner].concat(),
            5 => [&vec![b'x'; n][..], inner].concat(),
            6 => [&vec![0xffu8; n][..], inner].concat(),
            7 => [&vec![b')'; n][..], inner, &vec![b'('; n]].concat(),
            8 => [&vec![b'('; n + 1][..], inner, &vec![b')'; n]].concat(),
            9 => [inner, &vec![b' '; n], inner].concat(),
            10 => [&b"(\\".repeat(n)[..], inner, &b")\n".repeat(n)].concat(),
            _ => [&b"\n".repeat(n)[..], b"endobj\n\n4 0 obj\n", inner].concat(),
        };
        for pretty in [false, true] {
            let mut ch = Chunk::with_settings(settings(pretty));
            match (i / 12 + pretty as usize) % 4 {
                0 => drop(ch.indirect(a).array().item(a).item(Str(&s)).item(b)),
                1 => drop(ch.indirect(a).dict().pair(Name(b"A"), Str(&s)).pair(Name(b"B"), b)),
                2 => drop(ch.stream(a, &s).pair(Name(b"A"), Str(&s)).pair(Name(b"B"), b)),
                _ => drop(ch.indirect(a).array().item(b).item(Name(&s)).item(b).item(Str(&s))),
            }
            ch.indirect(b).primitive(a);
            let what = || format!("string shape {k} size {n} {}", layout(pretty));
            let objs = source(c, &what, &ch);
            check(c, &what, &ch, pretty, &objs, false, &m[0], 0);
            if n < 3000 {
                check(c, &what, &ch, pretty, &objs, false, &m[1], i % TARGETS);
            }
        }
    });
    c.note("strings, names and data of sizes", format!("{} sizes up to {}", ns.len(), ns[0]));

    c.phase("nested containers");
    let max = c.bound(400, 1100);
    par(max * 6, |i| {
        let (n, k) = (max - i / 6, i % 6);
        for pretty in [false, true] {
            let mut ch = Chunk::with_settings(settings(pretty));
            fn go(o: Obj<'_>, n: usize, k: usize) {
                if n == 0 {
                    o.array().item(Ref::new(3)).item(Str(b"(3 0 R")).item(Ref::new(4));
                } else if (k >> (n % 2)) & 1 == 0 {
                    let mut a = o.array();
                    if k < 4 {
                        a.item(Ref::new(4));
                    }
                    go(a.push(), n - 1, k);
                    a.item(Ref::new(3));
                } else {
                    let mut d = o.dict();
                    d.pair(Name(b"R"), Ref::new(3));
                    go(d.insert(Name(b"K")), n - 1, k);
                    if k < 4 {
                        d.pair(Name(b"0"), 3);
                    }
                }
            }
            go(ch.indirect(a), n, k);
            let what = || format!("containers of shape {k} nested {n} deep {}", layout(pretty));
            let objs = source(c, &what, &ch);
            check(c, &what, &ch, pretty, &objs, false, &m[i % 2], i / 6 % TARGETS);
        }
    });
    c.note("containers nested", max);

    c.phase("many references and objects");
    let ns: Vec<usize> = sizes(c.bound(9_000, 70_000)).into_iter().rev().chain([65_534, 65_535, 65_536, 65_537]).collect();
    par(ns.len() * 4, |i| {
        let (n, k) = (ns[i / 4] as i32, i % 4);
        let pretty = i / 4 % 2 == 0;
        let mut ch = Chunk::with_settings(settings(pretty));
        match k {
            0 => drop(ch.indirect(a).array().items((0..n).map(|j| Ref::new(j % 7 + 1)))),
            1 => {
                let mut d = ch.stream(a, b"3 0 R");
                for j in 0..n {
                    d.pair(Name(format!("K{j}").as_bytes()), Ref::new(j % 5 + 1));
                }
            }
            2 => {
                for j in 0..n {
                    ch.indirect(Ref::new(j + 1)).primitive(Ref::new(n - j));
                }
            }
            _ => {
                for j in 0..n {
                    ch.stream(Ref::new(n - j), b"3 0 R").pair(Name(b"K"), Ref::new(j + 1)).pair(Name(b"S"), Str(b"3 0 R"));
                }
            }
        }
        let what = || format!("{n} references or objects, shape {k}");
        let objs = source(c, &what, &ch);
        check(c, &what, &ch, pretty, &objs, false, &Map::Shift(1), if n < 3000 { i % TARGETS } else { 0 });
        check(c, &what, &ch, pretty, &objs, false, &m[1], 0);
    });
    c.note("references and objects", format!("{} counts up to {}", ns.len(), ns[0]));

    c.phase("digits");
    let mut edge: Vec<i32> = (0..31).flat_map(|k| [(1i32 << k) - 1, 1 << k]).collect();
    edge.extend((0..10).flat_map(|k| [10i32.pow(k) - 1, 10i32.pow(k), 10i32.pow(k) + 1]));
    edge.extend([i32::MAX, i32::MAX - 1]);
    edge.retain(|x| *x > 0);
    edge.sort();
    edge.dedup();
    par(edge.len() * edge.len(), |i| {
        let (x, y) = (edge[i / edge.len()], edge[i % edge.len()]);
        for pretty in [false, true] {
            let mut ch = Chunk::with_settings(settings(pretty));
            let r = Ref::new(x);
            ch.indirect(r).array().item(r).item(x).item(r).item(Name(b"")).item(r).item(r);
            let o = if x == 5 { 6 } else { 5 };
            ch.stream(Ref::new(o), b"").pair(Name(b"A"), r).pair(Name(b"B"), x).pair(Name(b"C"), Ref::new(o));
            let what = || format!("{x} becomes {y} {}", layout(pretty));
            let objs = source(c, &what, &ch);
            let map = Map::Table(vec![(x, y), (o, if y == 7 { 8 } else { 7 })]);
            check(c, &what, &ch, pretty, &objs, false, &map, i % TARGETS);
        }
    });
    c.note("old and new numbers at digit boundaries", edge.len());
}

/// Histories of writing, renumbering and concatenating over two chunks and a
/// document.
fn histories(c: &Ctx) {
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Write(usize),
        /// Replace a chunk with its renumbering.
        Own(usize, i32),
        /// Renumber the second into the first (2 is the document).
        Into(usize, usize, i32),
        Extend(usize, usize),
    }
    let mut alpha = vec![Op::Write(0), Op::Write(1), Op::Write(2)];
    for a in 0..2 {
        alpha.push(Op::Own(a, 10));
        alpha.push(Op::Extend(a, 1 - a));
        alpha.push(Op::Into(a, 1 - a, 10));
        alpha.push(Op::Into(2, a, 100));
    }
    alpha.push(Op::Into(0, 2, 10));
    alpha.push(Op::Extend(0, 2));
    let alpha = &alpha;
    let max = c.bound(5, 6);
    for len in 0..=max {
        c.phase(&format!("histories of {len} operations"));
        par(alpha.len().pow(len as u32), |i| {
            let s = seq(i, alpha.len(), len);
            let what = || {
                let v: Vec<_> = s.iter().map(|i| format!("{:?}", alpha[*i])).collect();
                format!("{} run {}", v.join("; "), i % 7)
            };
            let r = catch(|| {
                let mut st: Vec<Chunk> = (0..2).map(|k| Chunk::with_settings(settings((i + k) % 2 == 0))).collect();
                let mut doc = Pdf::with_settings(settings(i % 3 == 0));
                // Number, the reference inside, data.
                let mut model: Vec<Vec<(i32, i32, bool)>> = vec![vec![]; 3];
                let mut n = 0;
                for o in &s {
                    match alpha[*o] {
                        Op::Write(a) => {
                            n += 1;
                            let stream = (n as usize + i) % 2 == 0;
                            let ch = if a == 2 { &mut *doc } else { &mut st[a] };
                            if stream {
                                ch.stream(Ref::new(n), b"3 0 R").pair(Name(b"P"), Ref::new(n + 1)).pair(Name(b"Q"), Str(b"3 0 R"));
                            } else {
                                ch.indirect(Ref::new(n)).dict().pair(Name(b"P"), Ref::new(n + 1)).pair(Name(b"Q"), Str(b"3 0 R"));
                            }
                            model[a].push((n, n + 1, stream));
                        }
                        Op::Own(a, d) => {
                            st[a] = st[a].renumber(|r| Ref::new(r.get() + d));
                            model[a].iter_mut().for_each(|o| *o = (o.0 + d, o.1 + d, o.2));
                        }
                        Op::Into(a, b, d) => {
                            let from = if b == 2 { (*doc).clone() } else { st[b].clone() };
                            let ch = if a == 2 { &mut *doc } else { &mut st[a] };
                            from.renumber_into(ch, |r| Ref::new(r.get() + d));
                            let add: Vec<_> = model[b].iter().map(|o| (o.0 + d, o.1 + d, o.2)).collect();
                            model[a].extend(add);
                        }
                        Op::Extend(a, b) => {
                            let from = if b == 2 { (*doc).clone() } else { st[b].clone() };
                            st[a].extend(&from);
                            let add = model[b].clone();
                            model[a].extend(add);
                        }
                    }
                }
                (st, doc, model)
            });
            let (st, doc, model) = match r {
                Ok(r) => r,
                Err(p) => return c.fail(&what(), || format!("{}\npanicked: {p}", what())),
            };
            let verify = |objs: &[IObj], m: &[(i32, i32, bool)]| -> Result<(), String> {
                let ok = objs.len() == m.len()
                    && objs.iter().zip(m).all(|(o, m)| {
                        let refs = match &o.val {
                            V::Dict(d) => d.iter().any(|(k, v)| k == b"P" && *v == V::Ref(m.1 as i64, 0))
                                && d.iter().any(|(k, v)| k == b"Q" && *v == V::Str(b"3 0 R".to_vec()))
                                && d.len() == 2 + m.2 as usize,
                            _ => false,
                        };
                        o.num == m.0 as i64 && o.gen == 0 && refs && o.stream.as_deref() == m.2.then_some(b"3 0 R")
                    });
                ok.then_some(()).ok_or_else(|| format!("objects {objs:?}, expected {m:?}"))
            };
            for a in 0..3 {
                let ch = if a == 2 { &*doc } else { &st[a] };
                let r = || -> Result<(), String> {
                    if ch.refs().map(|r| r.get()).ne(model[a].iter().map(|o| o.0)) {
                        return Err("refs() differs".into());
                    }
                    // Renumber everything to distinct numbers to look at it.
                    let mut log = vec![];
                    let look = ch.renumber(|r| {
                        log.push(r.get() as i64);
                        Ref::new(log.len() as i32)
                    });
                    let old = |n: &mut i64| *n = log.get(*n as usize - 1).copied().unwrap_or(-1);
                    let mut objs = pdf::parse_chunk(look.as_bytes())?;
                    for o in &mut objs {
                        old(&mut o.num);
                        if let V::Dict(d) = &mut o.val {
                            for (_, v) in d {
                                if let V::Ref(n, _) = v {
                                    old(n);
                                }
                            }
                        }
                    }
                    verify(&objs, &model[a])?;
                    let mut p = Pdf::new();
                    p.extend(&look);
                    pdf::check_xref(&pdf::parse_doc(&p.finish(), None)?)
                };
                if let Err(e) = r() {
                    c.fail(&what(), || format!("{}\nchunk {a}: {e}\n{}", what(), show_out(ch.as_bytes())));
                }
            }
            let m = &model[2];
            let dup = m.iter().enumerate().any(|(i, a)| m[..i].iter().any(|b| a.0 == b.0));
            if !dup {
                let r = catch(|| {
                    let d = pdf::parse_doc(&doc.finish(), None)?;
                    pdf::check_xref(&d)?;
                    verify(&d.objs, m)
                });
                if let Err(e) | Ok(Err(e)) = r {
                    c.fail(&what(), || format!("{}\nfinished document: {e}", what()));
                }
            }
            c.states_by_construction(1);
            c.steps(len as u64 + 4);
            c.traces_n(1);
        });
    }
    c.note("histories", format!("all of up to {max} of {} operations", alpha.len()));
}

/// Objects in any spelling, through the hook.
#[cfg(pdf_writer_verif)]
fn raw(c: &Ctx) {
    let toks: &[&[u8]] = &[
        b"3 0 R", b" ", b"31\n7\tR", b"(3 0 R)", b"/R", b"7", b"\n", b"[", b"]", b"%3 0 R\n", b"<<", b">>", b"/K", b"0", b"(\\)3 0 R)",
        b"((4 0 R)\\( 3 0 R\n\\\\)", b"<3 0>", b"%(\r", b"003  00002\x0cR", b"/stream", b"/3#200#20R", b"true", b"-3", b".5", b"3 65535 R", b"%\n",
        b"/(", b"\0",
    ];
    let heads: &[&[u8]] = &[b"3 0 obj\n", b"3 7 obj", b"3\n65535\tobj ", b"3  1\r\n obj\r\n", b"03 00 obj\0"];
    let tails: &[&[u8]] = &[b"\nendobj\n\n", b" endobj\n", b"\r\n\r\nendobj\r", b"endobj "];
    let wraps: &[(&[u8], &[u8])] = &[(b"[", b"]"), (b"", b""), (b"<</A[", b"]>>"), (b"<< /B ", b">>")];
    let data: &[u8] = b"3 0 R (>>\nstream\n 3 0 R endobj\n";
    let m = [Map::Table(vec![(3, 10), (31, 3)]), Map::Fresh(5)];
    let max = c.bound(3, 4);
    for n in 0..=max {
        c.phase(&format!("raw objects of {n} tokens"));
        par(toks.len().pow(n as u32), |i| {
            let s: Vec<u8> = seq(i, toks.len(), n).iter().flat_map(|j| toks[*j]).copied().collect();
            for (w, (l, r)) in wraps.iter().enumerate() {
                let body = [*l, &s, *r].concat();
                if pdf::parse_value(&body).is_err() {
                    continue;
                }
                let few = if n <= 2 || c.thorough { heads.len() * tails.len() } else { 3 };
                for h in 0..few {
                    let (head, tail) = if few > 3 {
                        (heads[h / tails.len()], tails[h % tails.len()])
                    } else {
                        (heads[(h + i) % heads.len()], tails[(h + i / 5) % tails.len()])
                    };
                    for stream in [false, true] {
                        if stream && !l.starts_with(b"<<") {
                            continue;
                        }
                        let mut b = head.to_vec();
                        if stream {
                            b.extend(&body[..body.len() - 2]);
                            b.extend(format!("/Length {}>>", data.len()).bytes());
                            b.extend([&b"stream\r\n"[..], b"\nstream\n", b" \r\nstream\n"][i % 3]);
                            b.extend(data);
                            b.extend(b"\nendstream");
                        } else {
                            b.extend(&body);
                        }
                        // A regular character or comment must not run into the end keyword.
                        b.extend(tail);
                        let Ok(objs) = pdf::parse_chunk(&b) else { continue };
                        if objs.len() != 1 || stream != objs[0].stream.is_some() {
                            continue;
                        }
                        let mut ch = Chunk::with_settings(settings(i % 2 == 0));
                        let first = i % 5 == 0;
                        let what = || format!("raw object {:?} wrap {w}", show_bytes(&b));
                        if first {
                            ch.indirect(Ref::new(31)).primitive(Str(b"obj"));
                        }
                        ch.raw_object(Ref::new(3), &b);
                        if !first {
                            ch.indirect(Ref::new(31)).primitive(Ref::new(3));
                        }
                        let objs = source(c, &what, &ch);
                        check(c, &what, &ch, i % 2 == 0, &objs, true, &m[h % 2], i % TARGETS);
                    }
                }
            }
        });
    }
    // Runs of white space and long comments.
    c.phase("white space and comments");
    let ns: Vec<usize> = sizes(c.bound(5000, 70_000)).into_iter().rev().collect();
    let ws = b"\0\t\n\x0c\r ";
    par(ns.len() * 16 * (ws.len() + 1), |i| {
        let (n, k, w) = (ns[i / 16 / 7], i % 16, i / 16 % 7);
        let sp: Vec<u8> = if w < 6 { vec![ws[w]; n] } else { (0..n).map(|j| ws[j % 6]).collect() };
        let at = |p: usize| if k == p || k == 9 { [&sp[..], &ws[w % 6..w % 6 + 1]].concat() } else { b" ".to_vec() };
        let fill = |b: u8| vec![b; n];
        let body: Vec<u8> = match k {
            10 => [b"%", &fill(b'x')[..], b"( 3 0 R\n 3 0 R ", b"%"].concat(),
            11 => [b"3 0 R %", &fill(b'(')[..], b" 3 0 R\r31 0 R %"].concat(),
            12 => [b"%", &fill(b'%')[..], b") 3 0 R stream\n 3 0 R%"].concat(),
            13 => [&b"% (3 0 R\n".repeat(n.min(3000))[..], b"3 0 R%"].concat(),
            14 => [&b"%)\r3 0 R ".repeat(n.min(3000))[..], b"%"].concat(),
            15 => [b"(\\(", &fill(b' ')[..], b"% 3 0 R) %(\n"].concat(),
            _ => vec![],
        };
        let b = [
            &b"3"[..], &at(0), b"7", &at(1), b"obj", &at(2), b"[", &body, b"\n3", &at(3), b"0", &at(4), b"R", &at(5), b"31",
            &at(6), b"65535", &at(7), b"R]", &at(8), b"endobj\n",
        ]
        .concat();
        let Ok(objs) = pdf::parse_chunk(&b) else { return };
        if objs.len() != 1 {
            return;
        }
        let mut ch = Chunk::with_settings(settings(i % 2 == 0));
        ch.raw_object(Ref::new(3), &b);
        ch.indirect(Ref::new(31)).primitive(Ref::new(3));
        let what = || format!("raw object of shape {k} with {n} bytes of white space {w}");
        let objs = source(c, &what, &ch);
        check(c, &what, &ch, i % 2 == 0, &objs, true, &m[i % 2], i % TARGETS);
    });
    c.note("white space and comments", format!("{} lengths up to {}", ns.len(), ns[0]));
    c.note("raw objects", format!("all bodies of up to {max} of {} tokens that are valid objects, {} heads, {} tails", toks.len(), heads.len(), tails.len()));
}

#[cfg(not(pdf_writer_verif))]
fn raw(c: &Ctx) {
    c.note("raw objects", "not explored: hook not available");
}

fn explore() {
    let c = Ctx::new("C14");
    values(c);
    lookalikes(c);
    objects(c);
    extents(c);
    writers(c);
    histories(c);
    raw(c);
    c.finish()
}
