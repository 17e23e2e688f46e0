//! C18: Unicode character maps map exactly the given glyphs.
use mc::pdf::{Lex, Tok};
use mc::tab::{hinted, user};
use mc::*;
use pdf_writer::types::{GlyphId, SystemInfo, UnicodeCmap};
use pdf_writer::writers::WMode;
use pdf_writer::{Name, Str};
use std::collections::BTreeMap;

fn main() {
    guard(explore)
}

/// Operands of the PostScript subset character maps are written in.
#[derive(Clone, Debug, PartialEq)]
enum P {
    Int(i64),
    Name(Vec<u8>),
    Str(Vec<u8>),
    Dict(usize),
    Mark(&'static str, i64),
    /// A resource loaded by `findresource`.
    Res(Vec<u8>, Vec<u8>),
}

/// What interpreting a character map gives.
#[derive(Default, Debug)]
struct CMap {
    dicts: Vec<BTreeMap<Vec<u8>, P>>,
    code: Vec<(Vec<u8>, Vec<u8>)>,
    map: Vec<(Vec<u8>, Vec<u8>)>,
    sections: Vec<i64>,
    defined: Vec<(P, usize, Vec<u8>)>,
    begun: u32,
    ended: u32,
}

/// Interpret the program as PostScript.
fn interpret(d: &[u8]) -> Result<CMap, String> {
    let mut m = CMap::default();
    let mut st: Vec<P> = vec![];
    let mut scope: Vec<Option<usize>> = vec![];
    let mut l = Lex::new(d);
    if !d.starts_with(b"%!PS") {
        return Err("no header".into());
    }
    while let Some(t) = l.next()? {
        let w = match t {
            Tok::Int(i) => {
                st.push(P::Int(i));
                continue;
            }
            Tok::Name(n) => {
                st.push(P::Name(n));
                continue;
            }
            Tok::Str(s) => {
                st.push(P::Str(s));
                continue;
            }
            Tok::Word(w) => w,
            t => return Err(format!("unexpected {t:?}")),
        };
        let mut pop = || st.pop().ok_or("stack underflow".to_string());
        match w.as_slice() {
            b"findresource" => {
                let (cat, key) = (pop()?, pop()?);
                match (cat, key) {
                    (P::Name(c), P::Name(k)) => st.push(P::Res(c, k)),
                    _ => return Err("findresource operands".into()),
                }
            }
            b"dict" => match pop()? {
                P::Int(n) if n >= 0 => {
                    m.dicts.push(BTreeMap::new());
                    st.push(P::Dict(m.dicts.len() - 1));
                }
                _ => return Err("dict operand".into()),
            },
            b"dup" => {
                let t = pop()?;
                st.push(t.clone());
                st.push(t);
            }
            b"pop" => drop(pop()?),
            b"begin" => match pop()? {
                P::Dict(i) => scope.push(Some(i)),
                P::Res(c, k) if c == b"ProcSet" && k == b"CIDInit" => scope.push(None),
                t => return Err(format!("begin {t:?}")),
            },
            b"end" => drop(scope.pop().ok_or("end without begin")?),
            b"def" => {
                let (v, k) = (pop()?, pop()?);
                match (k, scope.last()) {
                    (P::Name(k), Some(Some(i))) => {
                        if m.dicts[*i].insert(k.clone(), v).is_some() {
                            return Err(format!("{} defined twice", show_bytes(&k)));
                        }
                    }
                    k => return Err(format!("def {k:?}")),
                }
            }
            b"currentdict" => match scope.last() {
                Some(Some(i)) => st.push(P::Dict(*i)),
                _ => return Err("currentdict".into()),
            },
            b"defineresource" => {
                let (cat, inst, key) = (pop()?, pop()?, pop()?);
                match (cat, inst) {
                    (P::Name(c), P::Dict(i)) => {
                        m.defined.push((key, i, c));
                        st.push(P::Dict(i));
                    }
                    _ => return Err("defineresource operands".into()),
                }
            }
            b"begincmap" => m.begun += 1,
            b"endcmap" => m.ended += 1,
            b"begincodespacerange" | b"beginbfchar" | b"beginbfrange" => {
                let P::Int(n) = pop()? else { return Err("section without count".into()) };
                if m.begun != 1 || m.ended != 0 {
                    return Err("section outside the map".into());
                }
                if !(1..=100).contains(&n) {
                    return Err(format!("section of {n} entries"));
                }
                if w[5] == b'b' {
                    m.sections.push(n);
                }
                st.push(P::Mark(if w[5] == b'c' { "code" } else if w.ends_with(b"char") { "char" } else { "range" }, n));
            }
            b"endcodespacerange" | b"endbfchar" | b"endbfrange" => {
                let mut v = vec![];
                let (kind, n) = loop {
                    match pop()? {
                        P::Str(s) => v.push(s),
                        P::Mark(k, n) => break (k, n),
                        t => return Err(format!("{t:?} in a section")),
                    }
                };
                v.reverse();
                let per = if kind == "range" { 3 } else { 2 };
                let end = match kind { "code" => &b"endcodespacerange"[..], "char" => b"endbfchar", _ => b"endbfrange" };
                if w != end {
                    return Err("section ended by another operator".into());
                }
                if v.len() as i64 != n * per {
                    return Err(format!("section announces {n} entries and has {} operands", v.len()));
                }
                for e in v.chunks(per as usize) {
                    match kind {
                        "code" => m.code.push((e[0].clone(), e[1].clone())),
                        "char" => m.map.push((e[0].clone(), e[1].clone())),
                        _ => {
                            // A range: the last byte of code and text count up.
                            let (a, b, mut t) = (e[0].clone(), e[1].clone(), e[2].clone());
                            let n = a.len();
                            if n == 0 || b.len() != n || a[..n - 1] != b[..n - 1] || a[n - 1] > b[n - 1] {
                                return Err("bad range".into());
                            }
                            for x in a[n - 1]..=b[n - 1] {
                                let mut code = a.clone();
                                code[n - 1] = x;
                                m.map.push((code, t.clone()));
                                if x < b[n - 1] {
                                    match t.last_mut() {
                                        Some(l) if *l < 255 => *l += 1,
                                        _ => return Err("range carries over".into()),
                                    }
                                }
                            }
                        }
                    }
                }
            }
            w => {
                // Executable names bound in the open dictionaries.
                let v = scope.iter().rev().flatten().find_map(|i| m.dicts[*i].get(w)).cloned();
                st.push(v.ok_or_else(|| format!("undefined operator {}", show_bytes(w)))?);
            }
        }
    }
    if !st.is_empty() || !scope.is_empty() {
        return Err(format!("unbalanced: stack {st:?}, {} open dictionaries", scope.len()));
    }
    if (m.begun, m.ended) != (1, 1) {
        return Err("not exactly one begincmap and endcmap".into());
    }
    Ok(m)
}

struct Input<'a> {
    name: &'a [u8],
    reg: &'a [u8],
    ord: &'a [u8],
    supp: i32,
    mode: Option<WMode>,
}
const PLAIN: Input = Input { name: b"Custom", reg: b"Adobe", ord: b"UCS", supp: 0, mode: None };

/// The glyph type's abstraction for the explorer.
trait G: GlyphId + Copy + Sync {
    const WIDTH: usize;
    fn of(i: u16) -> Self;
}
impl G for u8 {
    const WIDTH: usize = 1;
    fn of(i: u16) -> u8 {
        i as u8
    }
}
impl G for u16 {
    const WIDTH: usize = 2;
    fn of(i: u16) -> u16 {
        i
    }
}
fn code<T: G>(i: u16) -> Vec<u8> {
    if T::WIDTH == 1 { vec![i as u8] } else { i.to_be_bytes().to_vec() }
}

fn verify<T: G>(out: &[u8], inp: &Input, maps: &[(u16, &[char])]) -> Result<(), String> {
    let m = interpret(out)?;
    // The codespace covers the type and nothing else.
    let mut cs = m.code.clone();
    cs.sort();
    let mut next: Option<u32> = Some(0);
    for (a, b) in &cs {
        if a.len() != T::WIDTH || b.len() != T::WIDTH {
            return Err(format!("codespace of {} bytes", a.len()));
        }
        let v = |s: &[u8]| s.iter().fold(0, |x, y| x << 8 | *y as u32);
        if next != Some(v(a)) || v(b) < v(a) {
            return Err("the codespace has gaps or overlaps".into());
        }
        next = Some(v(b) + 1);
    }
    if next != Some(1 << (8 * T::WIDTH)) {
        return Err("the codespace does not cover the glyph type".into());
    }
    if m.map.len() != maps.len() {
        return Err(format!("{} mappings, expected {}", m.map.len(), maps.len()));
    }
    for (i, ((c, t), (g, text))) in m.map.iter().zip(maps).enumerate() {
        let mut want = vec![];
        for ch in *text {
            for u in ch.encode_utf16(&mut [0; 2]) {
                want.extend(u.to_be_bytes());
            }
        }
        if *c != code::<T>(*g) || *t != want {
            return Err(format!("mapping {i}: {c:02x?} -> {t:02x?}, expected {:02x?} -> {want:02x?}", code::<T>(*g)));
        }
    }
    let [(key, d, cat)] = m.defined.as_slice() else { return Err("not one resource".into()) };
    let d = &m.dicts[*d];
    let get = |d: &BTreeMap<Vec<u8>, P>, k: &str| d.get(k.as_bytes()).cloned();
    let wmode = match inp.mode { Some(WMode::Vertical) => 1, _ => 0 };
    if cat != b"CMap" || *key != P::Name(inp.name.to_vec()) {
        return Err(format!("defined as {key:?}"));
    }
    if get(d, "CMapName") != Some(P::Name(inp.name.to_vec())) {
        return Err(format!("CMapName {:?}", get(d, "CMapName")));
    }
    if get(d, "WMode") != Some(P::Int(wmode)) {
        return Err(format!("WMode {:?}", get(d, "WMode")));
    }
    if !matches!(get(d, "CMapType"), Some(P::Int(0 | 2))) {
        return Err(format!("CMapType {:?}", get(d, "CMapType")));
    }
    let Some(P::Dict(i)) = get(d, "CIDSystemInfo") else { return Err("no CIDSystemInfo".into()) };
    let s = &m.dicts[i];
    let ok = s.len() == 3
        && get(s, "Registry") == Some(P::Str(inp.reg.to_vec()))
        && get(s, "Ordering") == Some(P::Str(inp.ord.to_vec()))
        && get(s, "Supplement") == Some(P::Int(inp.supp as i64));
    if !ok {
        return Err(format!("CIDSystemInfo {s:?}"));
    }
    Ok(())
}

fn check<T: G>(c: &Ctx, inp: &Input, maps: &[(u16, &[char])]) {
    let what = || {
        let s = format!(
            "u{} name={:?} registry={:?} ordering={:?} supplement={} mode={:?} mappings={:?}",
            8 * T::WIDTH, Name(inp.name), Str(inp.reg), Str(inp.ord), inp.supp, inp.mode, maps
        );
        if s.len() > 500 { format!("{}… ({} mappings)", &s[..s.floor_char_boundary(500)], maps.len()) } else { s }
    };
    c.states_by_construction(1);
    c.steps(maps.len() as u64 + 2);
    c.traces_n(1);
    let info = SystemInfo { registry: Str(inp.reg), ordering: Str(inp.ord), supplement: inp.supp };
    let hint = maps.len() + maps.iter().map(|m| m.1.len() + m.0 as usize).sum::<usize>();
    let r = catch(|| hinted(hint, || {
        let mut m = match inp.mode {
            None => UnicodeCmap::<T>::new(Name(inp.name), info),
            Some(w) => UnicodeCmap::<T>::with_writing_mode(Name(inp.name), info, w),
        };
        for (i, (g, t)) in maps.iter().enumerate() {
            match t {
                // The same through both methods.
                [ch] if i % 2 == 0 => m.pair(T::of(*g), *ch),
                t => m.pair_with_multiple(T::of(*g), user(t.iter().copied())),
            }
        }
        m.finish()
    }));
    match r {
        Err(e) => c.fail(&what(), || format!("{} panicked: {e}", what())),
        Ok(b) => {
            if let Err(e) = verify::<T>(b.as_slice(), inp, maps) {
                c.fail(&what(), || format!("{}\n{e}\noutput: {}", what(), show_out(b.as_slice())));
            }
            c.sample(|| format!("{} -> {} bytes", what(), b.as_slice().len()));
        }
    }
}

fn both(c: &Ctx, inp: &Input, maps: &[(u16, &[char])]) {
    check::<u16>(c, inp, maps);
    check::<u8>(c, inp, &maps.iter().map(|(g, t)| (*g & 0xff, *t)).collect::<Vec<_>>());
}

fn explore() {
    let c = Ctx::new("C18");
    const TEXTS: &[&[char]] = &[
        &['a'], &[], &['\0'], &['\u{ffff}'], &['\u{10000}'], &['\u{10ffff}'], &['f', 'i'],
        &['\u{1d11e}', 'x', '\u{e000}'], &['\u{d7ff}', '\u{feff}'], &['>', '<'],
    ];
    const GLYPHS: &[u16] = &[0, 1, 255, 256, 0x0a0d, 0x3c3e, u16::MAX];

    c.phase("short mapping sequences");
    let alpha: Vec<(u16, &[char])> =
        GLYPHS.iter().flat_map(|g| TEXTS.iter().map(|t| (*g, *t))).collect();
    let modes = [None, Some(WMode::Horizontal), Some(WMode::Vertical)];
    for mode in modes {
        let inp = Input { mode, ..PLAIN };
        all_seqs(alpha.len(), 2, |s| {
            let m: Vec<_> = s.iter().map(|i| alpha[*i]).collect();
            both(c, &inp, &m);
        });
    }
    if c.thorough {
        par(alpha.len().pow(3), |i| {
            let m: Vec<_> = seq(i, alpha.len(), 3).iter().map(|i| alpha[*i]).collect();
            both(c, &PLAIN, &m);
        });
    }

    c.phase("section boundaries");
    // Every number of mappings, in several patterns of texts.
    par(c.bound(420, 2100), |n| {
        for pat in 0..3 {
            let m: Vec<(u16, &[char])> = (0..n)
                .map(|i| (i as u16, match pat { 0 => TEXTS[0], 1 => TEXTS[i % TEXTS.len()], _ => &[] as &[char] }))
                .collect();
            both(c, &PLAIN, &m);
            let rev: Vec<_> = m.iter().rev().copied().collect();
            both(c, &PLAIN, &rev);
        }
    });

    // Many mappings; glyphs repeat beyond the size of their type.
    c.phase("many mappings");
    let ns = sizes(c.bound(70_000, 300_000));
    par(ns.len() * 3, |i| {
        let n = ns[ns.len() - 1 - i / 3];
        let m: Vec<(u16, &[char])> = (0..n)
            .map(|j| match i % 3 {
                0 => (j as u16, TEXTS[j / 3 % TEXTS.len()]),
                1 => ((n - j) as u16, TEXTS[0]),
                _ => ((j / 2) as u16, TEXTS[6 + j % 2]),
            })
            .collect();
        both(c, &PLAIN, &m);
    });
    c.note("numbers of mappings", format!("0-{} and {} sizes up to {}", c.bound(420, 2100) - 1, ns.len(), ns.iter().max().unwrap()));
    c.phase("all glyphs");
    let all: Vec<char> = (0..=0x10ffffu32).filter_map(char::from_u32).collect();
    let m: Vec<(u16, &[char])> = (0..=u16::MAX).map(|g| (g, &all[g as usize * 16..][..1])).collect();
    check::<u16>(c, &PLAIN, &m);
    for rot in 0..256 {
        let m: Vec<(u16, &[char])> =
            (0..=255).map(|g| (g, TEXTS[(g as usize + rot) % TEXTS.len()])).collect();
        check::<u8>(c, &PLAIN, &m);
    }
    c.phase("all characters");
    // Every character as single text, and as second of a pair.
    let n = all.len();
    par(n.div_ceil(1000), |k| {
        let m: Vec<(u16, &[char])> =
            (k * 1000..n.min(k * 1000 + 1000)).map(|i| (i as u16, &all[i..=i])).collect();
        both(c, &PLAIN, &m);
        let m: Vec<(u16, &[char])> =
            (k * 1000..n.min(k * 1000 + 1000)).map(|i| (!i as u16, &all[i.saturating_sub(1)..=i])).collect();
        both(c, &PLAIN, &m);
    });
    c.phase("text lengths");
    for len in 0..c.bound(600, 5000) {
        let t: Vec<char> = (0..len).map(|i| all[(i * 7919) % n]).collect();
        both(c, &PLAIN, &[(1, &t), (2, TEXTS[0])]);
    }

    par(ns.len(), |i| {
        let len = ns[ns.len() - 1 - i];
        let t: Vec<char> = (0..len).map(|i| all[(i * 7919) % n]).collect();
        both(c, &PLAIN, &[(1, &t), (2, TEXTS[0]), (3, &t[..len / 2])]);
        let s: Vec<u8> = (0..len).map(|j| b"a)(\\ b%\xff"[(j + i) % 8]).collect();
        let maps: &[(u16, &[char])] = &[(3, TEXTS[0])];
        check::<u16>(c, &Input { name: &s, ..PLAIN }, maps);
        check::<u16>(c, &Input { reg: &s, ..PLAIN }, maps);
        check::<u8>(c, &Input { ord: &s, ..PLAIN }, maps);
    });
    c.note("lengths of texts, names and strings", format!("0-{} and {} sizes", c.bound(600, 5000) - 1, ns.len()));
    c.phase("names and strings");
    let maps: &[(u16, &[char])] = &[(3, TEXTS[0]), (4, TEXTS[6])];
    // All byte strings of up to two bytes in each position.
    par(1 + 256 + 65536, |i| {
        let s: Vec<u8> = match i {
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            i => ((i - 257) as u16).to_be_bytes().to_vec(),
        };
        check::<u16>(c, &Input { name: &s, ..PLAIN }, maps);
        check::<u16>(c, &Input { reg: &s, ..PLAIN }, maps);
        check::<u16>(c, &Input { ord: &s, ..PLAIN }, maps);
    });
    // Longer ones over what is special in the syntax.
    const NASTY: &[&[u8]] = &[
        b"", b"a", b")", b"(", b"\\", b"\n", b"\r", b"\x0c", b"%", b"endcmap ", b"> def\n/X", b"\n%%EOF\n", b"\xff",
        b"\x00", b"%%EndComments\n",
    ];
    let k = NASTY.len();
    let cat = |i: usize, n: usize| -> Vec<u8> {
        seq(i, k, n).iter().flat_map(|j| NASTY[*j].iter().copied()).collect()
    };
    let deep = c.bound(4, 5);
    par(k.pow(deep), |i| {
        let s = cat(i, deep as usize);
        check::<u16>(c, &Input { name: &s, ..PLAIN }, maps);
        check::<u16>(c, &Input { reg: &s, ..PLAIN }, maps);
        check::<u8>(c, &Input { ord: &s, ..PLAIN }, &[]);
    });
    // All combinations of the three.
    par((k * k).pow(3), |i| {
        let s = seq(i, k * k, 3);
        let (a, b, d) = (cat(s[0], 2), cat(s[1], 2), cat(s[2], 2));
        if c.thorough || s.iter().filter(|i| **i < k).count() >= 2 {
            check::<u8>(c, &Input { name: &a, reg: &b, ord: &d, supp: i as i32, mode: None }, maps);
        }
    });
    for supp in [0, 1, 9, 10, -1, 255, 65536, i32::MAX, i32::MIN] {
        for mode in modes {
            both(c, &Input { supp, mode, ..PLAIN }, maps);
        }
    }
    c.note("mapping sequences", format!("all of up to {} over {} mappings in three writing modes", c.bound(2, 3), alpha.len()));
    c.note("names and strings", format!("all of up to 2 bytes; all of up to {deep} of {k} fragments"));
    c.finish()
}
