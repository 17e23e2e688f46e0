//! C12: streams carry exact data, exact length and correct framing.
use mc::gen::{layout, settings};
use mc::model::matches;
use mc::streams::{calls, want, Call, Ctor, CTORS};
use mc::*;
use pdf_writer::*;

fn main() {
    guard(explore)
}

/// What is written around the stream.
const AROUND: usize = 5;
fn neighbour(ch: &mut Chunk, n: i32, kind: usize) {
    match kind {
        0 => {}
        1 => ch.indirect(Ref::new(n)).primitive(1),
        2 => drop(ch.stream(Ref::new(n), b"endstream")),
        3 => drop(ch.indirect(Ref::new(n)).dict()),
        _ => drop(ch.stream(Ref::new(n), b"")),
    }
}

#[allow(clippy::too_many_arguments)]
fn one(c: &Ctx, ctor: &Ctor, data: &[u8], cs: &[Call], s: &[usize], before: usize, after: usize, pretty: bool) {
    let show = || {
        format!(
            "{} {} data {} ({} bytes) calls {} neighbours {before} {after}",
            ctor.name,
            layout(pretty),
            show_out(data),
            data.len(),
            s.iter().map(|i| cs[*i].label.clone()).collect::<Vec<_>>().join("; ")
        )
    };
    let r = catch(|| {
        let mut ch = Chunk::with_settings(settings(pretty));
        neighbour(&mut ch, 1, before);
        (ctor.run)(&mut ch, Ref::new(2), data, &mut |w| {
            for i in s {
                (cs[*i].run)(w);
            }
        });
        neighbour(&mut ch, 3, after);
        ch
    });
    let ch = match r {
        Ok(ch) => ch,
        Err(p) => return c.fail(&show(), || format!("{}\npanicked: {p}", show())),
    };
    let err = match pdf::parse_chunk(ch.as_bytes()) {
        Err(e) => Some(e),
        Ok(o) => {
            let n = (before > 0) as usize;
            if o.len() != 1 + n + (after > 0) as usize || o[n].num != 2 {
                Some(format!("{} objects found", o.len()))
            } else if o[n].stream.as_deref() != Some(data) {
                Some("the data differs".into())
            } else if !matches(&want(ctor, data, cs, s), &o[n].val) {
                Some(format!("the dictionary differs: {:?}", o[n].val))
            } else {
                None
            }
        }
    };
    if let Some(e) = err {
        c.fail(&show(), || format!("{}\n{e}\noutput: {}", show(), show_out(ch.as_bytes())));
    }
    if data.len() < 40 {
        c.sample(|| format!("{} -> {}", show(), show_out(ch.as_bytes())));
    }
    c.steps(s.len() as u64 + 3);
    c.traces_n(1);
}

const FRAGS: &[&[u8]] = &[
    b"endstream", b"\n", b"\r", b"endobj", b"stream", b"a", b" ", b"\r\n", b">>", b"<<", b"9 0 obj", b"/Length 3", b"(",
    b")", b"%", b"\x00", b"\xff", b"xref", b"trailer", b"startxref\n0\n%%EOF", b"%PDF-1.7", b"R", b"[", b"]", b"<", b"#",
];

fn explore() {
    let c = Ctx::new("C12");
    let cs = calls();
    let nc = CTORS.len();

    c.phase("all short data");
    // Up to two arbitrary bytes.
    for len in 0..=2u32 {
        par(256usize.pow(len), |i| {
            let data: Vec<u8> = seq(i, 256, len as usize).iter().map(|b| *b as u8).collect();
            if c.thorough || len < 2 {
                for ctor in CTORS {
                    for pretty in [false, true] {
                        one(c, ctor, &data, &cs, &[], i % AROUND, (i / 7) % AROUND, pretty);
                    }
                }
            } else {
                for pretty in [false, true] {
                    one(c, &CTORS[i % nc], &data, &cs, &[], (i / 3) % AROUND, (i / 7) % AROUND, pretty);
                }
            }
            c.states_by_construction(1);
        });
    }
    {
        par(1 << 24, |i| {
            let data = [(i >> 16) as u8, (i >> 8) as u8, i as u8];
            one(c, &CTORS[0], &data, &cs, &[], 0, 1, i % 2 == 0);
            c.states_by_construction(1);
        });
    }
    c.note("arbitrary data", "all of 0-3 bytes");

    c.phase("keyword fragments");
    let k = FRAGS.len();
    for len in 1..=c.bound(4, 5) {
        par(k.pow(len), |i| {
            let data = seq(i, k, len as usize).iter().map(|f| FRAGS[*f]).collect::<Vec<_>>().concat();
            for pretty in [false, true] {
                one(c, &CTORS[i % nc], &data, &cs, &[], (i / 3) % AROUND, (i / 7) % AROUND, pretty);
            }
            c.states_by_construction(1);
        });
    }
    c.note("keyword fragments", format!("all sequences of 1-{} over {k} fragments", c.bound(4, 5)));

    c.phase("lengths");
    let mut lens: Vec<usize> = (0..c.bound(6000, 30000)).collect();
    for p in 8..=c.bound(20, 25) {
        lens.extend([(1 << p) - 1, 1 << p, (1 << p) + 1]);
    }
    for p in 3..=c.bound(6, 7) {
        lens.extend([10usize.pow(p) - 1, 10usize.pow(p), 10usize.pow(p) + 1]);
    }
    let pats: [fn(usize) -> u8; 4] = [|i| (i * 7 + i / 251) as u8, |_| b'\n', |_| b'\r', |i| b"endstream\nendobj\n"[i % 17]];
    par(lens.len(), |i| {
        for (p, pat) in pats.iter().enumerate() {
            if lens[i] > 1 << 22 && p > 1 {
                continue;
            }
            let data: Vec<u8> = (0..lens[i]).map(pat).collect();
            for pretty in [false, true] {
                one(c, &CTORS[(i + p) % nc], &data, &cs, &[i % cs.len()], i % AROUND, i / 5 % AROUND, pretty);
            }
        }
        c.states_by_construction(1);
    });
    c.note("data lengths", format!("0-{} and around powers of 2 and 10 up to {}", c.bound(6000, 30000), lens.iter().max().unwrap()));

    c.phase("dictionary calls");
    const DATAS: [&[u8]; 4] = [b"", b"endstream\r", b"\nx\n", b"<</Length 9>>\nstream\n\nendstream endobj"];
    for len in 0..=c.bound(3, 4) {
        par(cs.len().pow(len as u32), |i| {
            let s = seq(i, cs.len(), len);
            if s.iter().enumerate().any(|(n, a)| s[..n].iter().any(|b| cs[*a].key == cs[*b].key)) {
                return;
            }
            if len < 3 {
                for ctor in CTORS {
                    for d in DATAS {
                        for pretty in [false, true] {
                            one(c, ctor, d, &cs, &s, i % AROUND, i / 7 % AROUND, pretty);
                        }
                    }
                }
            } else {
                for pretty in [false, true] {
                    one(c, &CTORS[i % nc], DATAS[i / 3 % 4], &cs, &s, i % AROUND, i / 7 % AROUND, pretty);
                }
            }
            c.states_by_construction(1);
        });
    }
    c.note("dictionary calls", format!("all sequences of 0-{} over {} calls", c.bound(3, 4), cs.len()));
    // Many entries.
    c.phase("many entries");
    let mut ns: Vec<usize> = sizes(c.bound(70_000, 300_000)).into_iter().rev().collect();
    ns.extend(0..c.bound(300, 1500));
    par(ns.len() * 4, |i| {
        let (n, j) = (ns[i / 4], i % 4);
        let ctor = &CTORS[(i / 4 + j * 3) % nc];
        let pretty = i / 4 % 2 == 0;
        let data = DATAS[(i + i / 4) % 4];
        let what = || format!("{} with {n} entries of kind {j} {}", ctor.name, layout(pretty));
        let r = catch(|| {
            let mut ch = Chunk::with_settings(settings(pretty));
            (ctor.run)(&mut ch, Ref::new(2), data, &mut |w| {
                for e in 0..n {
                    let k = format!("k{e}");
                    match j {
                        0 => drop(w.pair(Name(k.as_bytes()), e as i32)),
                        1 => w.insert(Name(k.as_bytes())).primitive(Name(b"")),
                        2 => drop(w.insert(Name(k.as_bytes())).dict().pair(Name(b"Length"), 7)),
                        _ => drop(w.insert(Name(k.as_bytes())).array().item(Str(b"endstream"))),
                    }
                }
            });
            ch.indirect(Ref::new(3)).primitive(1);
            ch
        });
        let e = r.and_then(|ch| {
            let o = pdf::parse_chunk(ch.as_bytes())?;
            let pdf::V::Dict(d) = &o[0].val else { return Err("no dictionary".into()) };
            let head = pdf::V::Dict(d[..d.len().saturating_sub(n)].to_vec());
            let same = |(e, (k, v)): (usize, &(Vec<u8>, pdf::V))| {
                *k == format!("k{e}").into_bytes()
                    && *v == match j {
                        0 => pdf::V::Int(e as i64),
                        1 => pdf::V::Name(vec![]),
                        2 => pdf::V::Dict(vec![(b"Length".to_vec(), pdf::V::Int(7))]),
                        _ => pdf::V::Arr(vec![pdf::V::Str(b"endstream".to_vec())]),
                    }
            };
            if o.len() != 2 || o[0].stream.as_deref() != Some(data) || !matches(&want(ctor, data, &cs, &[]), &head) {
                return Err(format!("{} objects, data or other entries differ", o.len()));
            }
            let tail = &d[d.len().saturating_sub(n)..];
            if tail.len() != n || !tail.iter().enumerate().all(same) {
                return Err(format!("{} entries or others", tail.len()));
            }
            Ok(())
        });
        if let Err(e) = e {
            c.fail(&what(), || format!("{}: {e}", what()));
        }
        c.states_by_construction(1);
        c.steps(n as u64 + 2);
        c.traces_n(1);
    });
    c.note("entries", format!("{} numbers of entries up to {}", ns.len(), ns[0]));
    // The specific writers around streams, with everything they offer.
    c.phase("typed stream writers");
    let t: Vec<tab::Table> = tables::graphics()
        .into_iter()
        .chain(tables::document())
        .chain(tables::interactive())
        .filter(|t| t.stream || t.name == "DecodeParms")
        .collect();
    tab::explore(c, &t);

    documents(c, &cs);
    contents(c);
    c.finish()
}

/// Documents of several streams, with and without a cross-reference stream, put
/// together directly or from chunks.
fn documents(c: &Ctx, cs: &[Call]) {
    c.phase("documents of streams");
    const D: [&[u8]; 6] = [b"", b"\n", b"endstream\nendobj\n2 0 obj\n", b"x\r", b"\xfe\xff", b">>"];
    let k = D.len();
    for len in 1..=c.bound(4, 5) {
        par(k.pow(len as u32) * 8, |i| {
            let s = seq(i / 8, k, len);
            let (pretty, xref, split) = (i % 2 == 0, i / 2 % 2 == 0, i / 4 % 2 == 0);
            let mut p = Pdf::with_settings(settings(pretty));
            for (n, d) in s.iter().enumerate() {
                let ctor = &CTORS[(i + n * 3) % CTORS.len()];
                let id = Ref::new(n as i32 + 1);
                let call = (i + n) % cs.len();
                if split {
                    let mut ch = Chunk::with_settings(settings(pretty));
                    (ctor.run)(&mut ch, id, D[*d], &mut |w| (cs[call].run)(w));
                    p.extend(&ch);
                } else {
                    (ctor.run)(&mut p, id, D[*d], &mut |w| (cs[call].run)(w));
                }
            }
            let out = if xref { p.finish_with_xref_stream(Ref::new(9)) } else { p.finish() };
            let show = || format!("document of streams {s:?} {} xref stream {xref} chunks {split}", layout(pretty));
            let r = pdf::parse_doc(&out, None).and_then(|d| pdf::check_xref(&d).map(|_| d));
            match r {
                Err(e) => c.fail(&show(), || format!("{}: {e}\n{}", show(), show_out(&out))),
                Ok(doc) => {
                    let ok = doc.objs.len() == len + xref as usize
                        && s.iter().enumerate().all(|(n, d)| {
                            let ctor = &CTORS[(i + n * 3) % CTORS.len()];
                            doc.obj(n as i64 + 1).is_some_and(|o| {
                                o.stream.as_deref() == Some(D[*d])
                                    && matches(&want(ctor, D[*d], cs, &[(i + n) % cs.len()]), &o.val)
                            })
                        });
                    c.check(ok, &show(), || format!("{}\n{}", show(), show_out(&out)));
                }
            }
            c.states_by_construction(1);
            c.steps(len as u64 * 2 + 1);
            c.traces_n(1);
        });
    }
    c.note("documents", format!("all sequences of 1-{} streams over {k} data, directly and from chunks", c.bound(4, 5)));
}

/// Content streams and cross-reference streams end up as stream data unchanged.
fn contents(c: &Ctx) {
    c.phase("content streams as data");
    let ops = ops::ops();
    let plain: Vec<usize> = (0..ops.len()).filter(|i| ops[*i].plain).collect();
    for len in 0..=2u32 {
        par(plain.len().pow(len), |i| {
            let s: Vec<usize> = seq(i, plain.len(), len as usize).iter().map(|j| plain[*j]).collect();
            for pretty in [false, true] {
                let mut ct = Content::with_settings(settings(pretty));
                for j in &s {
                    (ops[*j].run)(&mut ct);
                }
                let buf = ct.finish();
                let bytes = buf.as_slice().to_vec();
                let mut ch = Chunk::with_settings(settings(pretty));
                ch.stream(Ref::new(1), &buf).filter(Filter::Crypt);
                ch.form_xobject(Ref::new(2), &bytes).bbox(Rect::new(0.0, 0.0, 1.0, 1.0));
                let ok = pdf::parse_chunk(ch.as_bytes()).is_ok_and(|o| {
                    o.len() == 2 && o.iter().all(|o| o.stream.as_deref() == Some(&bytes[..]))
                });
                let show = || s.iter().map(|j| ops[*j].label.clone()).collect::<Vec<_>>().join("; ");
                c.check(ok, &show(), || format!("content {}: {}", show(), show_out(ch.as_bytes())));
                c.traces_n(1);
                c.steps(s.len() as u64 + 2);
            }
            c.states_by_construction(1);
        });
    }
}
