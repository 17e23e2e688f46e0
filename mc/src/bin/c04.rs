//! C04: header and trailer reflect the document-level settings.
use mc::gen::{layout, settings};
use mc::*;
use pdf_writer::*;

#[derive(Clone, Copy, Debug)]
enum Op {
    Version(u8, u8),
    Marker([u8; 4]),
    Id(&'static [u8], &'static [u8]),
    /// Identifiers of these many bytes.
    LongId(usize, usize),
    Catalog,
    Info,
    /// Catalog and information under numbers of their own.
    CatalogAt(i32),
    InfoAt(i32),
    Obj,
    Chunk,
}

const OPS: &[Op] = &[
    Op::Version(1, 4),
    Op::Marker(*b"ABCD"),
    Op::Id(b"one", b"two"),
    Op::Catalog,
    Op::Info,
    Op::Obj,
    Op::Version(2, 0),
    Op::Marker([0xff, 0, b'\n', b'%']),
    Op::Id(b"", b"\xff\x00("),
    Op::Chunk,
    Op::Version(10, 3),
    Op::Version(1, 10),
    Op::Version(9, 9),
    Op::Version(255, 255),
    Op::Version(0, 0),
    Op::Id(b")(", b""),
];

fn long_id(n: usize, second: bool) -> Vec<u8> {
    (0..n).map(|i| (i * 3 + i / 256 + second as usize) as u8).collect()
}

fn run(c: &Ctx, ops: &[Op], fin: u8, pretty: bool) {
    c.steps(ops.len() as u64 + 1);
    c.trace();
    let what = || format!("{} finish {fin}: {ops:?}", layout(pretty));
    let exec = |only_objects: bool| {
        let mut p = Pdf::with_settings(settings(pretty));
        for (i, op) in ops.iter().enumerate() {
            let id = Ref::new(i as i32 + 1);
            match op {
                Op::Version(a, b) if !only_objects => p.set_version(*a, *b),
                Op::Marker(m) if !only_objects => p.set_binary_marker(m),
                Op::Id(a, b) if !only_objects => p.set_file_id((a.to_vec(), b.to_vec())),
                Op::LongId(a, b) if !only_objects => p.set_file_id((long_id(*a, false), long_id(*b, true))),
                Op::Version(..) | Op::Marker(_) | Op::Id(..) | Op::LongId(..) => {}
                Op::CatalogAt(n) => {
                    p.catalog(Ref::new(*n)).pages(Ref::new(90));
                }
                Op::InfoAt(n) => {
                    p.document_info(Ref::new(*n)).title(TextStr("T"));
                }
                Op::Catalog => {
                    p.catalog(id).pages(Ref::new(90));
                }
                Op::Info => {
                    p.document_info(id).title(TextStr("T"));
                }
                Op::Obj => p.indirect(id).primitive(Str(b"%PDF-1.0\n%abcd\n")),
                Op::Chunk => {
                    let mut ch = Chunk::with_settings(settings(pretty));
                    ch.stream(id, b"%PDF-1.0");
                    p.extend(&ch);
                }
            }
        }
        match fin {
            0 => p.finish(),
            1 => p.finish_with_xref_stream(Ref::new(40)),
            _ => p.finish_with_xref_stream_and_filter(Ref::new(40), |d| {
                (d.to_vec(), XRefFilter::Multiple(vec![]))
            }),
        }
    };
    let (out, bare) = match catch(|| (exec(false), exec(true))) {
        Ok(o) => o,
        Err(p) => return c.fail(&what(), || format!("{}\npanicked: {p}", what())),
    };
    // Reference model.
    let (mut ver, mut marker) = ((1, 7), [0x80u8; 4]);
    let (mut root, mut info, mut fid) = (None, None, None);
    for (i, op) in ops.iter().enumerate() {
        let n = X::Ref(i as i64 + 1);
        match op {
            Op::Version(a, b) => {
                if *a < 10 {
                    ver.0 = *a
                }
                if *b < 10 {
                    ver.1 = *b
                }
            }
            Op::Marker(m) => marker = *m,
            Op::Id(a, b) => fid = Some(X::Arr(vec![X::Str(a.to_vec()), X::Str(b.to_vec())])),
            Op::LongId(a, b) => fid = Some(X::Arr(vec![X::Str(long_id(*a, false)), X::Str(long_id(*b, true))])),
            Op::CatalogAt(n) => root = Some(X::Ref(*n as i64)),
            Op::InfoAt(n) => info = Some(X::Ref(*n as i64)),
            Op::Catalog => root = Some(n),
            Op::Info => info = Some(n),
            _ => {}
        }
    }
    let r = (|| {
        let d = pdf::parse_doc(&out, None)?;
        pdf::check_xref(&d)?;
        if d.version != ver {
            return Err(format!("version {:?}, expected {ver:?}", d.version));
        }
        if d.marker != marker {
            return Err(format!("marker {:?}, expected {marker:?}", d.marker));
        }
        for (k, want) in [("Root", &root), ("Info", &info), ("ID", &fid)] {
            let got = match &d.trailer {
                pdf::V::Dict(e) => e.iter().filter(|(l, _)| l == k.as_bytes()).collect::<Vec<_>>(),
                _ => vec![],
            };
            let ok = match (want, &got[..]) {
                (None, []) => true,
                (Some(w), [(_, v)]) => matches(w, v),
                _ => false,
            };
            if !ok {
                return Err(format!("trailer {k} is {got:?}, expected {want:?}"));
            }
        }
        let known: &[&[u8]] = if fin == 0 {
            &[b"Size", b"Root", b"Info", b"ID"]
        } else {
            &[b"Size", b"Root", b"Info", b"ID", b"Type", b"Length", b"W", b"Filter"]
        };
        if let pdf::V::Dict(e) = &d.trailer {
            if let Some((k, _)) = e.iter().find(|(k, _)| !known.contains(&&k[..])) {
                return Err(format!("unexpected trailer entry {}", show_bytes(k)));
            }
        }
        // Nothing else is disturbed.
        let b = pdf::parse_doc(&bare, None)?;
        if out[15..d.startxref] != bare[15..b.startxref] {
            return Err("document-level calls changed other bytes".into());
        }
        Ok(())
    })();
    if let Err(e) = r {
        c.fail(&what(), || format!("{}\n{e}\nfile: {}", what(), show_out(&out)))
    }
    c.sample(what);
}

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C04");
    c.phase("versions");
    par(65536, |i| {
        let v = Op::Version((i >> 8) as u8, i as u8);
        run(c, &[v], (i % 3) as u8, true);
        if c.thorough || i % 7 == 0 || i >> 8 < 12 {
            run(c, &[Op::Obj, Op::Version(3, 2), v], 1, false);
        }
    });
    c.states_by_construction(65536);
    c.phase("markers");
    par(256 * 4, |i| {
        let mut m = *b"wxyz";
        m[i / 256] = i as u8;
        for fin in 0..3 {
            run(c, &[Op::Marker(m)], fin, true);
            run(c, &[Op::Catalog, Op::Marker([1; 4]), Op::Marker(m), Op::Version(1, 2)], fin, false);
        }
    });
    // Identifiers of every length.
    c.phase("identifiers");
    let mut ns: Vec<usize> = sizes(c.bound(70_000, 300_000)).into_iter().rev().collect();
    ns.extend(0..c.bound(300, 2000));
    par(ns.len() * 3, |i| {
        let (n, fin) = (ns[i / 3], (i % 3) as u8);
        run(c, &[Op::LongId(n, n)], fin, i % 2 == 0);
        run(c, &[Op::Id(b"x", b"y"), Op::Catalog, Op::LongId(n, 16), Op::Version(1, 6)], fin, true);
        run(c, &[Op::LongId(3, 2), Op::LongId(0, n), Op::Info], fin, false);
    });
    par(256 * 3, |i| {
        let b: &'static [u8] = Box::leak(vec![i as u8; 2].into());
        run(c, &[Op::Id(b, &b[1..])], (i / 256) as u8, true);
        run(c, &[Op::Id(&b[1..], b), Op::Obj], (i / 256) as u8, false);
    });
    c.note("identifier lengths", format!("{} up to {}", ns.len(), ns[0]));
    // The numbers of the catalog and the information dictionary.
    c.phase("numbers");
    let mut ns: Vec<usize> = sizes(c.bound(140_000, 1_000_000)).into_iter().rev().collect();
    ns.extend(1..c.bound(600, 3000));
    ns.retain(|n| !(1..=8).contains(n) && *n != 0 && !(38..=41).contains(n));
    par(ns.len(), |i| {
        let (n, fin) = (ns[i] as i32, (i % 3) as u8);
        run(c, &[Op::Obj, Op::CatalogAt(n), Op::Info], fin, true);
        run(c, &[Op::InfoAt(n), Op::CatalogAt(n + 1)], fin, false);
        run(c, &[Op::Catalog, Op::Obj, Op::InfoAt(n)], (fin + 1) % 3, false);
    });
    c.note("numbers of catalog and information", format!("{} up to {}", ns.len(), ns[0]));
    let max = c.bound(4, 5);
    let k = OPS.len();
    for n in 0..=max {
        c.phase(&format!("sequences of {n} calls"));
        par(k.pow(n as u32), |i| {
            let ops: Vec<Op> = seq(i, k, n).iter().map(|j| OPS[*j]).collect();
            for fin in 0..3 {
                for pretty in [true, false] {
                    run(c, &ops, fin, pretty);
                }
            }
        });
        c.states_by_construction(k.pow(n as u32) as u64);
    }
    c.note("call sequences up to length", max);
    c.note("call alphabet", k);
    c.finish()
}
