//! C02: the cross-reference stream carries the same information as the table.
use mc::doc::{arrangements, build, runs, show, verify, Step};
use mc::gen::{layout, settings};
use mc::kinds::KINDS;
use mc::*;
use pdf_writer::*;
use std::cell::RefCell;

const FILTERS: &[(Filter, &str)] = &[
    (Filter::AsciiHexDecode, "ASCIIHexDecode"),
    (Filter::Ascii85Decode, "ASCII85Decode"),
    (Filter::LzwDecode, "LZWDecode"),
    (Filter::FlateDecode, "FlateDecode"),
    (Filter::RunLengthDecode, "RunLengthDecode"),
    (Filter::CcittFaxDecode, "CCITTFaxDecode"),
    (Filter::Jbig2Decode, "JBIG2Decode"),
    (Filter::DctDecode, "DCTDecode"),
    (Filter::JpxDecode, "JPXDecode"),
    (Filter::Crypt, "Crypt"),
];

fn run(c: &Ctx, steps: &[Step], xref: i32) {
    for pretty in [true, false] {
        c.steps(steps.len() as u64 + 1);
        c.trace();
        let what = format!("{} xref {xref}: {}", layout(pretty), show(steps));
        let out = match catch(|| build(pretty, steps).finish_with_xref_stream(Ref::new(xref))) {
            Ok(o) => o,
            Err(p) => return c.fail(&format!("panic {what}"), || format!("{what}\npanicked: {p}")),
        };
        let r = verify(&out, steps, Some(xref), None).and_then(|d| {
            let x = d.xref_stream.as_ref().unwrap();
            let keys = |v: &pdf::V| match v {
                pdf::V::Dict(d) => {
                    let mut k: Vec<_> =
                        d.iter().map(|(k, _)| String::from_utf8_lossy(k).into_owned()).collect();
                    k.sort();
                    k
                }
                _ => vec![],
            };
            if keys(&x.val) != ["Length", "Size", "Type", "W"] {
                return Err(format!("xref stream dictionary has {:?}", keys(&x.val)));
            }
            // Same information as the table of a file with the same history
            // plus one more object under the stream's number.
            let mut p = build(pretty, steps);
            p.indirect(Ref::new(xref)).primitive(Null);
            let t = pdf::parse_doc(&p.finish(), None)?;
            if t.entries != d.entries {
                return Err(format!("stream {:?}\ntable {:?}", d.entries, t.entries));
            }
            Ok(())
        });
        if let Err(e) = r {
            c.fail(&what, || format!("{what}\n{e}\nfile: {}", show_out(&out)))
        }
        c.sample(|| what);
    }
    c.states_by_construction(1);
}

fn filtered(c: &Ctx, steps: &[Step], xref: i32, codec: usize, list: Option<&[usize]>) {
    // The codec is ours: any bijection will do.
    let enc = |d: &[u8]| -> Vec<u8> {
        match codec {
            0 => d.to_vec(),
            1 => d.iter().rev().map(|b| b ^ 0x5a).collect(),
            2 => d.iter().flat_map(|b| [*b, b'\n']).collect(),
            _ => [b"endstream\n", d].concat(),
        }
    };
    let dec = |d: &[u8]| -> Vec<u8> {
        match codec {
            0 => d.to_vec(),
            1 => d.iter().rev().map(|b| b ^ 0x5a).collect(),
            2 => d.iter().step_by(2).copied().collect(),
            _ => d[10.min(d.len())..].to_vec(),
        }
    };
    for pretty in [true, false] {
        c.steps(steps.len() as u64 + 1);
        c.trace();
        let seen = RefCell::new(vec![]);
        let what = format!("filtered {} xref {xref} codec {codec} {list:?}: {}", layout(pretty), show(steps));
        let info = codec % 2 == 1;
        let make = || {
            let mut p = build(pretty, steps);
            if info {
                p.set_file_id((b"a(".to_vec(), b"\xff".to_vec()));
                p.catalog(Ref::new(500));
                p.document_info(Ref::new(501));
            }
            p
        };
        let out = catch(|| {
            make().finish_with_xref_stream_and_filter(Ref::new(xref), |d| {
                seen.borrow_mut().push(d.to_vec());
                let f = match list {
                    Some([i]) if codec != 2 => XRefFilter::Single(FILTERS[*i].0),
                    l => XRefFilter::Multiple(
                        l.unwrap_or(&[]).iter().map(|i| FILTERS[*i].0).collect(),
                    ),
                };
                (enc(d), f)
            })
        });
        let out = match out {
            Ok(o) => o,
            Err(p) => return c.fail(&what, || format!("{what}\npanicked: {p}")),
        };
        let r = (|| {
            let d = pdf::parse_doc(&out, Some(&dec))?;
            pdf::check_xref(&d)?;
            let x = d.xref_stream.as_ref().ok_or("no xref stream")?;
            let seen = seen.borrow();
            if seen.len() != 1 || Some(enc(&seen[0])) != x.stream {
                return Err("filtered bytes are not in the file".to_string());
            }
            // Bytes given to the filter are the unfiltered table.
            let plain = make().finish_with_xref_stream(Ref::new(xref));
            let pd = pdf::parse_doc(&plain, None)?;
            if pd.xref_stream.as_ref().and_then(|o| o.stream.clone()) != Some(seen[0].clone()) {
                return Err("filter was not given the unfiltered table".into());
            }
            if pd.entries != d.entries || pd.w != d.w {
                return Err("entries differ from the unfiltered file".into());
            }
            let names: Vec<X> =
                list.unwrap_or(&[]).iter().map(|i| name(FILTERS[*i].1)).collect();
            let f = x.val.get("Filter").ok_or("no Filter")?;
            let ok = match list {
                Some([i]) if codec != 2 => matches(&name(FILTERS[*i].1), f),
                _ => matches(&X::Arr(names), f),
            };
            if !ok {
                return Err(format!("Filter is {f:?}"));
            }
            if info {
                for (k, want) in [("Root", mc::x("500 0 R")), ("Info", mc::x("501 0 R")), ("ID", mc::x("[(a\\() <ff>]"))] {
                    if !x_get(&d.trailer, k).is_some_and(|v| matches(&want, v)) {
                        return Err(format!("trailer entry {k} wrong"));
                    }
                }
            }
            Ok(())
        })();
        if let Err(e) = r {
            c.fail(&what, || format!("{what}\n{e}\nfile: {}", show_out(&out)))
        }
    }
    c.states_by_construction(1);
}

fn x_get<'a>(v: &'a pdf::V, k: &str) -> Option<&'a pdf::V> {
    v.get(k)
}

/// The xref stream object starts exactly at `offset`.
fn at_offset(c: &Ctx, pretty: bool, offset: usize, xref: i32, extra: i32) {
    let make = |len: usize| {
        let data = vec![b'x'; len];
        let mut p = Pdf::with_settings_and_capacity(settings(pretty), offset + 4096);
        p.indirect(Ref::new(extra)).primitive(true);
        p.stream(Ref::new(1), &data);
        p
    };
    let base = make(0).len();
    let Some(guess) = offset.checked_sub(base) else { return };
    for len in guess.saturating_sub(12)..=guess {
        let out = catch(|| {
            let p = make(len);
            (p.len() == offset).then(|| p.finish_with_xref_stream(Ref::new(xref)))
        });
        match out {
            Ok(None) => continue,
            Ok(Some(out)) => {
                c.steps(3);
                c.trace();
                c.states_by_construction(1);
                let what = format!("stream at offset {offset}, xref {xref}, object {extra}");
                match pdf::parse_doc(&out, None).and_then(|d| pdf::check_xref(&d).map(|_| d)) {
                    Ok(d) => c.check(d.startxref == offset && d.objs.len() == 3, &what, || {
                        format!("{what}: startxref {}", d.startxref)
                    }),
                    Err(e) => c.fail(&what, || format!("{what}: {e}\n{}", show_out(&out))),
                }
                return;
            }
            Err(p) => c.fail(&format!("offset {offset} panic"), || p),
        }
    }
}

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C02");
    // All histories over small numbers, stream number at every position.
    c.phase("orders");
    for x in 1..=6 {
        run(c, &[], x);
    }
    for x in [254, 255, 256, 257, 65535, 65536, 65537] {
        run(c, &[], x);
    }
    let n = c.bound(6, 7);
    for len in 1..=n as usize {
        let a = arrangements(&(1..=n + 1).collect::<Vec<_>>(), len);
        par(a.len(), |i| {
            let steps: Vec<Step> =
                a[i].iter().enumerate().map(|(j, x)| (*x, (i + j) % 5)).collect();
            for xref in 1..=n + 2 {
                if !a[i].contains(&xref) {
                    run(c, &steps, xref);
                }
            }
        });
    }
    c.note("all orders of subsets of 1..", n + 1);
    c.phase("kinds");
    let k = KINDS.len();
    for i in 0..k {
        run(c, &[(2, i)], 1);
        run(c, &[(1, i)], 4);
    }
    c.phase("gaps");
    let pool = [1, 2, 4, 9, 10, 99, 254, 255, 256, 257, 258, 300, 1000];
    for len in 1..=c.bound(3, 4) {
        let a = arrangements(&pool, len);
        par(a.len(), |i| {
            // The last number is the stream's.
            let (xref, rest) = a[i].split_last().unwrap();
            let steps: Vec<Step> =
                rest.iter().enumerate().map(|(j, x)| (*x, (i + j) % 5)).collect();
            run(c, &steps, *xref);
            run(c, &steps, 3);
        });
    }
    c.note("sparse pool", format!("{pool:?}"));
    c.phase("runs");
    let gaps = [0, 1, 2, 256];
    let lens = c.bound(
        &[1, 3, 16, 127, 128, 129, 255, 256, 257, 300, 512][..],
        &[1, 2, 3, 15, 16, 17, 64, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511,
            512, 513, 1000, 1024, 1025],
    );
    let mut sets = runs(&gaps, lens, 2);
    for l in sizes(c.bound(2050, 20_000)) {
        sets.push((1..=l as i32).collect());
        sets.push((2..=l as i32 + 1).collect());
        sets.push((1..=l as i32).chain([2 * l as i32 + 1]).collect());
    }
    for l in [65_534, 65_535, 65_536, 65_537, 70_000] {
        sets.push((1..=l).collect());
        sets.push((2..=l).chain([l + 3]).collect());
    }
    par(sets.len(), |i| {
        let mut steps: Vec<Step> = sets[i].iter().map(|x| (*x, (*x % 3 * 5) as usize)).collect();
        if i % 2 == 1 {
            steps.reverse();
        }
        // The stream's number: after the last, in the first gap, in the middle
        // (its object is then not written).
        let (first, last) = sets[i].first().zip(sets[i].last()).unwrap_or((&1, &1));
        run(c, &steps, last + 1);
        if sets[i].len() < 3000 {
            run(c, &steps, last + 300);
            if *first > 1 {
                run(c, &steps, first - 1);
            }
            if !steps.is_empty() {
                let x = steps.remove(steps.len() / 2).0;
                run(c, &steps, x);
            }
        }
    });
    c.note("runs after gaps", format!("{} sets of numbers, gaps {gaps:?}, runs {lens:?}", sets.len()));
    c.phase("wide numbers");
    let mut wide = vec![65534, 65535, 65536, 65537, 70000, 1_000_000];
    if c.thorough {
        wide.extend([8_388_608, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
    } else if cfg!(debug_assertions) {
        // Links of four bytes to an object far below.
        run(c, &[(2, 1), ((1 << 24) + 1, 0)], 1 << 24);
        run(c, &[(1, 1)], (1 << 24) - 1);
    }
    for w in wide {
        run(c, &[(w, 0)], 1);
        run(c, &[(1, 0)], w);
        run(c, &[(w, 0), (3, 1)], w - 1);
        run(c, &[(2, 1), (w, 0)], w + 2);
    }
    // Width boundaries of the offsets, combined with wide numbers.
    c.phase("offsets");
    let mut edges = vec![256usize, 65_536, 1 << 24];
    if c.thorough {
        edges.push(1 << 28);
    }
    for e in &edges {
        let w = if *e > 1 << 20 { 2 } else { 16 };
        par(2 * w + 1, |i| {
            for pretty in [true, false] {
                for (x, extra) in [(2, 3), (3, 2), (7, 4), (254, 3), (255, 3), (256, 3), (257, 5), (2, 300)] {
                    if *e > 1 << 20 && x != 7 {
                        continue;
                    }
                    at_offset(c, pretty, e - w + i, x, extra);
                }
            }
        });
    }
    let m = c.bound(600, 3000);
    par(m, |i| at_offset(c, i % 2 == 0, 40 + i, 2, 4));
    c.note("offset boundaries", format!("{edges:?}"));
    // Filters.
    c.phase("filters");
    let hist: &[(&[Step], i32)] =
        &[(&[], 1), (&[(1, 0)], 2), (&[(3, 1), (1, 2)], 2), (&[(2, 0), (300, 4)], 7)];
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let f = FILTERS.len();
    for len in 1..=c.bound(2, 3) {
        lists.extend((0..f.pow(len as u32)).map(|i| seq(i, f, len)));
    }
    par(lists.len(), |i| {
        for (steps, x) in hist {
            for codec in 0..4 {
                filtered(c, steps, *x, codec, Some(&lists[i]));
            }
        }
    });
    c.note("filter lists up to length", c.bound(2, 3));
    mc::doc::huge(c, Some(6));
    c.finish()
}
