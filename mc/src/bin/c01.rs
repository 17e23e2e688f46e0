//! C01: the cross-reference table locates every object.
use mc::doc::{arrangements, build, runs, show, verify, Step};
use mc::gen::{layout, settings};
use mc::kinds::KINDS;
use mc::*;
use pdf_writer::*;

fn judge(c: &Ctx, what: &str, out: Result<Vec<u8>, String>, steps: &[Step]) {
    c.steps(steps.len() as u64 + 1);
    c.trace();
    match out {
        Err(p) => c.fail(&format!("{what}: panic"), || {
            format!("{what}\nfinish panicked: {p}\nhistory: {}", show(steps))
        }),
        Ok(out) => {
            let r = verify(&out, steps, None, None).and_then(|d| {
                if d.startxref >= out.len() || !out[d.startxref..].starts_with(b"xref") {
                    return Err("startxref does not point at the table".into());
                }
                Ok(())
            });
            if let Err(e) = r {
                c.fail(&format!("{what} {}", show(steps)), || {
                    format!("{what}\n{e}\nhistory: {}\nfile: {}", show(steps), show_out(&out))
                })
            }
            c.sample(|| format!("{what}: {}", show(steps)));
        }
    }
}

fn run(c: &Ctx, steps: &[Step]) {
    for pretty in [true, false] {
        let out = catch(|| build(pretty, steps).finish());
        judge(c, layout(pretty), out, steps);
    }
    c.states_by_construction(1);
}

/// Object 2 starts exactly at the given offset (the padding object is a stream).
fn at_offset(c: &Ctx, pretty: bool, offset: usize) {
    let make = |len: usize| {
        let data = vec![b'x'; len];
        let mut p = Pdf::with_settings_and_capacity(settings(pretty), offset + 4096);
        p.stream(Ref::new(1), &data);
        let at = p.len();
        p.indirect(Ref::new(2)).primitive(true);
        p.indirect(Ref::new(5)).primitive(false);
        (p, at)
    };
    // Adjust the padding until the offset is met; the digits of the length may
    // make single offsets unreachable.
    let (_, base) = make(0);
    let Some(guess) = offset.checked_sub(base) else { return };
    for len in guess.saturating_sub(12)..=guess {
        let out = catch(|| {
            let (p, at) = make(len);
            (at == offset).then(|| p.finish())
        });
        match out {
            Ok(None) => continue,
            Ok(Some(out)) => {
                c.steps(4);
                c.trace();
                c.states_by_construction(1);
                let d = pdf::parse_doc(&out, None).and_then(|d| pdf::check_xref(&d).map(|_| d));
                match d {
                    Ok(d) => {
                        let ok = d.obj(2).map(|o| o.offset) == Some(offset)
                            && d.objs.len() == 3
                            && d.objs[0].stream.as_ref().map(|s| s.len()) == Some(len);
                        c.check(ok, &format!("offset {offset}"), || format!("{:?}", d.entries))
                    }
                    Err(e) => c.fail(&format!("offset {offset}"), || {
                        format!("object 2 placed at offset {offset}: {e}\n{}", show_out(&out))
                    }),
                }
                return;
            }
            Err(p) => c.fail(&format!("offset {offset} panic"), || p),
        }
    }
}

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C01");
    run(c, &[]);
    c.phase("kinds");
    // Every way to begin an object, alone and in all ordered pairs.
    let k = KINDS.len();
    for i in 0..k {
        run(c, &[(1, i)]);
        run(c, &[(3, i)]);
    }
    par(k * k, |i| {
        run(c, &[(1, i / k), (2, i % k)]);
        run(c, &[(4, i / k), (2, i % k)]);
    });
    if c.thorough {
        par(k * k * k, |i| {
            let s = seq(i, k, 3);
            run(c, &[(2, s[0]), (5, s[1]), (3, s[2])]);
        });
    }
    // All orders of all subsets of 1..=n.
    c.phase("orders");
    let n = c.bound(7, 8);
    for len in 1..=n as usize {
        let a = arrangements(&(1..=n).collect::<Vec<_>>(), len);
        par(a.len(), |i| {
            let steps: Vec<Step> =
                a[i].iter().enumerate().map(|(j, x)| (*x, (i + j) % 5)).collect();
            run(c, &steps);
        });
    }
    c.note("all orders of all subsets of 1..", n);
    // Sparse numbers.
    c.phase("gaps");
    let pool = [1, 2, 3, 5, 9, 10, 12, 99, 101, 255, 256, 257, 300];
    for len in 1..=c.bound(4, 5) {
        let a = arrangements(&pool, len);
        par(a.len(), |i| {
            let steps: Vec<Step> =
                a[i].iter().enumerate().map(|(j, x)| (*x, (i + j) % 5)).collect();
            run(c, &steps);
        });
    }
    c.note("sparse pool", format!("{pool:?}, up to {} objects", c.bound(4, 5)));
    // Long histories: ascending, descending, odd-then-even, with every gap width.
    c.phase("long");
    let lens: Vec<i32> = (10..c.bound(130, 400)).collect();
    par(lens.len() * 5, |i| {
        let n = lens[i / 5];
        let nums: Vec<i32> = match i % 5 {
            0 => (1..=n).collect(),
            1 => (1..=n).rev().collect(),
            2 => (1..=n).filter(|x| x % 2 == 1).chain((1..=n).filter(|x| x % 2 == 0)).collect(),
            3 => (1..=n).map(|x| x * 3).collect(),
            _ => (1..=n).map(|x| x * x).collect(),
        };
        let steps: Vec<Step> = nums.iter().map(|x| (*x, (*x % 3) as usize)).collect();
        run(c, &steps);
    });
    // Runs of used numbers after gaps, with lengths around every small power of
    // two and of ten; the objects come in ascending and in descending order.
    c.phase("runs");
    let gaps = [0, 1, 2, 255, 256, 257];
    let lens = c.bound(
        &[1, 3, 15, 16, 17, 99, 100, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513][..],
        &[1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129,
            254, 255, 256, 257, 258, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048],
    );
    let mut sets = runs(&gaps, lens, 2);
    sets.extend(runs(&[0, 1, 256], &[1, 255, 256, 257, 300], 3));
    for l in sizes(c.bound(4100, 20_000)) {
        sets.push((1..=l as i32).collect());
        sets.push((2..=l as i32 + 1).collect());
        sets.push((1..=l as i32).chain([2 * l as i32 + 1]).collect());
    }
    for l in [65_534, 65_535, 65_536, 65_537, 70_000, 100_001] {
        sets.push((1..=l).collect());
        sets.push((2..=l).chain([l + 3]).collect());
        sets.push(std::iter::once(1).chain(l..l + 300).collect());
    }
    if c.thorough {
        sets.push((1..=1_000_001).collect());
    }
    par(sets.len(), |i| {
        let mut steps: Vec<Step> = sets[i].iter().map(|x| (*x, (*x % 3 * 5) as usize)).collect();
        if i % 2 == 1 {
            steps.reverse();
        }
        run(c, &steps);
    });
    c.note("runs after gaps", format!("{} sets of numbers, gaps {gaps:?}, runs {lens:?}", sets.len()));
    c.phase("large numbers");
    let mut big = vec![1000, 9999, 10000, 65535, 65536, 65537, 100_000, 999_999, 1_000_000];
    if c.thorough {
        big.extend([8_388_607, 8_388_608, 9_999_999, 10_000_000, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 50_000_000]);
    }
    for b in &big {
        run(c, &[(*b, 0)]);
        run(c, &[(*b, 0), (1, 1)]);
        run(c, &[(2, 1), (*b, 0), (b - 2, 2), (b / 2, 0)]);
    }
    // Beyond the highest number the format promises to support, and beyond
    // three bytes.
    if cfg!(debug_assertions) && !c.thorough {
        run(c, &[(2, 1), (8_388_608, 0), (8_388_606, 2)]);
        run(c, &[((1 << 24) + 1, 0), (1 << 24, 1)]);
    }
    c.note("highest number", big.iter().max().unwrap().max(&((1 << 24) + 1)));
    // Byte distances around every digit and width boundary.
    c.phase("offsets");
    let mut edges = vec![100, 256, 1000, 4096, 10_000, 65_536, 100_000, 1_000_000, 1 << 24];
    if c.thorough {
        edges.extend([10_000_000, 100_000_000, 1 << 28]);
    }
    for e in &edges {
        let w = if *e > 1 << 20 { 2 } else { c.bound(12, 40) };
        let (a, b) = (e - w, e + w);
        par(b - a + 1, |i| {
            for pretty in [true, false] {
                at_offset(c, pretty, a + i);
            }
        });
    }
    // All small offsets.
    let m = c.bound(1500, 12_000);
    par(m, |i| at_offset(c, i % 2 == 0, 40 + i));
    c.note("offset boundaries", format!("{edges:?}"));
    mc::doc::huge(c, None);
    c.finish()
}
