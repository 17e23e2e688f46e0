//! C03: duplicate object numbers are always rejected, distinct ones never.
use mc::doc::{show, verify, Step};
use mc::gen::{layout, settings};
use mc::*;
use pdf_writer::*;
use std::collections::HashSet;

#[derive(Clone, Copy, Debug)]
enum Fin {
    Table,
    Stream(i32),
    Filtered(i32),
}

/// `split`: number of trailing objects written through a separate chunk.
fn run(c: &Ctx, nums: &[i32], fin: Fin, pretty: bool, split: usize) {
    let steps: Vec<Step> = nums.iter().enumerate().map(|(i, n)| (*n, (i * 7 + nums.len()) % 10)).collect();
    let mut all: Vec<i32> = nums.to_vec();
    let xref = match fin {
        Fin::Table => None,
        Fin::Stream(x) | Fin::Filtered(x) => Some(x),
    };
    all.extend(xref);
    let dup = all.iter().collect::<HashSet<_>>().len() != all.len();
    c.steps(nums.len() as u64 + 1);
    c.trace();
    let what = format!("{fin:?} {} split {split}: {}", layout(pretty), show(&steps));
    let pdf = catch(|| {
        let mut p = Pdf::with_settings(settings(pretty));
        let (a, b) = steps.split_at(steps.len() - split);
        mc::doc::write_all(&mut p, a);
        if split > 0 {
            let mut ch = Chunk::with_settings(settings(pretty));
            mc::doc::write_all(&mut ch, b);
            p.extend(&ch);
        }
        p
    });
    let pdf = match pdf {
        Ok(p) => p,
        Err(e) => return c.fail(&format!("write {what}"), || format!("{what}\nwriting panicked: {e}")),
    };
    let r = catch(|| match fin {
        Fin::Table => pdf.finish(),
        Fin::Stream(x) => pdf.finish_with_xref_stream(Ref::new(x)),
        Fin::Filtered(x) => pdf.finish_with_xref_stream_and_filter(Ref::new(x), |d| {
            (d.to_vec(), XRefFilter::Single(Filter::FlateDecode))
        }),
    });
    match r {
        Ok(out) if dup => c.fail(&what, || {
            format!("{what}\na duplicate object number was accepted\nfile: {}", show_out(&out))
        }),
        Err(e) if !dup => {
            c.fail(&what, || format!("{what}\ndistinct numbers, but finishing panicked: {e}"))
        }
        Ok(out) => {
            if let Err(e) = verify(&out, &steps, xref, Some(&|d: &[u8]| d.to_vec())) {
                c.fail(&what, || format!("{what}\naccepted, but the file is wrong: {e}"))
            }
            c.sample(|| format!("accepted: {what}"));
        }
        Err(_) => {
            if nums.len() > 2 {
                c.sample(|| format!("rejected: {what}"))
            }
        }
    }
}

fn all_fins(c: &Ctx, nums: &[i32], xrefs: &[i32], splits: bool) {
    for pretty in [true, false] {
        for split in 0..=(if splits { nums.len() } else { 0 }) {
            run(c, nums, Fin::Table, pretty, split);
            for x in xrefs {
                run(c, nums, Fin::Stream(*x), pretty, split);
                if split == 0 {
                    run(c, nums, Fin::Filtered(*x), pretty, split);
                }
            }
        }
    }
    c.states_by_construction(1);
}

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C03");
    // All number sequences over small pools, all repetition patterns.
    let max = c.bound(5, 7);
    for (pool, xs) in [(&[1, 2, 3, 4][..], &[1, 2, 5][..]), (&[1, 5, 300][..], &[5, 3, 301][..])] {
        for len in 0..=max {
            c.phase(&format!("pool {pool:?} length {len}"));
            par(pool.len().pow(len as u32), |i| {
                let nums: Vec<i32> =
                    seq(i, pool.len(), len).iter().map(|j| pool[*j]).collect();
                all_fins(c, &nums, xs, len <= 4);
            });
        }
    }
    c.note("sequence length", max);
    // One duplicate anywhere in a long history.
    c.phase("long");
    let n = c.bound(16, 40);
    par(n * n * 3, |i| {
        let (a, b, order) = (i / 3 / n, i / 3 % n, i % 3);
        let mut nums: Vec<i32> = (1..=n as i32).collect();
        match order {
            0 => {}
            1 => nums.reverse(),
            _ => nums = nums.iter().map(|x| (x * 7) % 101 + 1).collect(),
        }
        if a != b {
            nums[a] = nums[b];
        }
        all_fins(c, &nums, &[200, nums[0], nums[n - 1]], false);
    });
    c.note("long histories with every duplicated pair", n);
    // A duplicated number at every distance that matters in longer histories.
    c.phase("longer");
    let pos: Vec<usize> = [0, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 299]
        .into_iter()
        .chain(c.bound(vec![], vec![300, 510, 511, 512, 513, 514, 600]))
        .collect();
    let n = *pos.last().unwrap() + 1;
    par(pos.len() * pos.len() * 4, |i| {
        let (a, b, order) = (pos[i / 4 / pos.len()], pos[i / 4 % pos.len()], i % 4);
        let mut nums: Vec<i32> = match order {
            0 => (1..=n as i32).collect(),
            1 => (1..=n as i32).rev().collect(),
            2 => (1..=n as i32).map(|x| x * 3).collect(),
            _ => (0..n as i32).map(|x| (x * 7) % 1009 + 1).collect(),
        };
        if a != b {
            nums[a] = nums[b];
        }
        for pretty in [true, false] {
            run(c, &nums, Fin::Table, pretty, 0);
            run(c, &nums, Fin::Table, pretty, n / 2);
            run(c, &nums, Fin::Stream(9999), pretty, 0);
            run(c, &nums, Fin::Stream(nums[a]), pretty, 0);
            run(c, &nums, Fin::Filtered(nums[b]), pretty, 0);
        }
        c.states_by_construction(1);
    });
    c.note("duplicates at positions", format!("{pos:?} of {n}"));
    let long: Vec<i32> = (1..=70_000).collect();
    let at = [0usize, 1, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, 69_999];
    par(at.len() * at.len() * 2, |i| {
        let (a, b, rev) = (at[i / 2 / at.len()], at[i / 2 % at.len()], i % 2 == 1);
        let mut nums = long.clone();
        if rev {
            nums.reverse();
        }
        nums[a] = nums[b];
        if i % 4 < 2 {
            run(c, &nums, Fin::Table, false, 0);
        } else {
            run(c, &nums, Fin::Stream(70_001), false, 0);
        }
        if i < 8 {
            run(c, &long, Fin::Stream(at[i] as i32 + 1), false, 0);
        }
        c.states_by_construction(1);
    });
    c.note("duplicates among 70000 objects at", format!("{at:?}"));
    c.phase("extremes");
    for big in [65535, 65536, 100_000] {
        for nums in [vec![big, big], vec![big, 1, big], vec![1, big, 1], vec![big, big - 1]] {
            all_fins(c, &nums, &[big, big + 1, 2], false);
        }
    }
    c.finish()
}
