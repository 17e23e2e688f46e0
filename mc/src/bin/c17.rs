//! C17: the reported graphics-state nesting is the number of open saves.
use mc::gen::*;
use mc::ops::*;
use mc::*;
use pdf_writer::*;

fn run(c: &Ctx, all: &[COp], s: &[usize], pretty: bool, cap: Option<usize>) {
    let r = catch(|| {
        let mut ct = match cap {
            None => Content::with_settings(settings(pretty)),
            Some(n) => Content::with_settings_and_capacity(settings(pretty), n),
        };
        let mut depth = 0usize;
        if ct.state_nesting_depth() != 0 {
            return Err("a new stream does not start at depth 0".to_string());
        }
        for (k, i) in s.iter().enumerate() {
            let o = &all[*i];
            (o.run)(&mut ct);
            match o.label.as_str() {
                "q" => depth += 1,
                "Q" => depth = depth.saturating_sub(1),
                _ => {}
            }
            if ct.state_nesting_depth() != depth {
                return Err(format!(
                    "after operation {k} ({}) depth {} is reported, {depth} saves are open",
                    o.label,
                    ct.state_nesting_depth()
                ));
            }
        }
        let out = ct.finish().into_vec();
        compare(&out, s.iter().flat_map(|i| &all[*i].want)).map(|_| out)
    });
    let sig = || {
        format!(
            "depth {} {cap:?} {}",
            layout(pretty),
            s.iter().take(40).map(|i| all[*i].label.clone()).collect::<Vec<_>>().join("; ")
        )
    };
    match r.unwrap_or_else(|p| Err(format!("panicked: {p}"))) {
        Ok(out) => c.sample(|| show_out(&out)),
        Err(e) => c.fail(&sig(), || format!("{e}\noperations: {}", sig())),
    }
    c.steps(s.len() as u64);
    c.trace();
}

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C17");
    let all = ops();
    let n = all.len();
    let find = |l: &str| (0..n).find(|i| all[*i].label == l).unwrap();
    let (q, uq) = (find("q"), find("Q"));
    let raw = (0..n).find(|i| all[*i].label.starts_with("cm")).unwrap();
    let bt = find("BT");
    let alpha = [q, uq, raw, bt];
    let two = [q, uq];
    let max = c.bound(10, 11);
    c.phase("all sequences over save, restore and two other operations");
    for len in 0..=max {
        par(4usize.pow(len as u32), |i| {
            let s: Vec<usize> = seq(i, 4, len).iter().map(|j| alpha[*j]).collect();
            run(c, &all, &s, false, None);
            if len <= 6 {
                run(c, &all, &s, true, Some(0));
            }
            c.states_by_construction(1);
        });
    }
    let max2 = c.bound(19, 22);
    c.phase("all save/restore sequences");
    for len in 0..=max2 {
        par(1 << len, |i| {
            let s: Vec<usize> = seq(i, 2, len).iter().map(|j| two[*j]).collect();
            run(c, &all, &s, i % 2 == 0, None);
            c.states_by_construction(1);
        });
    }
    c.phase("every operation at every depth");
    let other: Vec<usize> = (0..n).filter(|i| *i != q && *i != uq).collect();
    par(other.len(), |i| {
        for d in [0, 1, 2, 3, 4, 27, 28, 29, 127, 128, 129, 255, 256, 257] {
            let mut s = vec![q; d];
            s.push(other[i]);
            s.push(uq);
            s.push(other[i]);
            s.push(q);
            run(c, &all, &s, d % 2 == 0, None);
            c.states_by_construction(1);
        }
    });
    c.phase("saves, restores and every two other operations");
    let plain: Vec<usize> = (0..n).filter(|i| all[*i].plain && *i != q && *i != uq).collect();
    let k = plain.len();
    let max3 = c.bound(6, 7);
    for len in 3..=max3 {
        par(k * k * 4usize.pow(len as u32), |i| {
            let (a, b, i) = (i / k / 4usize.pow(len as u32), i / 4usize.pow(len as u32) % k, i % 4usize.pow(len as u32));
            let alpha = [q, uq, plain[a], plain[b]];
            let s: Vec<usize> = seq(i, 4, len).iter().map(|j| alpha[*j]).collect();
            // Both of the others in this order, or two of one.
            if a > b || !s.contains(&plain[a]) || !s.contains(&plain[b]) {
                return;
            }
            run(c, &all, &s, (a + b + i) % 2 == 0, None);
            c.states_by_construction(1);
        });
    }
    c.note("sequence length over {q, Q} and any two other methods", format!("{max3} for all pairs of {k} methods"));
    c.phase("operations on the same part of the graphics state");
    for (what, ops, quick, deep) in families() {
        let k = ops.len();
        let max = c.bound(quick - 1, deep + 1);
        for len in 3..=max {
            par(k.pow(len), |i| {
                let s = seq(i, k, len as usize);
                run(c, &ops, &s, i.count_ones() % 2 == 0, None);
                c.states_by_construction(1);
            });
        }
        c.note(&format!("sequences of operations on {what}"), format!("up to {max} of {k}"));
    }
    c.phase("long runs");
    // Runs through every byte-sized and the 16-bit counter boundary.
    for (up, down, again) in [
        (300, 0, 0), (300, 300, 5), (300, 299, 2), (27, 28, 29), (128, 128, 128), (255, 1, 2),
        (256, 255, 3), (257, 258, 1), (65535, 1, 3), (65536, 65535, 1), (65537, 65538, 2), (1000, 2000, 3),
    ] {
        let mut s = vec![q; up];
        s.extend(vec![uq; down]);
        s.extend(vec![q; again]);
        run(c, &all, &s, false, None);
        c.states_by_construction(1);
    }
    // Up, down and up again with every combination of sizes.
    let mut ns = sizes(c.bound(260, 1030));
    ns.retain(|n| *n < 5 || *n > 7);
    let k = ns.len();
    par(k * k * 4, |i| {
        let (a, b, d) = (ns[i / 4 / k], ns[i / 4 % k], i % 4);
        let mut s = vec![q; a];
        s.extend(vec![uq; b]);
        s.extend([raw, q, bt, uq, uq]);
        s.extend(vec![q; [0, 1, a, b][d]]);
        run(c, &all, &s, i % 2 == 0, (i % 3 == 0).then_some(a));
        c.states_by_construction(1);
    });
    c.note("saves, restores, saves", format!("all pairs of {ns:?}"));
    let ns = sizes(c.bound(70_000, 300_000));
    par(ns.len() * 3, |i| {
        let n = ns[ns.len() - 1 - i / 3];
        let mut s = vec![q; n];
        s.extend(vec![[uq, raw, q][i % 3]; n]);
        s.extend([uq, uq, q]);
        run(c, &all, &s, false, None);
        c.states_by_construction(1);
    });
    c.note("sequence length over {q, Q, cm, BT}", max);
    c.note("sequence length over {q, Q}", max2);
    c.note("other operations", other.len());
    c.finish()
}
