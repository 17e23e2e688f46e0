//! C16: content streams read back as the exact operation sequence.
use mc::gen::*;
use mc::ops::*;
use mc::tab::{hinted, user, HINTS};
use mc::*;
use pdf_writer::*;

fn run(c: &Ctx, all: &[COp], s: &[usize], pretty: bool) {
    let mut ct = Content::with_settings(settings(pretty));
    let r = catch(|| {
        for i in s {
            (all[*i].run)(&mut ct);
        }
    });
    let desc = |e: &str, out: &[u8]| {
        format!(
            "{e}\noperations: {}\nlayout: {}\noutput: {}",
            s.iter().map(|i| all[*i].label.clone()).collect::<Vec<_>>().join("; "),
            layout(pretty),
            show_out(out)
        )
    };
    let sig = || {
        format!(
            "ops {} {}",
            layout(pretty),
            s.iter().map(|i| all[*i].label.clone()).collect::<Vec<_>>().join("; ")
        )
    };
    if let Err(p) = r {
        c.fail(&sig(), || desc(&format!("panicked: {p}"), b""));
    }
    if ct.len() != ct.as_bytes().len() {
        c.fail(&sig(), || desc("wrong length reported", ct.as_bytes()));
    }
    let want = || s.iter().flat_map(|i| &all[*i].want);
    // The stream in progress and the finished one hold the same operations.
    if s.len() <= 1 {
        if let Err(e) = compare(ct.as_bytes(), want()) {
            c.fail(&sig(), || desc(&format!("before finishing: {e}"), ct.as_bytes()));
        }
    }
    let out = ct.finish().into_vec();
    if let Err(e) = compare(&out, want()) {
        c.fail(&sig(), || desc(&e, &out));
    }
    c.sample(|| show_out(&out));
}

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C16");
    let all = ops();
    let n = all.len();
    let plain: Vec<usize> = (0..n).filter(|i| all[*i].plain).collect();
    // Two variants per method.
    let mut two = plain.clone();
    for g in 0..=all.last().unwrap().group {
        let v: Vec<usize> = (0..n).filter(|i| all[*i].group == g && !all[*i].plain).collect();
        if let Some(i) = v.get(v.len() / 2) {
            two.push(*i);
        }
    }
    c.note("operation variants", n);
    c.note("operation methods", plain.len());
    c.phase("no and single operations");
    for p in [false, true] {
        run(c, &all, &[], p);
        for i in 0..n {
            for h in 0..HINTS {
                hinted(h, || run(c, &all, &[i], p));
            }
        }
    }
    wide(c);
    c.phase("all pairs of variants");
    par(n * n, |k| {
        let (i, j) = (k / n, k % n);
        {
            for p in [false, true] {
                hinted(i + j, || run(c, &all, &[i, j], p));
            }
            c.states_by_construction(1);
            c.steps(4);
            c.traces_n(2);
        }
    });
    let triples = |set: &[usize], what: &str| {
        c.phase(what);
        let k = set.len();
        par(k * k * k, |i| {
            let s = seq(i, k, 3);
            let s: Vec<usize> = s.iter().map(|j| set[*j]).collect();
            for p in [false, true] {
                run(c, &all, &s, p);
            }
            c.states_by_construction(1);
            c.steps(6);
            c.traces_n(2);
        });
        c.note(what, k * k * k);
    };
    triples(&plain, "triples of methods");
    {
        triples(&two, "triples of two variants per method");
        // Quadruples over one operation per syntactic class.
        let pick = ["q", "w 7.5", "d [3.0, 2.5] 0", "Tf \"", "BT", "Tj", "' ", "TJ #2.0", "gs", "DP", "BDC artifact [0]", "raw", "cm", "SCN [0.5]", "BDC Name(\"Nm\") props [0]", "f*", "raw A([])"];
        let mut q: Vec<usize> = vec![];
        for p in pick {
            if let Some(i) = (0..n).find(|i| all[*i].label.starts_with(p) && !q.contains(i)) {
                q.push(i);
            }
        }
        for p in ["gs ", "Tj ", "BMC ", "' "] {
            // the variants with an empty operand
            if let Some(i) = (0..n).filter(|i| all[*i].label.starts_with(p)).nth(1) {
                q.push(i);
            }
        }
        let k = q.len();
        for len in 4..=c.bound(4, 5) {
            c.phase(&format!("{len} operations over {k} syntactic classes"));
            par(k.pow(len), |i| {
                let s = seq(i, k, len as usize);
                let s: Vec<usize> = s.iter().map(|j| q[*j]).collect();
                for p in [false, true] {
                    run(c, &all, &s, p);
                }
                c.states_by_construction(1);
                c.steps(2 * len as u64);
                c.traces_n(2);
            });
        }
        c.note("longest sequences over syntactic classes", format!("{} over {k}", c.bound(4, 5)));
    }
    // Operations on the same part of the graphics state, with related operands.
    for (what, ops, quick, deep) in families() {
        let k = ops.len();
        let max = c.bound(quick, deep + 1);
        for len in 3..=max {
            c.phase(&format!("{len} operations on {what}"));
            par(k.pow(len), |i| {
                let s = seq(i, k, len as usize);
                run(c, &ops, &s, i.count_ones() % 2 == 0);
                c.states_by_construction(1);
                c.steps(len as u64);
                c.traces_n(1);
            });
        }
        c.note(&format!("sequences of operations on {what}"), format!("up to {max} of {k}"));
    }
    // Long streams: runs of every operation, and all operations in rotation.
    c.phase("long");
    par(plain.len(), |i| {
        for p in [false, true] {
            run(c, &all, &vec![plain[i]; 400], p);
            let rot: Vec<usize> = (0..n).map(|j| (j * 37 + i) % n).collect();
            run(c, &all, &rot, p);
        }
        c.states_by_construction(2);
        c.steps(2 * (400 + n as u64));
        c.traces_n(4);
    });
    sized(c);
    c.finish()
}

/// Every operation with operands of wide domains, between others.
fn wide(c: &Ctx) {
    c.phase("wide domains");
    let all = mc::ops::wide();
    let mut count = 0;
    for w in &all {
        count += w.n;
        par(w.n, |i| {
            for k in 0..c.bound(1, 4) {
                let k = k + i;
                let pretty = k % 2 == 0;
                let want = (w.want)(i);
                let what = || format!("{} with {} {}", w.op, want.iter().map(X::show).collect::<Vec<_>>().join(" "), layout(pretty));
                let r = catch(|| hinted(i / 5 + i + k / 2, || {
                    let mut ct = Content::with_settings(settings(pretty));
                    ct.save_state();
                    (w.run)(&mut ct, i);
                    match k / 2 % 3 {
                        0 => drop(ct.restore_state()),
                        1 => (w.run)(&mut ct, i),
                        _ => drop(ct.show(Str(b"a"))),
                    }
                    ct.finish().into_vec()
                }));
                let want: Vec<(&'static str, Vec<X>)> = vec![
                    ("q", vec![]),
                    (w.op, want.clone()),
                    match k / 2 % 3 {
                        0 => ("Q", vec![]),
                        1 => (w.op, want.clone()),
                        _ => ("Tj", vec![X::Str(b"a".to_vec())]),
                    },
                ];
                match r {
                    Err(p) => c.fail(&what(), || format!("{}: panicked: {p}", what())),
                    Ok(out) => {
                        if let Err(e) = compare(&out, &want) {
                            c.fail(&what(), || format!("{}: {e}\noutput: {}", what(), show_out(&out)));
                        }
                    }
                }
                c.steps(5);
                c.traces_n(1);
            }
            c.states_by_construction(1);
        });
    }
    c.note("operands of wide domains", format!("{count} calls of {} operations", all.len()));
}

/// Operations with operands of every size of interest, between others.
fn sized(c: &Ctx) {
    c.phase("sizes");
    let ns: Vec<usize> = sizes(c.bound(70_000, 300_000)).into_iter().rev().collect();
    const K: usize = 14;
    par(ns.len() * K, |i| {
        let (n, k) = (ns[i / K], i % K);
        let fl = |j: usize| [0.5, -3.0, 1e9, 7.0][j % 4];
        let nums: Vec<f32> = (0..n).map(fl).collect();
        let bytes: Vec<u8> = (0..n).map(|j| b"ab()\\\xff c"[j % 8]).collect();
        let chars: Vec<u8> = (0..n).map(|j| b"ab()\\d c"[j % 8]).collect();
        let xs = || nums.iter().map(|f| X::F(*f)).collect::<Vec<_>>();
        let (op, want): (&str, Vec<X>) = match k {
            0 => ("d", vec![X::Arr(xs()), X::F(1.0)]),
            1 => ("TJ", vec![X::Arr((0..n).map(|j| if j % 2 == 0 { X::Str(b"x".to_vec()) } else { X::F(fl(j)) }).collect())]),
            2 => ("TJ", vec![X::Arr(vec![X::Str(bytes.clone()), X::F(1.5), X::Str(bytes.clone())])]),
            3 => ("Tj", vec![X::Str(bytes.clone())]),
            4 => ("Tj", vec![X::Str(chars.clone())]),
            5 => ("scn", xs()),
            6 => ("SCN", xs()),
            7 => ("scn", xs().into_iter().chain([X::Name(b"P".to_vec())]).collect()),
            8 => ("gs", vec![X::Name(bytes.clone())]),
            9 => ("zz", (0..n).map(|j| X::I(j as i64)).collect()),
            10 => ("'", vec![X::Str(chars.clone())]),
            11 => ("DP", vec![X::Name(b"T".to_vec()), X::Dict(vec![(b"A".to_vec(), X::Arr(xs())), (b"MCID".to_vec(), X::I(n as i64))])]),
            12 => ("TJ", vec![X::Arr(vec![X::F(2.0); n])]),
            _ => ("Tj", vec![X::Str(b"(".iter().cycle().take(n).chain(b")".iter().cycle().take(n)).copied().collect())]),
        };
        for pretty in [false, true] {
            let what = || format!("{op} form {k} of size {n} {}", layout(pretty));
            let r = catch(|| hinted(i / 2 + k + pretty as usize, || {
                let mut ct = if i % 3 == 0 {
                    Content::with_settings_and_capacity(settings(pretty), [0, 1, n, 2 * n + 40][i / K % 4])
                } else {
                    Content::with_settings(settings(pretty))
                };
                ct.set_line_width(2.0);
                match k {
                    0 => drop(ct.set_dash_pattern(user(nums.iter().copied()), 1.0)),
                    1 | 12 => {
                        let mut sp = ct.show_positioned();
                        let mut it = sp.items();
                        for j in 0..n {
                            if k == 12 {
                                it.adjust(2.0);
                            } else if j % 2 == 0 {
                                it.show(Str(b"x"));
                            } else {
                                it.adjust(fl(j));
                            }
                        }
                    }
                    2 => drop(ct.show_positioned().items().show(Str(&bytes)).adjust(1.5).show(Str(&bytes))),
                    3 => drop(ct.show(Str(&bytes))),
                    4 => drop(ct.show(Str(&chars))),
                    5 => drop(ct.set_fill_color(user(nums.iter().copied()))),
                    6 => drop(ct.set_stroke_color(user(nums.iter().copied()))),
                    7 => drop(ct.set_fill_pattern(user(nums.iter().copied()), Name(b"P"))),
                    8 => drop(ct.set_parameters(Name(&bytes))),
                    9 => drop(ct.op("zz").operands(user(0..n as i32))),
                    10 => drop(ct.next_line_show(Str(&chars))),
                    11 => {
                        let mut d = ct.marked_content_point_with_properties(Name(b"T"));
                        let mut p = d.properties();
                        p.insert(Name(b"A")).array().items(user(nums.iter().copied()));
                        p.identify(n as i32);
                    }
                    _ => drop(ct.show(Str(&[vec![b'('; n], vec![b')'; n]].concat()))),
                }
                ct.save_state();
                ct.finish().into_vec()
            }));
            match r {
                Err(p) => c.fail(&what(), || format!("{}: panicked: {p}", what())),
                Ok(out) => {
                    let e = pdf::parse_content(&out).and_then(|ops| {
                        let ok = ops.len() == 3
                            && ops[0].operator == b"w"
                            && ops[2].operator == b"q"
                            && ops[2].operands.is_empty()
                            && ops[1].operator == op.as_bytes()
                            && ops[1].operands.len() == want.len()
                            && want.iter().zip(&ops[1].operands).all(|(x, v)| matches(x, v));
                        ok.then_some(()).ok_or_else(|| "read back differently".into())
                    });
                    if let Err(e) = e {
                        c.fail(&what(), || format!("{}: {e}\noutput: {}", what(), show_out(&out)));
                    }
                }
            }
        }
        c.states_by_construction(1);
        c.steps(n as u64 + 2);
        c.traces_n(2);
    });
    c.note("sizes of operands and operand lists", format!("{} sizes up to {}", ns.len(), ns[0]));
    // Streams of many operations.
    let ns: Vec<usize> = sizes(c.bound(70_000, 1_100_000)).into_iter().rev().collect();
    par(ns.len() * 2, |i| {
        let (n, pretty) = (ns[i / 2], i % 2 == 0);
        let what = || format!("{n} operations {}", layout(pretty));
        let r = catch(|| {
            let mut ct = Content::with_settings(settings(pretty));
            for j in 0..n {
                match j % 4 {
                    0 => drop(ct.move_to(j as f32, 0.5)),
                    1 => drop(ct.close_path()),
                    2 => drop(ct.show(Str(b"x"))),
                    _ => drop(ct.x_object(Name(b""))),
                }
            }
            ct.finish().into_vec()
        });
        let e = r.and_then(|out| {
            let ops = pdf::parse_content(&out)?;
            let ok = ops.len() == n
                && ops.iter().enumerate().all(|(j, o)| match j % 4 {
                    0 => o.operator == b"m" && o.operands.len() == 2 && matches(&X::F(j as f32), &o.operands[0]) && matches(&X::F(0.5), &o.operands[1]),
                    1 => o.operator == b"h" && o.operands.is_empty(),
                    2 => o.operator == b"Tj" && o.operands == [pdf::V::Str(b"x".to_vec())],
                    _ => o.operator == b"Do" && o.operands == [pdf::V::Name(vec![])],
                });
            ok.then_some(()).ok_or_else(|| "read back differently".into())
        });
        if let Err(e) = e {
            c.fail(&what(), || format!("{}: {e}", what()));
        }
        c.states_by_construction(1);
        c.steps(n as u64);
        c.trace();
    });
    c.note("long streams", format!("{} lengths up to {}", ns.len(), ns[0]));
}
