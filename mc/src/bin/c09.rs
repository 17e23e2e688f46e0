//! C09: numbers keep their value and use plain decimal syntax.
use mc::gen::settings;
use mc::*;
use pdf_writer::*;

/// Split the content into white-space separated tokens (one operand each).
fn tokens(d: &[u8]) -> impl Iterator<Item = &[u8]> {
    d.split(|b| pdf::is_ws(*b)).filter(|t| !t.is_empty())
}
fn is_int(t: &[u8]) -> bool {
    let d = t.strip_prefix(b"-").unwrap_or(t);
    !d.is_empty() && d.iter().all(|b| b.is_ascii_digit())
}
fn is_number(t: &[u8]) -> bool {
    let d = match t {
        [b'-' | b'+', r @ ..] => r,
        t => t,
    };
    let mut dots = 0;
    let mut digits = 0;
    for b in d {
        match b {
            b'.' => dots += 1,
            b'0'..=b'9' => digits += 1,
            _ => return false,
        }
    }
    digits > 0 && dots <= 1
}

fn ints(c: &Ctx, vals: impl Iterator<Item = i32> + Clone) {
    let mut n = 0;
    let out = catch(|| {
        let mut ct = Content::with_capacity(1 << 16);
        ct.op("x").operands(vals.clone());
        ct.finish().into_vec()
    });
    let out = match out {
        Ok(o) => o,
        Err(p) => {
            let v = vals.clone().find(|v| {
                catch(|| {
                    Content::new().op("x").operand(*v);
                })
                .is_err()
            });
            return c.fail(&format!("int {v:?} panic"), || format!("integer {v:?}: {p}"));
        }
    };
    let mut it = tokens(&out);
    for v in vals.clone() {
        n += 1;
        let t = it.next().unwrap_or_default();
        let ok = is_int(t)
            && std::str::from_utf8(t).is_ok_and(|s| s.parse::<i64>() == Ok(v as i64));
        c.check(ok, &format!("int {v}"), || format!("integer {v} written as {}", show_bytes(t)));
    }
    c.check(it.next() == Some(b"x") && it.next().is_none(), "int operator", || show_out(&out));
    c.traces_n(n);
    c.steps(n);
    c.states_by_construction(n);
}

fn floats(c: &Ctx, vals: impl Iterator<Item = f32> + Clone) {
    let vals = vals.filter(|v| v.is_finite());
    let mut n = 0;
    let out = catch(|| {
        let mut ct = Content::with_capacity(1 << 17);
        ct.op("x").operands(vals.clone());
        ct.finish().into_vec()
    });
    let out = match out {
        Ok(o) => o,
        Err(p) => {
            let v = vals.clone().find(|v| {
                catch(|| {
                    Content::new().op("x").operand(*v);
                })
                .is_err()
            });
            return c.fail(&format!("float {v:?} panic"), || format!("float {v:?}: {p}"));
        }
    };
    let mut it = tokens(&out);
    for v in vals.clone() {
        n += 1;
        let t = it.next().unwrap_or_default();
        let ok = is_number(t) && std::str::from_utf8(t).is_ok_and(|s| num_eq(v, s));
        c.check(ok, &format!("float {:08x}", v.to_bits()), || {
            format!("float {v:e} (bits {:08x}) written as {}", v.to_bits(), show_bytes(t))
        });
    }
    c.check(it.next() == Some(b"x") && it.next().is_none(), "float operator", || show_out(&out));
    c.traces_n(n);
    c.steps(n);
    c.states_by_construction(n);
}

/// The same numbers in objects: arrays, dictionaries, rectangles.
fn objects(c: &Ctx, f: f32, i: i32) {
    c.traces_n(2);
    c.steps(20);
    for pretty in [true, false] {
        let r = catch(|| {
            let mut ch = Chunk::with_settings(settings(pretty));
            ch.indirect(Ref::new(1)).primitive(f);
            ch.indirect(Ref::new(2)).primitive(i);
            ch.indirect(Ref::new(3)).array().item(f).item(i).item(f).item(i);
            ch.indirect(Ref::new(4)).dict().pair(Name(b"A"), f).pair(Name(b"B"), i).pair(Name(b"C"), Rect::new(f, 1.0, f, f));
            ch.indirect(Ref::new(5)).array().typed().items([f, f, -f]);
            if i > 0 {
                ch.indirect(Ref::new(i)).primitive(Ref::new(i));
            }
            ch
        });
        let what = format!("objects {:08x} {i}", f.to_bits());
        let ch = match r {
            Ok(ch) => ch,
            Err(p) => return c.fail(&what, || format!("{f:?} {i}: panicked: {p}")),
        };
        let (xf, xi) = (X::F(f), X::I(i as i64));
        let mut want = vec![
            xf.clone(),
            xi.clone(),
            X::Arr(vec![xf.clone(), xi.clone(), xf.clone(), xi.clone()]),
            dict([("A", xf.clone()), ("B", xi.clone()), ("C", X::Arr(vec![xf.clone(), X::F(1.0), xf.clone(), xf.clone()]))]),
            X::Arr(vec![xf.clone(), xf.clone(), X::F(-f)]),
        ];
        if i > 0 {
            want.push(X::Ref(i as i64));
        }
        match pdf::parse_chunk(ch.as_bytes()) {
            Ok(o)
                if o.len() == want.len()
                    && (i <= 0 || o[5].num == i as i64)
                    && want.iter().zip(&o).all(|(x, o)| matches(x, &o.val)) => {}
            o => c.fail(&what, || format!("{f:?} {i}: {o:?}\noutput: {}", show_out(ch.as_bytes()))),
        }
        c.sample(|| format!("{f:e} and {i}: {}", show_out(ch.as_bytes())));
    }
}

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C09");
    let mut edge_i = vec![];
    for k in 0..31 {
        for d in -3..=3 {
            edge_i.push((1i32 << k).wrapping_add(d));
            edge_i.push((1i32 << k).wrapping_neg().wrapping_add(d));
        }
    }
    for k in 0..10 {
        for d in -3..=3 {
            edge_i.push(10i32.pow(k).wrapping_mul(1).wrapping_add(d));
            edge_i.push(-10i32.pow(k) + d);
        }
    }
    edge_i.extend([i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1, 0]);
    edge_i.sort();
    edge_i.dedup();
    // Mantissas with few bits set or cleared.
    let mut mant = vec![0u32, 0x7fffff];
    for a in 0..23 {
        mant.push(1 << a);
        for b in 0..a {
            mant.push(1 << a | 1 << b);
            if c.thorough {
                for d in 0..b {
                    mant.push(1 << a | 1 << b | 1 << d);
                }
            }
        }
    }
    let m2: Vec<u32> = mant.iter().map(|m| m ^ 0x7fffff).collect();
    mant.extend(m2);
    for t in 0..2048u32 {
        mant.push(t << 12);
        mant.push(t << 12 | 0xfff);
    }
    mant.sort();
    mant.dedup();

    c.phase("objects");
    let mut fs: Vec<f32> = vec![];
    for e in 0..255u32 {
        for m in [0u32, 1, 0x400000, 0x7fffff] {
            fs.push(f32::from_bits(e << 23 | m));
            fs.push(-f32::from_bits(e << 23 | m));
        }
    }
    fs.extend([0.1, 1e-6, 1e12, 1e-7, 999999.9, 1e9, 0.3, -0.0, 2147483648.0, -2147483648.0, 2147483520.0, 16777216.0]);
    par(fs.len() * edge_i.len(), |i| objects(c, fs[i / edge_i.len()], edge_i[i % edge_i.len()]));
    c.states_by_construction((fs.len() * edge_i.len()) as u64);

    if c.thorough {
        c.phase("all integers");
        const B: usize = 1 << 14;
        par((1usize << 32) / B, |b| {
            ints(c, (0..B as u32).map(move |j| ((b * B) as u32 + j) as i32))
        });
        c.phase("all floats");
        par((1usize << 32) / B, |b| {
            floats(c, (0..B as u32).map(move |j| f32::from_bits((b * B) as u32 + j)))
        });
        c.note("integers", "all 2^32");
        c.note("floats", "all finite");
    } else {
        c.phase("integers");
        par(1 << 10, |b| ints(c, (0..1 << 12).map(move |j| (b as i32 - 512) * 4096 + j)));
        ints(c, edge_i.iter().copied());
        par(edge_i.len(), |e| {
            ints(c, (-500..500).map(|d| edge_i[e].wrapping_add(d)));
        });
        const STRIDE: usize = 19;
        par((1usize << 32) / STRIDE / 16384, |b| {
            ints(c, (0..16384).map(move |j| ((b * 16384 + j) * STRIDE) as u32 as i32));
        });
        c.note("integers", "-2^21..2^21, every 19th and +-500 around powers of 2 and 10 and the extremes");
        c.phase("floats");
        par(512, |e| {
            floats(c, mant.iter().map(|m| f32::from_bits((e as u32) << 23 | m)));
        });
        // Short decimals, neighbours included.
        par(20_000, |k| {
            floats(c, (0..=8i32).flat_map(move |s| {
                let f = k as f32 / 10f32.powi(s);
                let b = f.to_bits();
                [f, -f, f32::from_bits(b + 1), f32::from_bits(b.saturating_sub(1))]
            }));
        });
        // All decimals with up to four digits at every scale, neighbours included.
        c.phase("scaled decimals");
        par(10_000, |d| {
            floats(c, (-46..39i32).flat_map(move |k| {
                let f: f32 = format!("{d}e{k}").parse().unwrap();
                let b = f.to_bits();
                (-2..=2).flat_map(move |u: i32| {
                    let x = f32::from_bits(b.saturating_add_signed(u));
                    [x, -x]
                })
            }));
        });
        // All decimals with up to six digits, one to seven of them behind the point.
        c.phase("decimals");
        par(1000, |b| {
            floats(c, (0..1000u32).flat_map(move |j| {
                let d = (b as u32 * 1000 + j) as f64;
                (1..=7i32).map(move |s| {
                    let f = (d / 10f64.powi(s)) as f32;
                    if (d as u32 + s as u32) % 2 == 0 { f } else { -f }
                })
            }));
        });
        // Multiples of 1/64, 1/1024 and halves.
        par(1 << 10, |b| {
            floats(c, (0..1u32 << 11).flat_map(move |j| {
                let n = (b as u32) << 11 | j;
                [n as f32 / 64.0, -(n as f32) / 1024.0, n as f32 + 0.5]
            }));
        });
        // An even spread over all bit patterns.
        c.phase("spread");
        const STEP: usize = 13;
        par((1usize << 32) / STEP / 16384, |b| {
            floats(c, (0..16384).map(move |j| f32::from_bits(((b * 16384 + j) * STEP) as u32)));
        });
        // Nines and ones: the places where a digit count changes.
        par(40 * 85, |i| {
            let (n, k) = (i % 40 + 1, i as i32 / 40 - 46);
            floats(c, ["9", "1", "5", "4", "3"].into_iter().flat_map(move |d| {
                let f: f32 = format!("{}.{}e{k}", d, d.repeat(n)).parse().unwrap();
                let b = f.to_bits();
                (-3..=3).flat_map(move |u: i32| {
                    let x = f32::from_bits(b.saturating_add_signed(u));
                    [x, -x]
                })
            }));
        });
        // Everything near the switch-over points.
        c.phase("switch-over");
        for f in [1e-6f32, 1e12, 2147483648.0, 16777216.0, 1e-7, 1e7, 1e16, 8388608.0] {
            let b = f.to_bits();
            par(64, |k| {
                floats(c, (0..1024u32).flat_map(move |j| {
                    let x = f32::from_bits(b - 32768 + k as u32 * 1024 + j);
                    [x, -x]
                }))
            });
        }
        c.note("floats", format!("512 sign/exponent values x {} mantissas, short decimals, d*10^k +-2 for all d < 10000 and k, d*10^-s for all d < 10^6 and s in 1-7, multiples of powers of two, every 13th bit pattern, 65536 values around each switch-over", mant.len()));
    }
    c.finish()
}
