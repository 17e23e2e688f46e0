//! C10: dates encode the given components with documented clamping.
use mc::gen::settings;
use mc::*;
use pdf_writer::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum S {
    Month(u8),
    Day(u8),
    Hour(u8),
    Minute(u8),
    Second(u8),
    OffH(i8),
    OffM(u8),
}

fn apply(d: Date, s: S) -> Date {
    match s {
        S::Month(v) => d.month(v),
        S::Day(v) => d.day(v),
        S::Hour(v) => d.hour(v),
        S::Minute(v) => d.minute(v),
        S::Second(v) => d.second(v),
        S::OffH(v) => d.utc_offset_hour(v),
        S::OffM(v) => d.utc_offset_minute(v),
    }
}

/// Reference model.
fn expect(year: u16, steps: &[S]) -> String {
    let mut f: [Option<i32>; 6] = [None; 6];
    let mut om = 0;
    for s in steps {
        match *s {
            S::Month(v) => f[0] = Some((v as i32).max(1).min(12)),
            S::Day(v) => f[1] = Some((v as i32).max(1).min(31)),
            S::Hour(v) => f[2] = Some((v as i32).min(23)),
            S::Minute(v) => f[3] = Some((v as i32).min(59)),
            S::Second(v) => f[4] = Some((v as i32).min(59)),
            S::OffH(v) => f[5] = Some((v as i32).max(-23).min(23)),
            S::OffM(v) => om = (v as i32).min(59),
        }
    }
    let mut s = format!("D:{:04}", year.min(9999));
    for v in &f[..5] {
        match v {
            Some(v) => s.push_str(&format!("{v:02}")),
            None => return s,
        }
    }
    if let Some(h) = f[5] {
        if h == 0 && om == 0 {
            s.push('Z');
        } else {
            s.push_str(&format!("{}{:02}'{om:02}", if h < 0 { '-' } else { '+' }, h.abs()));
        }
    }
    s
}

fn run(c: &Ctx, year: u16, steps: &[S]) {
    c.trace();
    c.steps(steps.len() as u64 + 2);
    let what = || format!("Date::new({year}) {steps:?}");
    let want = expect(year, steps);
    let r = catch(|| {
        let mut d = Date::new(year);
        for s in steps {
            d = apply(d, *s);
        }
        let mut ch = Chunk::with_settings(settings(year % 2 == 0));
        ch.indirect(Ref::new(1)).array().item(1).item(d).item(2).item(d);
        ch
    });
    match r {
        Err(p) => c.fail(&what(), || format!("{}: panicked: {p}", what())),
        Ok(ch) => {
            let w = X::Str(want.clone().into_bytes());
            let list = X::Arr(vec![X::I(1), w.clone(), X::I(2), w]);
            match pdf::parse_chunk(ch.as_bytes()) {
                Ok(o) if o.len() == 1 && matches(&list, &o[0].val) => {}
                _ => c.fail(&what(), || {
                    format!("{}: expected {want}\noutput: {}", what(), show_out(ch.as_bytes()))
                }),
            }
            c.sample(|| format!("{} -> {want}", what()));
        }
    }
}

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C10");
    const FULL: [S; 6] = [S::Month(3), S::Day(17), S::Hour(1), S::Minute(2), S::Second(4), S::OffH(-5)];
    c.phase("years");
    par(65536, |y| {
        run(c, y as u16, &[]);
        run(c, y as u16, &FULL);
    });
    c.states_by_construction(65536 * 2);
    c.phase("components");
    for v in 0..=255u8 {
        for (i, s) in [S::Month(v), S::Day(v), S::Hour(v), S::Minute(v), S::Second(v)].into_iter().enumerate() {
            let mut d = FULL;
            d[i] = s;
            run(c, 2024, &d);
            run(c, 2024, &d[..=i]);
            run(c, 2023, &[s]);
            // Overridden and overriding.
            run(c, 2024, &[&d[..], &[FULL[i]]].concat());
            run(c, 2024, &[&FULL[..], &[s]].concat());
        }
    }
    c.states_by_construction(256 * 25);
    // Whether the combination exists is not checked: fields are independent.
    c.phase("days");
    let years: Vec<u16> = (0..=9999).collect();
    par(years.len(), |i| {
        for month in 1..=12 {
            for day in 1..=31 {
                run(c, years[i], &[S::Month(month), S::Day(day)]);
            }
        }
        for s in [0, 28, 29, 30, 31, 58, 59] {
            for t in [0, 1, 11, 12, 22, 23] {
                run(c, years[i], &[S::Month(12), S::Day(31), S::Hour(t), S::Minute(s), S::Second(s), S::OffH(t as i8), S::OffM(s)]);
            }
        }
    });
    c.states_by_construction(years.len() as u64 * (372 + 42));
    c.note("years with all months and days", years.len());
    c.phase("times");
    par(24 * 60, |i| {
        for sec in 0..60 {
            for (m, d) in [(1, 1), (2, 29), (12, 31)] {
                let steps = [S::Month(m), S::Day(d), S::Hour((i / 60) as u8), S::Minute((i % 60) as u8), S::Second(sec), S::OffH(0)];
                run(c, 2023 + (sec & 1) as u16, &steps[..5 + (i + sec as usize) % 2]);
            }
        }
    });
    c.states_by_construction(24 * 60 * 60 * 3);
    c.phase("zones");
    par(65536, |i| {
        let (h, m) = ((i >> 8) as u8 as i8, i as u8);
        run(c, 2020, &[FULL[0], FULL[1], FULL[2], FULL[3], FULL[4], S::OffH(h), S::OffM(m)]);
        run(c, 2020, &[S::OffM(m), FULL[4], FULL[0], S::OffH(h), FULL[1], FULL[2], FULL[3]]);
        run(c, 2020, &[FULL[0], FULL[1], FULL[2], FULL[3], S::OffH(h), S::OffM(m)]);
    });
    c.states_by_construction(65536 * 3);
    // All subsets in all orders, with in-range, low and high values.
    c.phase("orders");
    let vals = [
        [S::Month(5), S::Day(6), S::Hour(7), S::Minute(8), S::Second(9), S::OffH(3), S::OffM(30)],
        [S::Month(0), S::Day(0), S::Hour(0), S::Minute(0), S::Second(0), S::OffH(0), S::OffM(0)],
        [S::Month(13), S::Day(32), S::Hour(24), S::Minute(60), S::Second(60), S::OffH(-24), S::OffM(60)],
        [S::Month(255), S::Day(255), S::Hour(255), S::Minute(255), S::Second(255), S::OffH(-128), S::OffM(255)],
    ];
    for n in 0..=7 {
        let perms = mc::doc::arrangements(&[0, 1, 2, 3, 4, 5, 6], n);
        par(perms.len(), |i| {
            for v in &vals {
                let steps: Vec<S> = perms[i].iter().map(|j| v[*j as usize]).collect();
                run(c, 1970, &steps);
            }
            // Mixed ranges.
            let steps: Vec<S> =
                perms[i].iter().enumerate().map(|(k, j)| vals[(i + k) % 4][*j as usize]).collect();
            run(c, 1, &steps);
        });
        c.states_by_construction(perms.len() as u64 * 5);
    }
    // All sequences with repetitions.
    c.phase("sequences");
    let alpha: Vec<S> = vals[..3].iter().flatten().copied().collect();
    let max = c.bound(4, 5);
    for n in 1..=max {
        par(alpha.len().pow(n as u32), |i| {
            let steps: Vec<S> = seq(i, alpha.len(), n).iter().map(|j| alpha[*j]).collect();
            run(c, 2000, &steps);
            // The same on top of a complete date.
            if n <= 3 {
                run(c, 2000, &[&vals[0][..], &steps].concat());
            }
        });
        c.states_by_construction(alpha.len().pow(n as u32) as u64);
    }
    c.note("setter sequences with repetition up to", max);
    c.finish()
}
