//! Document histories: sequences of (object number, object kind).

use crate::kinds::KINDS;
use crate::model::matches;
use crate::pdf::{self, Doc, IObj, Unfilter};
use pdf_writer::*;
use std::collections::HashMap;

pub type Step = (i32, usize);

pub fn write_all(c: &mut Chunk, steps: &[Step]) {
    for (n, k) in steps {
        (KINDS[*k].write)(c, Ref::new(*n));
    }
}

pub fn build(pretty: bool, steps: &[Step]) -> Pdf {
    let mut p = Pdf::with_settings(crate::gen::settings(pretty));
    write_all(&mut p, steps);
    p
}

pub fn show(steps: &[Step]) -> String {
    let one = |(n, k): &Step| format!("{n}:{}", KINDS[*k].name);
    let join = |s: &[Step]| s.iter().map(one).collect::<Vec<_>>().join(", ");
    if steps.len() <= 40 {
        return join(steps);
    }
    let (a, b) = (&steps[..15], &steps[steps.len() - 15..]);
    format!("{}, [{} more], {}", join(a), steps.len() - 30, join(b))
}

/// The file must parse, satisfy the cross-reference invariants and hold exactly
/// the objects written (plus the xref stream).
pub fn verify(out: &[u8], steps: &[Step], xref: Option<i32>, un: Unfilter) -> Result<Doc, String> {
    let d = pdf::parse_doc(out, un)?;
    pdf::check_xref(&d)?;
    let n = steps.len() + xref.is_some() as usize;
    if d.objs.len() != n {
        return Err(format!("{} objects found, {n} written", d.objs.len()));
    }
    if d.xref_stream.as_ref().map(|o| o.num) != xref.map(|x| x as i64) {
        return Err(format!("xref stream is {:?}", d.xref_stream.as_ref().map(|o| o.num)));
    }
    let by_num: HashMap<i64, &IObj> = d.objs.iter().map(|o| (o.num, o)).collect();
    for (num, k) in steps {
        let o = by_num.get(&(*num as i64)).ok_or_else(|| format!("object {num} missing"))?;
        let want = KINDS[*k].want();
        if !matches(&want, &o.val) || o.stream.as_deref() != KINDS[*k].data {
            return Err(format!("object {num} is {o:?}, expected {}", want.show()));
        }
    }
    Ok(d)
}

/// A document with objects beyond 2 and 4 GiB.
pub fn huge(c: &crate::Ctx, xref: Option<i32>) {
    // Once is enough.
    if !cfg!(debug_assertions) {
        return;
    }
    c.phase("4 GiB");
    let out = crate::catch(|| {
        let data = vec![0; 1_500_000_000];
        let mut p = Pdf::with_capacity(4_600_000_000);
        p.stream(Ref::new(1), &data);
        p.indirect(Ref::new(4)).primitive(1);
        p.stream(Ref::new(2), &data);
        p.indirect(Ref::new(5)).primitive(1);
        p.stream(Ref::new(3), &data);
        p.indirect(Ref::new(8)).primitive(1);
        match xref {
            Some(x) => p.finish_with_xref_stream(Ref::new(x)),
            None => p.finish(),
        }
    });
    let r = out.and_then(|o| pdf::parse_doc(&o, None)).and_then(|d| {
        pdf::check_xref(&d)?;
        let mut n: Vec<i64> = d.objs.iter().map(|o| o.num).collect();
        n.sort();
        let mut want = vec![1, 2, 3, 4, 5, 8];
        want.extend(xref.map(i64::from));
        want.sort();
        if n == want { Ok(()) } else { Err(format!("objects {n:?}")) }
    });
    if let Err(e) = r {
        c.fail("4 GiB", || format!("document of more than 4 GiB: {e}"));
    }
    c.states_by_construction(1);
    c.steps(7);
    c.traces_n(1);
}

/// All injective sequences of length `n` over `pool`.
pub fn arrangements(pool: &[i32], n: usize) -> Vec<Vec<i32>> {
    let mut out: Vec<Vec<i32>> = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|v| {
                pool.iter()
                    .filter(|x| !v.contains(x))
                    .map(|x| {
                        let mut w = v.clone();
                        w.push(*x);
                        w
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
    }
    out
}

/// Number sets made of alternating gaps and runs: all sequences of `(gap, run)`
/// pairs up to the given length, ascending.
pub fn runs(gaps: &[i32], lens: &[i32], pairs: usize) -> Vec<Vec<i32>> {
    let mut out = vec![];
    let k = gaps.len() * lens.len();
    for n in 1..=pairs {
        for i in 0..k.pow(n as u32) {
            let mut at = 1;
            let mut v = vec![];
            for j in crate::seq(i, k, n) {
                at += gaps[j / lens.len()];
                let len = lens[j % lens.len()];
                v.extend(at..at + len);
                at += len;
            }
            out.push(v);
        }
    }
    out
}
