//! C19: PostScript calculator programs encode to the same program.
use mc::pdf::{Lex, Tok};
use mc::*;
use pdf_writer::types::PostScriptOp as Op;

fn main() {
    guard(explore)
}

/// A program as data.
#[derive(Clone, Debug, PartialEq)]
enum T {
    R(f32),
    I(i32),
    O(&'static str),
    If(Vec<T>),
    IfElse(Vec<T>, Vec<T>),
}

macro_rules! ops {
    ($($v:ident $n:literal)*) => {
        const NAMES: &[&str] = &[$($n),*];
        fn op(n: &str) -> Op<'static> {
            match n {
                $($n => Op::$v,)*
                n => panic!("{n}"),
            }
        }
        /// Fails to compile when an operator is missing from the list.
        #[allow(dead_code)]
        fn complete(o: Op) -> &'static str {
            match o {
                Op::Real(_) | Op::Integer(_) => "",
                Op::If(_) => "if",
                Op::IfElse(..) => "ifelse",
                $(Op::$v => $n,)*
            }
        }
    };
}
ops! {
    Abs "abs" Add "add" Atan "atan" Ceiling "ceiling" Cos "cos" Cvi "cvi" Cvr "cvr" Div "div"
    Exp "exp" Floor "floor" Idiv "idiv" Ln "ln" Log "log" Mod "mod" Mul "mul" Neg "neg"
    Round "round" Sin "sin" Sqrt "sqrt" Sub "sub" Truncate "truncate"
    And "and" Bitshift "bitshift" Eq "eq" False "false" Ge "ge" Gt "gt" Le "le" Lt "lt" Ne "ne"
    Not "not" Or "or" True "true" Xor "xor"
    Copy "copy" Dup "dup" Exch "exch" Index "index" Pop "pop" Roll "roll"
}

/// Owner of the slices a borrowed program points into.
#[derive(Default)]
struct Arena(Vec<*mut [Op<'static>]>);
impl Arena {
    fn build(&mut self, p: &[T]) -> &'static [Op<'static>] {
        let v: Vec<Op<'static>> = p
            .iter()
            .map(|t| match t {
                T::R(r) => Op::Real(*r),
                T::I(i) => Op::Integer(*i),
                T::O(n) => op(n),
                T::If(a) => Op::If(self.build(a)),
                T::IfElse(a, b) => {
                    let a = self.build(a);
                    Op::IfElse(a, self.build(b))
                }
            })
            .collect();
        let b = Box::into_raw(v.into_boxed_slice());
        self.0.push(b);
        unsafe { &*b }
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        for p in self.0.drain(..) {
            drop(unsafe { Box::from_raw(p) });
        }
    }
}

/// A PDF calculator function: one block and nothing else.
fn parse(d: &[u8]) -> Result<Vec<T>, String> {
    if d.contains(&b'%') {
        return Err("comment".into());
    }
    let mut l = Lex::new(d);
    if l.next()? != Some(Tok::BraceOpen) {
        return Err("does not start with a block".into());
    }
    let p = block(&mut l)?;
    match l.next()? {
        None => Ok(p),
        t => Err(format!("{t:?} after the program")),
    }
}

fn block(l: &mut Lex) -> Result<Vec<T>, String> {
    enum E {
        T(T),
        B(Vec<T>),
    }
    let mut out: Vec<E> = vec![];
    loop {
        match l.next()? {
            Some(Tok::BraceClose) => break,
            Some(Tok::BraceOpen) => out.push(E::B(block(l)?)),
            Some(Tok::Int(i)) => {
                out.push(E::T(T::I(i32::try_from(i).map_err(|_| format!("integer {i}"))?)))
            }
            Some(Tok::Real(s)) => out.push(E::T(T::R(s.parse().map_err(|_| format!("real {s}"))?))),
            Some(Tok::Word(w)) => {
                let w = String::from_utf8_lossy(&w).into_owned();
                match w.as_str() {
                    "if" => match out.pop() {
                        Some(E::B(a)) => out.push(E::T(T::If(a))),
                        _ => return Err("if without block".into()),
                    },
                    "ifelse" => match (out.pop(), out.pop()) {
                        (Some(E::B(b)), Some(E::B(a))) => out.push(E::T(T::IfElse(a, b))),
                        _ => return Err("ifelse without two blocks".into()),
                    },
                    w => match NAMES.iter().find(|n| **n == w) {
                        Some(n) => out.push(E::T(T::O(n))),
                        None => return Err(format!("unknown operator {w}")),
                    },
                }
            }
            t => return Err(format!("unexpected {t:?}")),
        }
    }
    out.into_iter()
        .map(|e| match e {
            E::T(t) => Ok(t),
            E::B(_) => Err("block without if".to_string()),
        })
        .collect()
}

fn size(p: &[T]) -> usize {
    p.iter()
        .map(|t| match t {
            T::If(a) => 1 + size(a),
            T::IfElse(a, b) => 1 + size(a) + size(b),
            _ => 1,
        })
        .sum()
}

fn check(c: &Ctx, p: &[T]) {
    let mut a = Arena::default();
    let ops = a.build(p);
    let what = || {
        let s = format!("{p:?}");
        if s.len() > 300 { format!("{}…", &s[..s.floor_char_boundary(300)]) } else { s }
    };
    c.states_by_construction(1);
    c.steps(size(p) as u64);
    c.traces_n(1);
    match catch(|| Op::encode(ops)) {
        Err(e) => c.fail(&what(), || format!("encoding {} panicked: {e}", what())),
        Ok(buf) => match parse(buf.as_slice()) {
            Ok(q) if q == p => c.sample(|| format!("{} -> {}", what(), show_out(buf.as_slice()))),
            q => c.fail(&what(), || {
                format!("{} encodes to {} which reads as {}", what(), show_out(buf.as_slice()),
                    match q { Ok(q) => format!("{q:?}").chars().take(400).collect(), Err(e) => e })
            }),
        },
    }
}

/// All programs with exactly `n` operations over leaf alphabet `a`.
fn programs(a: &[T], n: usize, memo: &mut Vec<Vec<Vec<T>>>) {
    while memo.len() <= n {
        let n = memo.len();
        let mut out = vec![];
        if n == 0 {
            out.push(vec![]);
        }
        // First operation of size k, the rest of size n - k.
        for k in 1..=n {
            let mut first: Vec<T> = vec![];
            if k == 1 {
                first.extend(a.iter().cloned());
            }
            for b in &memo[k - 1] {
                first.push(T::If(b.clone()));
            }
            for i in 0..k {
                for x in &memo[i] {
                    for y in &memo[k - 1 - i] {
                        first.push(T::IfElse(x.clone(), y.clone()));
                    }
                }
            }
            for f in &first {
                for r in &memo[n - k] {
                    let mut v = vec![f.clone()];
                    v.extend(r.iter().cloned());
                    out.push(v);
                }
            }
        }
        memo.push(out);
    }
}

fn explore() {
    let c = Ctx::new("C19");
    let mut leaves: Vec<T> = NAMES.iter().map(|n| T::O(n)).collect();
    leaves.extend(
        [0.0, -0.0, 1.0, -1.0, 0.5, 1e-7, -1e-38, 3.4e38, 1e20, 16777216.0, 0.1, 255.0, f32::MIN_POSITIVE, 1e-45]
            .map(T::R),
    );
    leaves.extend([0, 1, -1, 255, i32::MAX, i32::MIN].map(T::I));
    let n = leaves.len();
    c.note("operators and operands", n + 2);

    c.phase("flat programs");
    all_seqs(n, 4, |s| {
        let p: Vec<T> = s.iter().map(|i| leaves[*i].clone()).collect();
        check(c, &p);
    });
    c.phase("conditionals around every pair");
    par(n * n, |i| {
        let (a, b) = (leaves[i % n].clone(), leaves[i / n].clone());
        let v = |t: &T| vec![t.clone()];
        check(c, &[T::If(v(&a)), b.clone()]);
        check(c, &[a.clone(), T::If(v(&b))]);
        check(c, &[a.clone(), T::If(vec![]), b.clone()]);
        check(c, &[T::IfElse(v(&a), v(&b))]);
        check(c, &[T::IfElse(vec![a.clone(), b.clone()], vec![]), b.clone()]);
        check(c, &[a.clone(), T::IfElse(vec![], vec![a.clone(), b.clone()])]);
        check(c, &[T::If(vec![a.clone(), b.clone()]), T::If(vec![T::If(v(&b)), a.clone()])]);
        check(c, &[T::IfElse(vec![a.clone(), T::If(v(&b))], vec![T::IfElse(v(&a), v(&b)), b])]);
    });
    c.phase("all block structures");
    let mut memo = vec![];
    let max = c.bound(4, 6);
    programs(&[T::R(2.0), T::I(3), T::O("add"), T::O("true")], max, &mut memo);
    for (k, ps) in memo.iter().enumerate() {
        c.note(&format!("programs with {k} operations"), ps.len());
        par(ps.len(), |i| check(c, &ps[i]));
    }
    drop(memo);
    let mut memo = vec![];
    programs(&[T::O("dup")], c.bound(6, 8), &mut memo);
    for (k, ps) in memo.iter().enumerate() {
        c.note(&format!("block structures with {k} operations"), ps.len());
        par(ps.len(), |i| check(c, &ps[i]));
    }
    drop(memo);
    c.phase("depth and length");
    let mut ds: Vec<usize> = (0..c.bound(601, 1101)).collect();
    ds.extend(sizes(c.bound(2049, 8193)).into_iter().filter(|d| *d > c.bound(600, 1100)));
    par(ds.len(), |k| {
        let d = ds[k] as i32;
        let mut p = vec![T::R(1.0)];
        let mut q = vec![];
        for i in 0..d {
            p = match i % 3 {
                0 => vec![T::If(p)],
                1 => vec![T::I(i), T::IfElse(p, vec![T::O("neg")])],
                _ => vec![T::IfElse(vec![], p), T::O("pop")],
            };
            q = vec![T::If(q)];
        }
        check(c, &p);
        check(c, &q);
        let flat: Vec<T> = (0..d).map(|i| leaves[i as usize * 7 % n].clone()).collect();
        check(c, &flat);
    });
    c.note("depth of nested conditionals", format!("every depth up to {}, {} depths up to {}", c.bound(600, 1100), ds.len(), ds.iter().max().unwrap()));
    // Long programs and long branches.
    let ns = sizes(c.bound(70_000, 300_000));
    par(ns.len() * 6, |i| {
        let l = ns[ns.len() - 1 - i / 6];
        let flat = |l: usize| -> Vec<T> { (0..l).map(|j| leaves[(j * 7 + i) % n].clone()).collect() };
        let two = T::IfElse(vec![T::I(1)], vec![T::R(2.5)]);
        let p = match i % 6 {
            0 => flat(l),
            1 => vec![T::If(flat(l)), T::O("add")],
            2 => vec![T::IfElse(flat(l), flat(l / 2)), T::O("add")],
            3 => vec![T::IfElse(flat(3), flat(l)), T::O("add")],
            4 => vec![T::If(vec![]); l],
            _ => vec![two; l],
        };
        check(c, &p);
    });
    c.note("program lengths", format!("{} sizes up to {}", ns.len(), ns.iter().max().unwrap()));
    c.phase("operand values");
    // Every integer with at most four distinct bytes patterns, every sign,
    // exponent and leading mantissa pattern of reals; thorough: all.
    let vals: Vec<u32> = {
        let b = [0u32, 1, 0x7f, 0x80, 0xff, 0x0a];
        (0..b.len().pow(4)).map(|i| seq(i, b.len(), 4).iter().fold(0, |a, j| a << 8 | b[*j])).collect()
    };
    par(vals.len(), |i| check(c, &[T::I(vals[i] as i32), T::O("cvr")]));
    // Many values in one program, checked token by token; a mismatch is
    // reported as the program with that value alone.
    let reals = |bits: &mut dyn Iterator<Item = u32>| {
        let fs: Vec<f32> = bits.map(f32::from_bits).filter(|f| f.is_finite()).collect();
        let ops: Vec<Op> = fs.iter().map(|f| Op::Real(*f)).collect();
        let buf = Op::encode(&ops);
        let s = buf.as_slice();
        let inner = s.strip_prefix(b"{").and_then(|s| s.strip_suffix(b"}")).unwrap_or_default();
        let mut toks = inner.split(|b| pdf::is_ws(*b)).filter(|t| !t.is_empty());
        for f in &fs {
            let ok = toks.next().is_some_and(|t| {
                t.iter().filter(|b| **b == b'.').count() == 1
                    && t.iter().enumerate().all(|(i, b)| {
                        b.is_ascii_digit() || *b == b'.' || (i == 0 && *b == b'-')
                    })
                    && std::str::from_utf8(t).unwrap().parse::<f32>().is_ok_and(|g| g == *f)
            });
            if !ok {
                check(c, &[T::R(*f)]);
                check(c, &fs.iter().map(|f| T::R(*f)).collect::<Vec<_>>());
                break;
            }
        }
        if toks.next().is_some() {
            check(c, &fs.iter().map(|f| T::R(*f)).collect::<Vec<_>>());
        }
        c.states_by_construction(fs.len() as u64);
        c.steps(fs.len() as u64);
        c.traces_n(1);
    };
    par(1 << 16, |hi| {
        let hi = (hi as u32) << 16;
        if c.thorough {
            for mid in 0..16u32 {
                reals(&mut (0..1u32 << 12).map(|lo| hi | mid << 12 | lo));
            }
        } else {
            reals(&mut [0, 1, 0x5555, 0x8000, 0xffff].iter().map(|lo| hi | lo));
        }
    });
    c.finish()
}
