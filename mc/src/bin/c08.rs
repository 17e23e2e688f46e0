//! C08: names read back byte for byte and never merge with neighbours.
use mc::gen::*;
use mc::*;
use pdf_writer::*;

fn bad(c: &Ctx, n: &[u8], ctx: &str, why: String, out: &[u8]) {
    let short = &n[..n.len().min(60)];
    c.fail(&format!("{ctx} len {} {}", n.len(), show_bytes(short)), || {
        format!("name /{} (length {}) in {ctx}: {why}\noutput: {}", show_bytes(short), n.len(), show_out(out))
    })
}

/// As value, key and array item, next to an integer, itself and a word.
fn basic(c: &Ctx, n: &'static [u8], pretty: bool) {
    basic_any(c, n, pretty)
}
fn basic_any(c: &Ctx, n: &[u8], pretty: bool) {
    c.trace();
    c.steps(14);
    let r = catch(|| {
        let mut ch = Chunk::with_settings(settings(pretty));
        ch.indirect(Ref::new(1)).primitive(Name(n));
        ch.indirect(Ref::new(2)).array().item(Name(n)).item(12).item(Name(n)).item(Name(n)).item(true).item(Name(n));
        let mut d = ch.indirect(Ref::new(3)).dict();
        d.pair(Name(n), 7).pair(Name(b"K"), Name(n)).pair(Name(n), Name(n)).pair(Name(n), Null);
        d.insert(Name(n)).dict().insert(Name(n)).array().item(Ref::new(4));
        d.finish();
        ch
    });
    let ch = match r {
        Ok(ch) => ch,
        Err(p) => return bad(c, n, layout(pretty), format!("panicked: {p}"), b""),
    };
    let x = X::Name(n.to_vec());
    let k = || n.to_vec();
    let arr = X::Arr(vec![x.clone(), X::I(12), x.clone(), x.clone(), X::Bool(true), x.clone()]);
    let dict = X::Dict(vec![
        (k(), X::I(7)),
        (b"K".to_vec(), x.clone()),
        (k(), x.clone()),
        (k(), X::Null),
        (k(), X::Dict(vec![(k(), X::Arr(vec![X::Ref(4)]))])),
    ]);
    match pdf::parse_chunk(ch.as_bytes()) {
        Err(e) => bad(c, n, layout(pretty), e, ch.as_bytes()),
        Ok(o) => {
            let ok = o.len() == 3
                && matches(&x, &o[0].val)
                && matches(&arr, &o[1].val)
                && matches(&dict, &o[2].val);
            if !ok {
                bad(c, n, layout(pretty), format!("read back as {o:?}"), ch.as_bytes())
            }
        }
    }
}

/// Every token kind directly after and before, in objects and content.
fn neighbours(c: &Ctx, n: &[u8]) {
    let x = X::Name(n.to_vec());
    for pretty in [true, false] {
        for p in PRIMS {
            c.traces_n(2);
            c.steps(12);
            let r = catch(|| {
                let mut ch = Chunk::with_settings(settings(pretty));
                let mut a = ch.indirect(Ref::new(2)).array();
                a.item(Name(n));
                p.emit(a.push());
                a.item(Name(n));
                a.push().array();
                a.item(Name(n));
                a.push().dict();
                a.finish();
                let mut d = ch.indirect(Ref::new(3)).dict();
                p.emit(d.insert(Name(n)));
                p.emit(d.insert(Name(n)));
                d.finish();
                let mut ct = Content::with_settings(settings(pretty));
                {
                    let mut o = ct.op("gs");
                    o.operand(Name(n));
                    p.emit(o.obj());
                    o.operand(Name(n));
                }
                ct.set_parameters(Name(n)).x_object(Name(n));
                ct.op("sh").operand(Name(n));
                ct.op("Q");
                {
                    let mut o = ct.op("DP");
                    p.emit(o.obj());
                    o.operand(Name(n));
                }
                ct.set_font(Name(n), 12.0).begin_marked_content(Name(n));
                (ch, ct.finish())
            });
            let (ch, ct) = match r {
                Ok(r) => r,
                Err(e) => return bad(c, n, "neighbours", format!("panicked: {e}"), b""),
            };
            let arr = X::Arr(vec![x.clone(), p.x(), x.clone(), X::Arr(vec![]), x.clone(), X::Dict(vec![])]);
            let dict = X::Dict(vec![(n.to_vec(), p.x()), (n.to_vec(), p.x())]);
            let ctx = format!("{} before {p:?}", layout(pretty));
            match pdf::parse_chunk(ch.as_bytes()) {
                Ok(o) if o.len() == 2 && matches(&arr, &o[0].val) && matches(&dict, &o[1].val) => {}
                o => bad(c, n, &ctx, format!("{o:?}"), ch.as_bytes()),
            }
            if let P::Ref(_) = p {
                continue; // references do not occur in content streams
            }
            let want: Vec<(Vec<X>, &str)> = vec![
                (vec![x.clone(), p.x(), x.clone()], "gs"),
                (vec![x.clone()], "gs"),
                (vec![x.clone()], "Do"),
                (vec![x.clone()], "sh"),
                (vec![], "Q"),
                (vec![p.x(), x.clone()], "DP"),
                (vec![x.clone(), X::F(12.0)], "Tf"),
                (vec![x.clone()], "BMC"),
            ];
            let ctx = format!("content {} next to {p:?}", layout(pretty));
            match pdf::parse_content(&ct) {
                Err(e) => bad(c, n, &ctx, e, &ct),
                Ok(ops) => {
                    let ok = ops.len() == want.len()
                        && ops.iter().zip(&want).all(|(o, (a, w))| {
                            o.operator == w.as_bytes()
                                && o.operands.len() == a.len()
                                && a.iter().zip(&o.operands).all(|(x, v)| matches(x, v))
                        });
                    if !ok {
                        bad(c, n, &ctx, format!("read back as {ops:?}"), &ct)
                    }
                }
            }
        }
    }
}

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C08");
    c.phase("all short names");
    for len in 0..=3 {
        let n = 256usize.pow(len as u32);
        par(n, |i| {
            let s: Vec<u8> = seq(i, 256, len).iter().map(|b| *b as u8).collect();
            basic_any(c, &s, false);
            if len < 3 {
                basic_any(c, &s, true);
            }
            if len < 2 {
                neighbours(c, &s);
            }
        });
        c.states_by_construction(n as u64);
    }
    let alphas: &[(&[u8], usize, usize)] =
        &[(b"#a2F/\x00", 6, 7), (b"# ()<>[]{}/%", 4, 5), (b"R0 \nstream", 5, 6), (b"!~\x7f\x80\xff\x20\x21\x1f", 5, 6)];
    for (a, q, t) in alphas {
        let max = c.bound(*q, *t);
        for len in 0..=max {
            c.phase(&format!("alphabet {} length {len}", show_bytes(a)));
            let n = a.len().pow(len as u32);
            par(n, |i| {
                let s: Vec<u8> = seq(i, a.len(), len).iter().map(|j| a[*j]).collect();
                basic_any(c, &s, i % 2 == 0);
                if len <= 2 {
                    neighbours(c, &s);
                }
                if i == n / 2 {
                    c.sample(|| format!("/{}", show_bytes(&s)));
                }
            });
            c.states_by_construction(n as u64);
        }
        c.note(&format!("alphabet {}", show_bytes(a)), max);
    }
    c.phase("known names");
    for n in [&b"endobj"[..], b"stream", b"true", b"1", b"-1.5", b"R", b"0 R", b"obj", b"BT", b"gs", b"Length"] {
        let n: &'static [u8] = n;
        basic(c, n, true);
        basic(c, n, false);
        neighbours(c, n);
    }
    c.phase("long");
    let top = c.bound(600, 4000);
    par(top, |n| {
        for p in [&b"a"[..], b"#", b" ", b"\xff", b"a/"] {
            let s: Vec<u8> = p.iter().cycle().take(n).copied().collect();
            basic_any(c, &s, n % 2 == 0);
        }
    });
    c.states_by_construction(top as u64 * 5);
    c.phase("sizes");
    let ns = sizes(c.bound(70_000, 1_000_003));
    let pats = [&b"a"[..], b"#", b" ", b"\xff", b"a/", b"a#20", b"\x00"];
    par(ns.len() * pats.len(), |i| {
        let n = ns[ns.len() - 1 - i / pats.len()];
        let s: Vec<u8> = pats[i % pats.len()].iter().cycle().take(n).copied().collect();
        basic_any(c, &s, i % 2 == 0);
    });
    c.note("sizes of long names", format!("{ns:?}"));
    // One or two special bytes at every place among ordinary ones.
    c.phase("places");
    let spec = [b'#', b' ', b'/', b'(', b'%', b'0', 0, 0x7f, 0x80, 0xff, b'~', b'!'];
    for len in c.bound(vec![9, 34, 66, 130, 258], vec![9, 17, 34, 66, 127, 128, 129, 258, 514, 1026]) {
        par(len * spec.len(), |i| {
            let (at, b) = (i / spec.len(), spec[i % spec.len()]);
            for b2 in spec {
                for at2 in [at + 1, at + 2, len / 2, len - 1] {
                    let mut s: Vec<u8> = (0..len).map(|j| b'a' + (j % 26) as u8).collect();
                    s[at] = b;
                    if at2 < len {
                        s[at2] = b2;
                    }
                    basic_any(c, &s, i % 2 == 0);
                }
            }
        });
        c.states_by_construction((len * spec.len()) as u64);
    }
    c.note("all names up to length", 3);
    c.note("long names up to", top);
    c.finish()
}
