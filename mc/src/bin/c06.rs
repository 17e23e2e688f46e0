//! C06: byte strings read back byte for byte.
use mc::gen::*;
use mc::*;
use pdf_writer::*;

fn bad(c: &Ctx, s: &[u8], ctx: &str, why: String, out: &[u8]) {
    let short = &s[..s.len().min(60)];
    c.fail(&format!("{ctx} len {} {}", s.len(), show_bytes(short)), || {
        format!("string {} (length {}) in {ctx}: {why}\noutput: {}", show_bytes(short), s.len(), show_out(out))
    })
}

/// Directly, between numbers in a compact array, and as a content operand.
fn basic(c: &Ctx, s: &[u8]) {
    let r = catch(|| {
        let mut ch = Chunk::with_settings(settings(false));
        ch.indirect(Ref::new(1)).primitive(Str(s));
        ch.indirect(Ref::new(2)).array().item(1).item(Str(s)).item(2).item(Str(s)).item(Name(b"N"));
        ch
    });
    c.traces_n(1);
    c.steps(7);
    let ch = match r {
        Ok(ch) => ch,
        Err(p) => return bad(c, s, "array", format!("panicked: {p}"), b""),
    };
    let want = X::Str(s.to_vec());
    let list = X::Arr(vec![X::I(1), want.clone(), X::I(2), want.clone(), name("N")]);
    match pdf::parse_chunk(ch.as_bytes()) {
        Err(e) => bad(c, s, "array", e, ch.as_bytes()),
        Ok(o) => {
            if o.len() != 2 || !matches(&want, &o[0].val) || !matches(&list, &o[1].val) {
                bad(c, s, "array", format!("read back as {o:?}"), ch.as_bytes())
            }
        }
    }
}

/// Every other place a string can go.
fn everywhere(c: &Ctx, s: &[u8]) {
    let want = X::Str(s.to_vec());
    for pretty in [true, false] {
        c.traces_n(4);
        c.steps(20);
        let r = catch(|| {
            let mut p = Pdf::with_settings(settings(pretty));
            {
                let mut st = p.stream(Ref::new(1), b"data");
                st.pair(Name(b"S"), Str(s));
                st.insert(Name(b"A")).array().item(Str(s)).item(Str(s));
            }
            {
                let mut d = p.indirect(Ref::new(2)).dict();
                d.pair(Name(b"A"), Str(s)).pair(Name(b"B"), Str(s));
                d.insert(Name(b"C")).dict().pair(Name(b""), Str(s));
            }
            p.indirect(Ref::new(3)).primitive(Str(s));
            p.set_file_id((s.to_vec(), s.to_vec()));
            let mut ct = Content::with_settings(settings(pretty));
            ct.show(Str(s)).next_line_show(Str(s));
            ct.show_positioned().items().show(Str(s)).adjust(1.0).show(Str(s));
            ct.op("q").operand(Str(s)).operand(1).operand(Str(s));
            (p.finish(), ct.finish())
        });
        let (out, ct) = match r {
            Ok(r) => r,
            Err(p) => return bad(c, s, "document", format!("panicked: {p}"), b""),
        };
        let ctx = format!("document {}", layout(pretty));
        match pdf::parse_doc(&out, None).and_then(|d| pdf::check_xref(&d).map(|_| d)) {
            Err(e) => bad(c, s, &ctx, e, &out),
            Ok(d) => {
                let w = |v: Option<&pdf::V>, x: X| v.is_some_and(|v| matches(&x, v));
                let two = X::Arr(vec![want.clone(), want.clone()]);
                let ok = d.objs.len() == 3
                    && w(d.objs[0].val.get("S"), want.clone())
                    && w(d.objs[0].val.get("A"), two.clone())
                    && d.objs[0].stream.as_deref() == Some(b"data")
                    && matches(
                        &dict([("A", want.clone()), ("B", want.clone()), ("C", dict([("", want.clone())]))]),
                        &d.objs[1].val,
                    )
                    && matches(&want, &d.objs[2].val)
                    && w(d.trailer.get("ID"), two);
                if !ok {
                    bad(c, s, &ctx, "read back differently".into(), &out)
                }
            }
        }
        let ctx = format!("content {}", layout(pretty));
        match pdf::parse_content(&ct) {
            Err(e) => bad(c, s, &ctx, e, &ct),
            Ok(ops) => {
                let wants = [
                    (vec![want.clone()], "Tj"),
                    (vec![want.clone()], "'"),
                    (vec![X::Arr(vec![want.clone(), X::F(1.0), want.clone()])], "TJ"),
                    (vec![want.clone(), X::I(1), want.clone()], "q"),
                ];
                let ok = ops.len() == 4
                    && ops.iter().zip(&wants).all(|(o, (a, n))| {
                        o.operator == n.as_bytes()
                            && o.operands.len() == a.len()
                            && a.iter().zip(&o.operands).all(|(x, v)| matches(x, v))
                    });
                if !ok {
                    bad(c, s, &ctx, format!("read back as {ops:?}"), &ct)
                }
            }
        }
    }
}

/// Every kind of token before and after.
fn neighbours(c: &Ctx, s: &[u8]) {
    for p in PRIMS {
        for pretty in [true, false] {
            c.trace();
            c.steps(5);
            let r = catch(|| {
                let mut ch = Chunk::with_settings(settings(pretty));
                let mut a = ch.indirect(Ref::new(2)).array();
                p.emit(a.push());
                a.item(Str(s));
                p.emit(a.push());
                a.finish();
                ch
            });
            let ch = match r {
                Ok(ch) => ch,
                Err(e) => return bad(c, s, "neighbours", format!("panicked: {e}"), b""),
            };
            let want = X::Arr(vec![p.x(), X::Str(s.to_vec()), p.x()]);
            match pdf::parse_chunk(ch.as_bytes()) {
                Ok(o) if o.len() == 1 && matches(&want, &o[0].val) => {}
                o => bad(c, s, "neighbours", format!("{o:?}"), ch.as_bytes()),
            }
        }
    }
}

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C06");
    c.phase("all short strings");
    for len in 0..=3 {
        let n = 256usize.pow(len as u32);
        par(n, |i| {
            let s: Vec<u8> = seq(i, 256, len).iter().map(|b| *b as u8).collect();
            basic(c, &s);
            if len < 2 || (len == 2 && (c.thorough || i % 256 < 128 && i / 256 < 128)) {
                everywhere(c, &s);
            }
            if len < 2 {
                neighbours(c, &s);
            }
        });
        c.states_by_construction(n as u64);
    }
    let specials: &[(&[u8], usize, usize)] = &[
        (b"(a)\\\n\r\xff07", 6, 8),
        (b"()\\x", 10, 12),
        (b"()", 17, 21),
        (b"\\n\r\n\x08\x0c\t()", 6, 7),
        (b"<>[]{}/%", 5, 7),
        (b"\x00\x01\x7f\x800789", 5, 7),
    ];
    for (alpha, q, t) in specials {
        let max = c.bound(*q, *t);
        for len in 0..=max {
            c.phase(&format!("alphabet {} length {len}", show_bytes(alpha)));
            let n = alpha.len().pow(len as u32);
            par(n, |i| {
                let s: Vec<u8> = seq(i, alpha.len(), len).iter().map(|j| alpha[*j]).collect();
                basic(c, &s);
                if len <= 4 {
                    everywhere(c, &s);
                }
                if len <= 3 {
                    neighbours(c, &s);
                }
                if i == n / 2 {
                    c.sample(|| show_bytes(&s));
                }
            });
            c.states_by_construction(n as u64);
        }
        c.note(&format!("alphabet {}", show_bytes(alpha)), max);
    }
    c.phase("long");
    let pats: &[&[u8]] = &[b"a", b"(", b")", b"()", b")(", b"\\", b"\xfe", b"\n", b"(\\)", b"a\x00"];
    let top = c.bound(700, 3000);
    par(top * pats.len(), |i| {
        let (n, p) = (i / pats.len(), pats[i % pats.len()]);
        let s: Vec<u8> = p.iter().cycle().take(n).copied().collect();
        basic(c, &s);
        if n % 16 == 0 {
            everywhere(c, &s);
        }
        // Balanced nesting of this depth, and with the last one missing.
        let mut b = vec![b'('; n];
        b.extend(vec![b')'; n]);
        if p == b"(" {
            basic(c, &b);
        }
        b.pop();
        if p == b")" {
            basic(c, &b);
        }
    });
    // Sizes around powers of two and of ten, with every kind of (im)balance.
    c.phase("sizes");
    let mut ns = sizes(c.bound(70_000, 1_100_000));
    ns.push(1_000_000);
    par(ns.len() * (pats.len() + 10), |i| {
        let n = ns[ns.len() - 1 - i / (pats.len() + 10)];
        let k = i % (pats.len() + 10);
        let s: Vec<u8> = if let Some(p) = pats.get(k) {
            p.iter().cycle().take(n).copied().collect()
        } else {
            let (o, e) = (vec![b'('; n], vec![b')'; n]);
            match k - pats.len() {
                0 => [o, e].concat(),
                1 => [o, e[n.min(1)..].to_vec()].concat(),
                2 => [o, e, b")(".to_vec()].concat(),
                3 => [b")".to_vec(), o, e, b"(".to_vec()].concat(),
                4 => [vec![b'x'; n], b")".to_vec()].concat(),
                5 => [vec![b'x'; n], b"\\".to_vec()].concat(),
                6 => [b"(".to_vec(), vec![b'x'; n], b")".to_vec()].concat(),
                7 => [b"(".to_vec(), vec![b'x'; n]].concat(),
                8 => [vec![b'\r'; 1], vec![b'x'; n], vec![b'\xff']].concat(),
                _ => [o, b"))((".to_vec(), e].concat(),
            }
        };
        basic(c, &s);
    });
    c.states_by_construction(ns.len() as u64 * (pats.len() + 10) as u64);
    c.note("sizes of long strings", format!("{ns:?}"));
    // One or two special bytes at every place among ordinary ones.
    c.phase("places");
    let spec = [b'(', b')', b'\\', b'\n', b'\r', 0, 0x1f, 0x7f, 0x80, 0xff, b'%', b'<', b'>'];
    let lens = c.bound(vec![40, 66, 130, 258], vec![40, 66, 130, 258, 514, 1026]);
    for len in lens {
        par(len * spec.len(), |i| {
            let (at, b) = (i / spec.len(), spec[i % spec.len()]);
            let mut s: Vec<u8> = (0..len).map(|j| b'a' + (j % 26) as u8).collect();
            s[at] = b;
            basic(c, &s);
            for b2 in spec {
                for at2 in [at + 1, at + 2, len / 2, len - 1] {
                    let mut s = s.clone();
                    if at2 < len {
                        s[at2] = b2;
                        basic(c, &s);
                    }
                }
            }
        });
        c.states_by_construction((len * spec.len()) as u64);
    }
    c.states_by_construction((top * pats.len()) as u64);
    c.note("all byte strings up to length", 3);
    c.note("long strings up to", top);
    c.finish()
}
