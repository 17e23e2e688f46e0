//! C07: text strings decode to the same text and language tags.
use mc::gen::*;
use mc::*;
use pdf_writer::*;

fn write(v: impl Primitive + Copy, pretty: bool) -> Result<Vec<u8>, String> {
    catch(|| {
        let mut ch = Chunk::with_settings(settings(pretty));
        ch.indirect(Ref::new(1)).array().item(7).item(v).item(8).item(v).item(Name(b"N"));
        ch.as_bytes().to_vec()
    })
}

fn judge(c: &Ctx, what: &str, want: X, out: Result<Vec<u8>, String>) {
    c.trace();
    c.steps(6);
    let sig = what;
    match out {
        Err(p) => c.fail(sig, || format!("{what}: panicked: {p}")),
        Ok(out) => {
            let list = X::Arr(vec![X::I(7), want.clone(), X::I(8), want, name("N")]);
            match pdf::parse_chunk(&out) {
                Err(e) => c.fail(sig, || format!("{what}: {e}\noutput: {}", show_out(&out))),
                Ok(o) => {
                    let ok = o.len() == 1 && matches(&list, &o[0].val);
                    c.check(ok, sig, || {
                        format!("{what}: read back as {o:?}\noutput: {}", show_out(&out))
                    });
                }
            }
        }
    }
}

fn text(c: &Ctx, t: &str, pretty: bool) {
    let mut short = t.to_string();
    if short.chars().count() > 40 {
        short = short.chars().take(40).collect();
    }
    judge(c, &format!("text {short:?} ({} chars)", t.chars().count()), X::Text(t.into()), write(TextStr(t), pretty));
}

fn lang(c: &Ctx, segs: &[(&str, Option<&str>, &str)], pretty: bool) {
    let ids: Vec<(LanguageIdentifier, &str)> = segs
        .iter()
        .map(|(l, r, t)| {
            let id = match r {
                None => LanguageIdentifier::from_lang(l),
                Some(r) => LanguageIdentifier::from_lang_region(l, r),
            };
            (id.expect("valid identifier rejected"), *t)
        })
        .collect();
    let want = X::Lang(
        segs.iter().map(|(l, r, t)| (format!("{l}{}", r.unwrap_or("")), t.to_string())).collect(),
    );
    let what = if segs.len() > 8 || segs.iter().any(|s| s.2.len() > 60) {
        format!("langtext of {} segments {:?}", segs.len(), segs.iter().map(|s| (s.0, s.1, s.2.len())).take(8).collect::<Vec<_>>())
    } else {
        format!("langtext {segs:?}")
    };
    judge(c, &what, want, write(TextStrWithLang(&ids), pretty));
}

/// The tag written for an identifier.
fn tag(id: LanguageIdentifier) -> Vec<u16> {
    let segs = [(id, "")];
    let out = write(TextStrWithLang(&segs), true).unwrap_or_default();
    match pdf::parse_chunk(&out).ok().as_deref() {
        Some([o]) => match &o.val {
            pdf::V::Arr(a) => match &a[1] {
                pdf::V::Str(s) => s.chunks(2).map(|b| u16::from_be_bytes([b[0], b[1]])).collect(),
                _ => vec![],
            },
            _ => vec![],
        },
        _ => vec![],
    }
}

fn ident(c: &Ctx, l: &str, r: Option<&str>) {
    c.trace();
    c.steps(1);
    let valid = |s: &str| s.len() == 2 && s.bytes().all(|b| b.is_ascii_alphanumeric());
    let want = valid(l) && r.is_none_or(valid);
    let got = catch(|| match r {
        None => LanguageIdentifier::from_lang(l),
        Some(r) => LanguageIdentifier::from_lang_region(l, r),
    });
    let what = format!("identifier {l:?} {r:?}");
    match got {
        Err(p) => c.fail(&what, || format!("{what}: panicked: {p}")),
        Ok(g) => {
            c.check(g.is_some() == want, &what, || {
                format!("{what}: accepted {}, expected {want}", g.is_some())
            });
            if let Some(id) = g {
                let mut w = vec![0xFEFF, 0x1B];
                w.extend(l.encode_utf16());
                w.extend(r.unwrap_or("").encode_utf16());
                w.push(0x1B);
                let t = tag(id);
                c.check(t == w, &what, || format!("{what}: written as {t:x?}"));
            }
        }
    }
}

fn main() {
    guard(explore)
}

fn explore() {
    let c = Ctx::new("C07");
    text(c, "", true);
    text(c, "", false);
    c.phase("code points");
    par(0x110000, |i| {
        let Some(ch) = char::from_u32(i as u32) else { return };
        text(c, ch.encode_utf8(&mut [0; 4]), false);
        if c.thorough || i < 0x3000 || i % 17 == 0 {
            text(c, &format!("a{ch}"), true);
            text(c, &format!("{ch}z{ch}"), false);
        }
        if c.thorough {
            lang(c, &[("en", None, ch.encode_utf8(&mut [0; 4]))], false);
        }
    });
    c.states_by_construction(0x110000 - 0x800);
    let chars: Vec<char> = " ~\u{1f}\u{7f}()\\a\n\r\t\u{0}\u{80}\u{a0}\u{ff}\u{100}\u{7ff}\u{800}\u{20ac}\u{d7ff}\u{e000}\u{fefe}\u{feff}\u{fffe}\u{ffff}\u{10000}\u{1f600}\u{10ffff}\u{1b}"
        .chars()
        .collect();
    let k = chars.len();
    for len in 1..=c.bound(3, 4) {
        c.phase(&format!("strings of {len} boundary characters"));
        par(k.pow(len as u32), |i| {
            let s: String = seq(i, k, len).iter().map(|j| chars[*j]).collect();
            text(c, &s, i % 2 == 0);
            if len < 3 {
                text(c, &s, i % 2 == 1);
            }
            c.sample(|| format!("{s:?}"));
        });
        c.states_by_construction(k.pow(len as u32) as u64);
    }
    c.note("boundary characters", k);
    c.note("string length", c.bound(3, 4));
    let small: Vec<char> = "a(\u{e9}\u{1f600}".chars().collect();
    for len in 4..=c.bound(7, 10) {
        par(4usize.pow(len as u32), |i| {
            let s: String = seq(i, 4, len).iter().map(|j| small[*j]).collect();
            text(c, &s, i % 2 == 0);
        });
        c.states_by_construction(4u64.pow(len as u32));
    }
    c.phase("long");
    par(c.bound(400, 2000), |n| {
        for t in ["a", "\u{e9}", "a\u{1f600}", "(", "\u{ffff}"] {
            text(c, &t.repeat(n), n % 2 == 0);
        }
        // The one non-ASCII character at every place.
        let s: String = (0..64).map(|i| if i == n % 64 { '\u{17f}' } else { 'x' }).collect();
        text(c, &s, true);
    });
    c.phase("sizes");
    let ns = sizes(c.bound(70_000, 1_000_003));
    par(ns.len() * 7, |i| {
        let n = ns[ns.len() - 1 - i / 7];
        let t = match i % 7 {
            0 => "a".repeat(n),
            1 => "\u{e9}".repeat(n),
            2 => "\u{1f600}".repeat(n),
            3 => format!("{}\u{17f}", "x".repeat(n)),
            4 => format!("\u{7f}{}", "x".repeat(n)),
            5 => "(".repeat(n),
            _ => format!("{}{}", "(".repeat(n), ")".repeat(n)),
        };
        text(c, &t, n % 2 == 0);
        if n < 5000 && i % 7 < 6 {
            lang(c, &[("en", None, &t), ("de", Some("CH"), "x"), ("fr", None, &t)], n % 2 == 1);
        }
    });
    c.note("text sizes", format!("{ns:?}"));
    c.phase("places");
    let spec = ['\u{80}', '\u{e9}', '\n', '\u{7f}', '\u{1f}', '\u{10000}', '\u{feff}', '(', ')', '\\'];
    for len in c.bound(vec![40, 130, 260], vec![40, 130, 260, 520, 1040]) {
        par(len * spec.len(), |i| {
            let (at, ch) = (i / spec.len(), spec[i % spec.len()]);
            for ch2 in spec {
                for at2 in [at + 1, len / 2, len - 1] {
                    let s: String = (0..len)
                        .map(|j| if j == at { ch } else if j == at2 { ch2 } else { 'x' })
                        .collect();
                    text(c, &s, i % 2 == 0);
                }
            }
        });
        c.states_by_construction((len * spec.len()) as u64);
    }
    // Language-tagged strings.
    c.phase("segments");
    let ids: &[(&str, Option<&str>)] = &[("en", None), ("de", Some("CH")), ("ZZ", Some("09")), ("a1", None)];
    let texts = ["", "a", "()\\", "\u{e9}", "\u{1f600}\u{10ffff}", "0 R", "\u{feff}x\n"];
    let k = ids.len() * texts.len();
    for len in 0..=c.bound(3, 4) {
        par(k.pow(len as u32), |i| {
            let segs: Vec<_> = seq(i, k, len)
                .iter()
                .map(|j| (ids[j / 7].0, ids[j / 7].1, texts[j % 7]))
                .collect();
            lang(c, &segs, i % 2 == 0);
            if len < 3 {
                lang(c, &segs, i % 2 == 1);
            }
        });
        c.states_by_construction(k.pow(len as u32) as u64);
    }
    c.note("segments", c.bound(3, 4));
    let counts = c.bound(700, 3000);
    par(counts, |n| {
        let seg = |j: usize| (ids[j % 4].0, ids[j % 4].1, texts[j % 7]);
        lang(c, &vec![("en", None, "x\u{e9}"); n], true);
        lang(c, &(0..n).map(seg).collect::<Vec<_>>(), n % 2 == 0);
    });
    for n in [4096, 10_000, 32_768, 65_535, 65_536, 65_537] {
        lang(c, &vec![("en", Some("GB"), "x"); n], true);
    }
    c.note("many segments", counts);
    // Long segments, before and after others.
    let ns: Vec<usize> = sizes(c.bound(70_000, 1_100_000)).into_iter().rev().collect();
    par(ns.len() * 4, |i| {
        let t = ["x", "\u{e9}", "\u{1f600}", "0 R"][i % 4].repeat(ns[i / 4]);
        lang(c, &[("en", None, &t)], i % 8 < 4);
        lang(c, &[("de", Some("CH"), "a"), ("en", Some("GB"), &t), ("ZZ", None, &t), ("a1", None, "()")], i % 8 > 3);
    });
    c.note("segment sizes", format!("{} up to {}", ns.len(), ns[0]));
    // Identifiers: all pairs of ASCII characters, all single characters, and
    // all combinations over a boundary alphabet.
    c.phase("identifiers");
    par(128 * 128, |i| {
        let s: String = [(i / 128) as u8 as char, (i % 128) as u8 as char].iter().collect();
        ident(c, &s, None);
        ident(c, "en", Some(&s));
        ident(c, &s, Some("US"));
    });
    par(0x110000, |i| {
        if let Some(ch) = char::from_u32(i as u32) {
            let s = ch.to_string();
            ident(c, &s, None);
            if i < 0x1000 {
                ident(c, "en", Some(&s));
                ident(c, &format!("a{s}"), None);
            }
        }
    });
    let cand = ["", "e", "en", "eng", "e\u{e9}", "\u{e9}", "EN", "1a", "99", "e-", "  ", "\u{0}a", "enUS", "\u{ff11}", "a_", "\u{661}"];
    for a in cand {
        ident(c, a, None);
        for b in cand {
            ident(c, a, Some(b));
        }
    }
    // Unchecked identifiers are written as given.
    par(65536, |i| {
        let l = [(i >> 8) as u8, i as u8];
        c.trace();
        let t = tag(LanguageIdentifier::new(l, None));
        let w = vec![0xFEFF, 0x1B, l[0] as u16, l[1] as u16, 0x1B];
        c.check(t == w, &format!("new {l:?}"), || format!("new({l:?}) written as {t:x?}"));
        let t = tag(LanguageIdentifier::new(*b"en", Some(l)));
        let w = vec![0xFEFF, 0x1B, 0x65, 0x6e, l[0] as u16, l[1] as u16, 0x1B];
        c.check(t == w, &format!("new region {l:?}"), || format!("region {l:?} written as {t:x?}"));
    });
    c.states_by_construction(65536 * 2 + 128 * 128 * 3);
    c.finish()
}
