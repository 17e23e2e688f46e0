//! Reference reader: a strict, independent parser for PDF syntax.
//!
//! Nothing in here is derived from the code under test; it follows
//! ISO 32000-1 clause 7 (lexical conventions, objects, file structure).

use std::collections::BTreeMap;

pub type R<T> = Result<T, String>;

/// A value read back.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(i64),
    /// A real number, as written.
    Real(String),
    Name(Vec<u8>),
    Str(Vec<u8>),
    Arr(Vec<V>),
    Dict(Vec<(Vec<u8>, V)>),
    Ref(i64, i64),
}

impl V {
    pub fn get(&self, key: &str) -> Option<&V> {
        match self {
            V::Dict(d) => d.iter().find(|(k, _)| k == key.as_bytes()).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            V::Int(i) => Some(*i),
            _ => None,
        }
    }
}

pub fn is_ws(b: u8) -> bool {
    matches!(b, 0 | 9 | 10 | 12 | 13 | 32)
}
pub fn is_delim(b: u8) -> bool {
    matches!(b, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'{' | b'}' | b'/' | b'%')
}
pub fn is_regular(b: u8) -> bool {
    !is_ws(b) && !is_delim(b)
}

/// A lexical token.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Int(i64),
    Real(String),
    Name(Vec<u8>),
    Str(Vec<u8>),
    ArrOpen,
    ArrClose,
    DictOpen,
    DictClose,
    BraceOpen,
    BraceClose,
    /// Any other run of regular characters.
    Word(Vec<u8>),
}

#[derive(Clone)]
pub struct Lex<'a> {
    pub d: &'a [u8],
    pub p: usize,
}

fn hexval(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}

impl<'a> Lex<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Self { d, p: 0 }
    }
    pub fn at(d: &'a [u8], p: usize) -> Self {
        Self { d, p }
    }
    pub fn peek(&self) -> Option<u8> {
        self.d.get(self.p).copied()
    }
    pub fn skip_ws(&mut self) {
        while let Some(b) = self.peek() {
            if is_ws(b) {
                self.p += 1;
            } else if b == b'%' {
                while let Some(b) = self.peek() {
                    if b == b'\n' || b == b'\r' {
                        break;
                    }
                    self.p += 1;
                }
            } else {
                break;
            }
        }
    }
    pub fn done(&mut self) -> bool {
        self.skip_ws();
        self.p >= self.d.len()
    }
    pub fn lit(&mut self, s: &[u8]) -> R<()> {
        if self.d[self.p.min(self.d.len())..].starts_with(s) {
            self.p += s.len();
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", String::from_utf8_lossy(s), self.p))
        }
    }

    pub fn next(&mut self) -> R<Option<Tok>> {
        self.skip_ws();
        let Some(b) = self.peek() else { return Ok(None) };
        self.p += 1;
        Ok(Some(match b {
            b'[' => Tok::ArrOpen,
            b']' => Tok::ArrClose,
            b'{' => Tok::BraceOpen,
            b'}' => Tok::BraceClose,
            b'<' => {
                if self.peek() == Some(b'<') {
                    self.p += 1;
                    Tok::DictOpen
                } else {
                    self.hex()?
                }
            }
            b'>' => {
                if self.peek() == Some(b'>') {
                    self.p += 1;
                    Tok::DictClose
                } else {
                    return Err(format!("stray '>' at {}", self.p));
                }
            }
            b'(' => self.literal()?,
            b')' => return Err(format!("stray ')' at {}", self.p)),
            b'/' => self.name()?,
            _ => {
                let s = self.p - 1;
                while self.peek().is_some_and(is_regular) {
                    self.p += 1;
                }
                word(&self.d[s..self.p])?
            }
        }))
    }

    fn name(&mut self) -> R<Tok> {
        let mut out = vec![];
        while let Some(b) = self.peek() {
            if !is_regular(b) {
                break;
            }
            if !(0x21..=0x7e).contains(&b) {
                return Err(format!("non-printable byte {b:#x} in name at {}", self.p));
            }
            self.p += 1;
            if b == b'#' {
                let h = self.d.get(self.p).copied().and_then(hexval);
                let l = self.d.get(self.p + 1).copied().and_then(hexval);
                match (h, l) {
                    (Some(h), Some(l)) => {
                        out.push(h << 4 | l);
                        self.p += 2;
                    }
                    _ => return Err(format!("bad # escape in name at {}", self.p)),
                }
            } else {
                out.push(b);
            }
        }
        Ok(Tok::Name(out))
    }

    fn hex(&mut self) -> R<Tok> {
        let mut out = vec![];
        let mut hi: Option<u8> = None;
        loop {
            let Some(b) = self.peek() else { return Err("unterminated hex string".into()) };
            self.p += 1;
            if b == b'>' {
                break;
            }
            if is_ws(b) {
                continue;
            }
            let Some(v) = hexval(b) else {
                return Err(format!("bad byte {b:#x} in hex string at {}", self.p - 1));
            };
            match hi.take() {
                None => hi = Some(v),
                Some(h) => out.push(h << 4 | v),
            }
        }
        if let Some(h) = hi {
            out.push(h << 4);
        }
        Ok(Tok::Str(out))
    }

    fn literal(&mut self) -> R<Tok> {
        let mut out = vec![];
        let mut depth = 1;
        loop {
            let Some(b) = self.peek() else { return Err("unterminated literal string".into()) };
            self.p += 1;
            match b {
                b'(' => {
                    depth += 1;
                    out.push(b);
                }
                b')' => {
                    depth -= 1;
                    if depth == 0 {
                        break;
                    }
                    out.push(b);
                }
                b'\r' => {
                    if self.peek() == Some(b'\n') {
                        self.p += 1;
                    }
                    out.push(b'\n');
                }
                b'\\' => {
                    let Some(e) = self.peek() else {
                        return Err("unterminated escape".into());
                    };
                    self.p += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b'r' => out.push(b'\r'),
                        b't' => out.push(b'\t'),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'0'..=b'7' => {
                            let mut v = (e - b'0') as u32;
                            for _ in 0..2 {
                                match self.peek() {
                                    Some(c @ b'0'..=b'7') => {
                                        v = v * 8 + (c - b'0') as u32;
                                        self.p += 1;
                                    }
                                    _ => break,
                                }
                            }
                            out.push(v as u8);
                        }
                        b'\r' => {
                            if self.peek() == Some(b'\n') {
                                self.p += 1;
                            }
                        }
                        b'\n' => {}
                        _ => out.push(e),
                    }
                }
                _ => out.push(b),
            }
        }
        Ok(Tok::Str(out))
    }

    /// Parse one value; keywords other than true/false/null are errors.
    pub fn value(&mut self) -> R<V> {
        let pos = self.p;
        match self.next()? {
            None => Err(format!("expected a value at {pos}, found the end")),
            Some(t) => self.value_from(t, 0),
        }
    }

    fn value_from(&mut self, t: Tok, depth: usize) -> R<V> {
        if depth > 5000 {
            return Err("nesting too deep".into());
        }
        Ok(match t {
            Tok::Int(i) => {
                // Look ahead for "G R".
                if i >= 0 {
                    let mut l = self.clone();
                    if let Ok(Some(Tok::Int(g))) = l.next() {
                        if g >= 0 {
                            if let Ok(Some(Tok::Word(w))) = l.next() {
                                if w == b"R" {
                                    self.p = l.p;
                                    return Ok(V::Ref(i, g));
                                }
                            }
                        }
                    }
                }
                V::Int(i)
            }
            Tok::Real(s) => V::Real(s),
            Tok::Name(n) => V::Name(n),
            Tok::Str(s) => V::Str(s),
            Tok::ArrOpen => {
                let mut a = vec![];
                loop {
                    match self.next()? {
                        None => return Err("unterminated array".into()),
                        Some(Tok::ArrClose) => break,
                        Some(t) => a.push(self.value_from(t, depth + 1)?),
                    }
                }
                V::Arr(a)
            }
            Tok::DictOpen => {
                let mut d = vec![];
                loop {
                    match self.next()? {
                        None => return Err("unterminated dictionary".into()),
                        Some(Tok::DictClose) => break,
                        Some(Tok::Name(k)) => {
                            let Some(t) = self.next()? else {
                                return Err("unterminated dictionary".into());
                            };
                            let v = self.value_from(t, depth + 1)?;
                            d.push((k, v));
                        }
                        Some(t) => return Err(format!("dictionary key is {t:?}")),
                    }
                }
                V::Dict(d)
            }
            Tok::Word(w) => match &w[..] {
                b"true" => V::Bool(true),
                b"false" => V::Bool(false),
                b"null" => V::Null,
                _ => {
                    return Err(format!(
                        "unexpected keyword {:?} before {}",
                        String::from_utf8_lossy(&w),
                        self.p
                    ))
                }
            },
            t => return Err(format!("unexpected token {t:?} before {}", self.p)),
        })
    }
}

/// Classify a run of regular characters.
fn word(w: &[u8]) -> R<Tok> {
    let body = match w {
        [b'+' | b'-', rest @ ..] => rest,
        w => w,
    };
    if !body.is_empty() && body.iter().all(|b| b.is_ascii_digit()) {
        let s = std::str::from_utf8(w).unwrap();
        let s = s.strip_prefix('+').unwrap_or(s);
        return match s.parse::<i64>() {
            Ok(i) => Ok(Tok::Int(i)),
            // Out of integer range: still a number.
            Err(_) => Ok(Tok::Real(s.to_string())),
        };
    }
    if body.len() > 1
        && body.iter().filter(|b| **b == b'.').count() == 1
        && body.iter().all(|b| b.is_ascii_digit() || *b == b'.')
    {
        return Ok(Tok::Real(String::from_utf8(w.to_vec()).unwrap()));
    }
    Ok(Tok::Word(w.to_vec()))
}

/// Parse a complete slice as one value.
pub fn parse_value(d: &[u8]) -> R<V> {
    let mut l = Lex::new(d);
    let v = l.value()?;
    if !l.done() {
        return Err(format!("trailing bytes at {}", l.p));
    }
    Ok(v)
}

/// An indirect object as found in a file or chunk.
#[derive(Clone, Debug, PartialEq)]
pub struct IObj {
    pub offset: usize,
    pub end: usize,
    pub num: i64,
    pub gen: i64,
    pub val: V,
    pub stream: Option<Vec<u8>>,
}

/// Parse "N G obj ... endobj" at exactly the lexer's position (no leading
/// white space allowed).
pub fn indirect(l: &mut Lex) -> R<IObj> {
    let offset = l.p;
    if !l.peek().is_some_and(|b| b.is_ascii_digit()) {
        return Err(format!("no object header at {offset}"));
    }
    let num = match l.next()? {
        Some(Tok::Int(n)) => n,
        t => return Err(format!("object number is {t:?} at {offset}")),
    };
    let gen = match l.next()? {
        Some(Tok::Int(n)) => n,
        t => return Err(format!("generation is {t:?} at {offset}")),
    };
    match l.next()? {
        Some(Tok::Word(w)) if w == b"obj" => {}
        t => return Err(format!("expected obj, found {t:?} at {offset}")),
    }
    let val = l.value()?;
    let mut stream = None;
    let mut probe = l.clone();
    match probe.next()? {
        Some(Tok::Word(w)) if w == b"endobj" => l.p = probe.p,
        Some(Tok::Word(w)) if w == b"stream" => {
            if !matches!(val, V::Dict(_)) {
                return Err(format!("stream without a dictionary at {offset}"));
            }
            l.p = probe.p;
            if l.lit(b"\r\n").is_err() && l.lit(b"\n").is_err() {
                return Err(format!("no line end after stream keyword at {}", l.p));
            }
            let lens: Vec<_> = match &val {
                V::Dict(d) => d.iter().filter(|(k, _)| k == b"Length").collect(),
                _ => vec![],
            };
            let len = match lens[..] {
                [(_, V::Int(n))] if *n >= 0 => *n as usize,
                _ => return Err(format!("bad stream length {lens:?} at {offset}")),
            };
            if l.p + len > l.d.len() {
                return Err(format!("stream length {len} beyond the end at {offset}"));
            }
            // The data of gigantic streams is passed over.
            let keep = if len < 1 << 30 { len } else { 0 };
            stream = Some(l.d[l.p..l.p + keep].to_vec());
            l.p += len;
            if l.lit(b"\r\n").is_err() && l.lit(b"\n").is_err() && l.lit(b"\r").is_err() {
                return Err(format!("no line end after stream data at {}", l.p));
            }
            l.lit(b"endstream")?;
            match l.next()? {
                Some(Tok::Word(w)) if w == b"endobj" => {}
                t => return Err(format!("expected endobj, found {t:?} at {}", l.p)),
            }
        }
        t => return Err(format!("expected endobj, found {t:?} at {}", l.p)),
    }
    let end = l.p;
    Ok(IObj { offset, end, num, gen, val, stream })
}

/// Parse a chunk: a plain sequence of indirect objects, nothing else.
pub fn parse_chunk(d: &[u8]) -> R<Vec<IObj>> {
    parse_body(d, 0)
}

fn skip_plain_ws(l: &mut Lex) {
    while l.peek().is_some_and(is_ws) {
        l.p += 1;
    }
}

fn parse_body(d: &[u8], start: usize) -> R<Vec<IObj>> {
    let mut l = Lex::at(d, start);
    let mut out = vec![];
    loop {
        skip_plain_ws(&mut l);
        if l.p >= d.len() {
            return Ok(out);
        }
        out.push(indirect(&mut l)?);
        if l.peek().is_some_and(|b| !is_ws(b)) {
            return Err(format!("no white space after endobj at {}", l.p));
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Entry {
    Free { next: u64, gen: u64 },
    Used { offset: u64, gen: u64 },
}

/// A complete file, read through its cross-reference information and checked
/// against a sequential scan of its body.
#[derive(Clone, Debug)]
pub struct Doc {
    pub version: (u8, u8),
    pub marker: [u8; 4],
    pub startxref: usize,
    pub entries: Vec<Entry>,
    pub trailer: V,
    /// Objects in file order.
    pub objs: Vec<IObj>,
    /// The xref stream object, if any (also part of `objs`).
    pub xref_stream: Option<IObj>,
    pub w: Option<[usize; 3]>,
}

impl Doc {
    pub fn obj(&self, num: i64) -> Option<&IObj> {
        self.objs.iter().find(|o| o.num == num)
    }
}

/// Read the header. Returns version, marker and the offset of the body.
fn header(d: &[u8]) -> R<((u8, u8), [u8; 4], usize)> {
    let mut l = Lex::new(d);
    l.lit(b"%PDF-")?;
    let maj = l.peek().filter(|b| b.is_ascii_digit()).ok_or("bad version")?;
    l.p += 1;
    l.lit(b".")?;
    let min = l.peek().filter(|b| b.is_ascii_digit()).ok_or("bad version")?;
    l.p += 1;
    l.lit(b"\n")?;
    l.lit(b"%")?;
    let m: [u8; 4] = d.get(l.p..l.p + 4).ok_or("no marker")?.try_into().unwrap();
    l.p += 4;
    l.lit(b"\n")?;
    Ok(((maj - b'0', min - b'0'), m, l.p))
}

/// How to undo the filter of an xref stream (harness-chosen).
pub type Unfilter<'a> = Option<&'a dyn Fn(&[u8]) -> Vec<u8>>;

pub fn parse_doc(d: &[u8], unfilter: Unfilter) -> R<Doc> {
    let (version, marker, body_start) = header(d)?;
    // Tail.
    let tail = b"%%EOF";
    let trimmed = {
        let mut e = d.len();
        while e > 0 && matches!(d[e - 1], b'\n' | b'\r') {
            e -= 1;
        }
        &d[..e]
    };
    if !trimmed.ends_with(tail) {
        return Err("file does not end with %%EOF".into());
    }
    let t = &trimmed[..trimmed.len() - tail.len()];
    if !t.ends_with(b"\n") && !t.ends_with(b"\r") {
        return Err("no line end before %%EOF".into());
    }
    let sx = rfind(t, b"startxref").ok_or("no startxref")?;
    if sx == 0 || !matches!(t[sx - 1], b'\n' | b'\r') {
        return Err("startxref not on its own line".into());
    }
    let mut l = Lex::at(t, sx + 9);
    let startxref = match l.next()? {
        Some(Tok::Int(n)) if n >= 0 => n as usize,
        t => return Err(format!("startxref is {t:?}")),
    };
    if !l.done() {
        return Err("junk after startxref number".into());
    }
    if startxref >= sx {
        return Err(format!("startxref {startxref} out of range"));
    }

    let mut entries = vec![];
    let trailer;
    let mut xref_stream = None;
    let mut w_out = None;
    let body_end;
    if d[startxref..].starts_with(b"xref") {
        let mut l = Lex::at(d, startxref + 4);
        l.lit(b"\n").or_else(|_| l.lit(b"\r\n"))?;
        let mut expect_first = 0;
        loop {
            let mut probe = l.clone();
            match probe.next()? {
                Some(Tok::Word(w)) if w == b"trailer" => {
                    l.p = probe.p;
                    break;
                }
                Some(Tok::Int(first)) => {
                    let count = match probe.next()? {
                        Some(Tok::Int(n)) if n >= 0 => n as usize,
                        t => return Err(format!("xref count is {t:?}")),
                    };
                    l.p = probe.p;
                    l.lit(b"\n").or_else(|_| l.lit(b"\r\n"))?;
                    if first != expect_first {
                        return Err(format!("xref section starts at {first}"));
                    }
                    for i in 0..count {
                        let e = d.get(l.p..l.p + 20).ok_or("xref entry cut off")?;
                        entries.push(xref_line(e).map_err(|m| {
                            format!("xref entry {}: {m}", first as usize + i)
                        })?);
                        l.p += 20;
                    }
                    expect_first = first + count as i64;
                }
                t => return Err(format!("in xref: {t:?}")),
            }
        }
        trailer = l.value()?;
        if !matches!(trailer, V::Dict(_)) {
            return Err("trailer is not a dictionary".into());
        }
        l.skip_ws();
        if l.p != sx {
            return Err(format!("junk between trailer and startxref at {}", l.p));
        }
        body_end = startxref;
    } else {
        let mut l = Lex::at(d, startxref);
        let o = indirect(&mut l)?;
        l.skip_ws();
        if l.p != sx {
            return Err("junk between xref stream and startxref".into());
        }
        let raw = o.stream.clone().ok_or("xref object is not a stream")?;
        if o.val.get("Type") != Some(&V::Name(b"XRef".to_vec())) {
            return Err("xref stream type missing".into());
        }
        let raw = match unfilter {
            Some(f) => f(&raw),
            None => raw,
        };
        let w: Vec<usize> = match o.val.get("W") {
            Some(V::Arr(a)) => a
                .iter()
                .map(|v| v.int().filter(|n| (0..=8).contains(n)).map(|n| n as usize))
                .collect::<Option<_>>()
                .ok_or("bad W")?,
            _ => return Err("W missing".into()),
        };
        let w: [usize; 3] = w.try_into().map_err(|_| "W must have three widths")?;
        w_out = Some(w);
        let size = o.val.get("Size").and_then(V::int).ok_or("Size missing")?;
        if o.val.get("Index").is_some() {
            return Err("unexpected Index".into());
        }
        let el = w[0] + w[1] + w[2];
        if el == 0 || raw.len() % el != 0 || (raw.len() / el) as i64 != size {
            return Err(format!("xref stream has {} bytes for Size {size}, W {w:?}", raw.len()));
        }
        for c in raw.chunks(el) {
            let num = |s: &[u8]| s.iter().fold(0u64, |a, b| a << 8 | *b as u64);
            let t = if w[0] == 0 { 1 } else { num(&c[..w[0]]) };
            let f2 = num(&c[w[0]..w[0] + w[1]]);
            let f3 = num(&c[w[0] + w[1]..]);
            entries.push(match t {
                0 => Entry::Free { next: f2, gen: f3 },
                1 => Entry::Used { offset: f2, gen: f3 },
                _ => return Err(format!("xref stream entry type {t}")),
            });
        }
        trailer = o.val.clone();
        body_end = startxref;
        xref_stream = Some(o);
    }

    let mut objs = parse_body(&d[..body_end], body_start)?;
    if let Some(x) = &xref_stream {
        objs.push(x.clone());
    }
    Ok(Doc { version, marker, startxref, entries, trailer, objs, xref_stream, w: w_out })
}

fn xref_line(e: &[u8]) -> R<Entry> {
    let digits = |s: &[u8]| -> R<u64> {
        if s.iter().all(|b| b.is_ascii_digit()) {
            Ok(std::str::from_utf8(s).unwrap().parse().unwrap())
        } else {
            Err(format!("bad digits {:?}", String::from_utf8_lossy(s)))
        }
    };
    let a = digits(&e[..10])?;
    let g = digits(&e[11..16])?;
    if e[10] != b' ' || e[16] != b' ' {
        return Err("bad separators".into());
    }
    if !matches!(&e[18..], b"\r\n" | b" \n" | b" \r") {
        return Err(format!("bad line end {:?}", &e[18..]));
    }
    match e[17] {
        b'n' => Ok(Entry::Used { offset: a, gen: g }),
        b'f' => Ok(Entry::Free { next: a, gen: g }),
        c => Err(format!("bad entry kind {c}")),
    }
}

pub fn rfind(h: &[u8], n: &[u8]) -> Option<usize> {
    (0..=h.len().checked_sub(n.len())?).rev().find(|i| h[*i..].starts_with(n))
}

/// Check the cross-reference invariants of a document (C01/C02 oracle): every
/// object is located exactly, everything else is in the circular free list.
pub fn check_xref(doc: &Doc) -> R<()> {
    let mut used: BTreeMap<i64, usize> = BTreeMap::new();
    for o in &doc.objs {
        if used.insert(o.num, o.offset).is_some() {
            return Err(format!("object {} occurs twice", o.num));
        }
        if o.gen != 0 {
            return Err(format!("object {} has generation {}", o.num, o.gen));
        }
    }
    let max = used.keys().last().copied().unwrap_or(0);
    if doc.entries.len() as i64 != max + 1 {
        return Err(format!("{} entries for highest number {max}", doc.entries.len()));
    }
    let size = doc.trailer.get("Size").and_then(V::int);
    if size != Some(max + 1) {
        return Err(format!("Size is {size:?}, expected {}", max + 1));
    }
    let mut free = vec![];
    for (i, e) in doc.entries.iter().enumerate() {
        match (*e, used.get(&(i as i64))) {
            (Entry::Used { offset, gen }, Some(o)) => {
                if offset != *o as u64 || gen != 0 {
                    return Err(format!(
                        "entry {i} says offset {offset} gen {gen}, object is at {o}"
                    ));
                }
            }
            (Entry::Free { .. }, None) => free.push(i as u64),
            (e, o) => return Err(format!("entry {i} is {e:?}, object offset {o:?}")),
        }
    }
    if free.first() != Some(&0) {
        return Err("entry 0 is not free".into());
    }
    for (k, f) in free.iter().enumerate() {
        let want_next = free.get(k + 1).copied().unwrap_or(0);
        let want_gen = if *f == 0 { 65535 } else { 0 };
        if doc.entries[*f as usize] != (Entry::Free { next: want_next, gen: want_gen }) {
            return Err(format!(
                "free entry {f} is {:?}, expected next {want_next} gen {want_gen}",
                doc.entries[*f as usize]
            ));
        }
    }
    Ok(())
}

/// A content stream operation: operands and operator.
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub operands: Vec<V>,
    pub operator: Vec<u8>,
}

pub fn parse_content(d: &[u8]) -> R<Vec<Op>> {
    let mut l = Lex::new(d);
    let mut out = vec![];
    let mut operands = vec![];
    loop {
        match l.next()? {
            None => break,
            Some(Tok::Word(w)) if !matches!(&w[..], b"true" | b"false" | b"null") => {
                out.push(Op { operands: std::mem::take(&mut operands), operator: w });
            }
            Some(t) => operands.push(l.value_from_noref(t)?),
        }
    }
    if !operands.is_empty() {
        return Err(format!("operands without operator at the end: {operands:?}"));
    }
    Ok(out)
}

impl<'a> Lex<'a> {
    /// In content streams there are no references at the top level of operands,
    /// but dictionaries may not contain them either.
    fn value_from_noref(&mut self, t: Tok) -> R<V> {
        match t {
            Tok::Int(i) => Ok(V::Int(i)),
            t => self.value_from(t, 0),
        }
    }
}

/// Decode a PDF text string restricted to what is promised: ASCII (shared by
/// PDFDocEncoding) or UTF-16BE with byte-order mark. Language escapes are kept
/// as U+001B characters.
pub fn decode_text(b: &[u8]) -> R<String> {
    if b.starts_with(&[0xFE, 0xFF]) {
        let b = &b[2..];
        if b.len() % 2 != 0 {
            return Err("odd UTF-16 length".into());
        }
        let u: Vec<u16> = b.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect();
        String::from_utf16(&u).map_err(|_| "lone surrogate".to_string())
    } else if b.iter().all(|c| matches!(c, 9 | 10 | 13 | 0x20..=0x7e)) {
        Ok(String::from_utf8(b.to_vec()).unwrap())
    } else {
        Err(format!("neither ASCII nor UTF-16BE: {b:x?}"))
    }
}
