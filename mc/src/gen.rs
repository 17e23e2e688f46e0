//! Alphabets of primitive values, value trees, and how they are written with
//! the code under test.

use crate::model::X;
use pdf_writer::*;

/// A primitive value of the public API.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P {
    Bool(bool),
    I(i32),
    F(f32),
    Str(&'static [u8]),
    Text(&'static str),
    Lang(&'static [(&'static str, &'static str, &'static str)]),
    Name(&'static [u8]),
    Null,
    Ref(i32),
    Rect([f32; 4]),
    /// A fixed set of dates, by index.
    Date(u8),
}

pub fn date(i: u8) -> (Date, &'static [u8]) {
    match i {
        0 => (Date::new(1999), b"D:1999"),
        1 => (Date::new(2020).month(3).day(17), b"D:20200317"),
        _ => (
            Date::new(2020)
                .month(12)
                .day(31)
                .hour(23)
                .minute(59)
                .second(58)
                .utc_offset_hour(-5)
                .utc_offset_minute(30),
            b"D:20201231235958-05'30",
        ),
    }
}

pub fn lang_segs(
    l: &[(&'static str, &'static str, &'static str)],
) -> Vec<(LanguageIdentifier, &'static str)> {
    l.iter()
        .map(|(a, r, t)| {
            let id = if r.is_empty() {
                LanguageIdentifier::from_lang(a)
            } else {
                LanguageIdentifier::from_lang_region(a, r)
            };
            (id.unwrap(), *t)
        })
        .collect()
}

/// Evaluate `$e` with `$v` bound to the API value of primitive `$p`.
#[macro_export]
macro_rules! with_prim {
    ($p:expr, $v:ident => $e:expr) => {
        match $p {
            $crate::gen::P::Bool($v) => $e,
            $crate::gen::P::I($v) => $e,
            $crate::gen::P::F($v) => $e,
            $crate::gen::P::Str(s) => {
                let $v = pdf_writer::Str(s);
                $e
            }
            $crate::gen::P::Text(s) => {
                let $v = pdf_writer::TextStr(s);
                $e
            }
            $crate::gen::P::Lang(s) => {
                let segs = $crate::gen::lang_segs(s);
                let $v = pdf_writer::TextStrWithLang(&segs);
                $e
            }
            $crate::gen::P::Name(s) => {
                let $v = pdf_writer::Name(s);
                $e
            }
            $crate::gen::P::Null => {
                let $v = pdf_writer::Null;
                $e
            }
            $crate::gen::P::Ref(r) => {
                let $v = pdf_writer::Ref::new(r);
                $e
            }
            $crate::gen::P::Rect([a, b, c, d]) => {
                let $v = pdf_writer::Rect::new(a, b, c, d);
                $e
            }
            $crate::gen::P::Date(d) => {
                let $v = $crate::gen::date(d).0;
                $e
            }
        }
    };
}

impl P {
    pub fn emit(self, obj: Obj<'_>) {
        with_prim!(self, v => obj.primitive(v))
    }
    pub fn x(self) -> X {
        match self {
            P::Bool(b) => X::Bool(b),
            P::I(i) => X::I(i as i64),
            P::F(f) => X::F(f),
            P::Str(s) => X::Str(s.to_vec()),
            P::Text(t) => X::Text(t.into()),
            P::Lang(l) => X::Lang(
                l.iter().map(|(a, r, t)| (format!("{a}{r}"), t.to_string())).collect(),
            ),
            P::Name(n) => X::Name(n.to_vec()),
            P::Null => X::Null,
            P::Ref(r) => X::Ref(r as i64),
            P::Rect(r) => X::Arr(r.iter().map(|f| X::F(*f)).collect()),
            P::Date(d) => X::Str(date(d).1.to_vec()),
        }
    }
    pub fn lim(self, m: &mut M) {
        match self {
            P::Bool(_) | P::Null => {}
            P::I(i) => m.int(i as i64),
            P::F(f) => m.num(f),
            P::Str(s) => m.str(s.len()),
            P::Text(t) => m.text(t),
            P::Lang(l) => m.str(
                2 + l
                    .iter()
                    .map(|(a, r, t)| {
                        2 * (2 + a.len() + r.len()) + 2 * t.encode_utf16().count()
                    })
                    .sum::<usize>(),
            ),
            P::Name(n) => m.name(n.len()),
            P::Ref(r) => m.int(r as i64),
            P::Rect(r) => {
                r.iter().for_each(|f| m.num(*f));
                m.arr(4);
            }
            P::Date(d) => m.str(date(d).1.len()),
        }
    }
}

/// Reference model of the reported limits.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct M {
    pub int: i64,
    pub real: f32,
    pub name: usize,
    pub str: usize,
    pub arr: usize,
    pub dict: usize,
}

impl M {
    pub fn int(&mut self, i: i64) {
        // i32::MIN has no positive counterpart in the reported type.
        self.int = self.int.max(i.abs().min(i32::MAX as i64));
    }
    /// A float: integers written as such count as integers.
    pub fn num(&mut self, f: f32) {
        if f as i32 as f32 == f {
            self.int(f as i32 as i64)
        } else {
            self.real(f)
        }
    }
    pub fn real(&mut self, f: f32) {
        self.real = self.real.max(f.abs());
    }
    pub fn name(&mut self, n: usize) {
        self.name = self.name.max(n);
    }
    pub fn str(&mut self, n: usize) {
        self.str = self.str.max(n);
    }
    pub fn text(&mut self, t: &str) {
        if t.bytes().all(|b| (32..=126).contains(&b)) {
            self.str(t.len())
        } else {
            self.str(2 + 2 * t.encode_utf16().count())
        }
    }
    pub fn arr(&mut self, n: usize) {
        self.arr = self.arr.max(n);
    }
    pub fn dict(&mut self, n: usize) {
        self.dict = self.dict.max(n);
    }
    pub fn merge(&mut self, o: &M) {
        self.int(o.int);
        self.real(o.real);
        self.name(o.name);
        self.str(o.str);
        self.arr(o.arr);
        self.dict(o.dict);
    }
    pub fn of(l: &Limits) -> M {
        M {
            int: l.int() as i64,
            real: l.real(),
            name: l.name_len(),
            str: l.str_len(),
            arr: l.array_len(),
            dict: l.dict_entries(),
        }
    }
}

/// A value tree.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    P(P),
    A(Vec<T>),
    D(Vec<(&'static [u8], T)>),
}

/// Which API calls build a container.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// `item` / `pair`
    Short,
    /// `push().primitive` / `insert().primitive`, `array()` / `dict()`
    Long,
    /// `items` / `pairs` one at a time, containers via `start::<W>()`
    Multi,
    /// typed wrappers where all children are primitives of one type, else Short
    Typed,
    /// primitives by reference
    Borrowed,
}
pub const MODES: [Mode; 5] =
    [Mode::Short, Mode::Long, Mode::Multi, Mode::Borrowed, Mode::Typed];

impl T {
    pub fn x(&self) -> X {
        match self {
            T::P(p) => p.x(),
            T::A(a) => X::Arr(a.iter().map(T::x).collect()),
            T::D(d) => X::Dict(d.iter().map(|(k, v)| (k.to_vec(), v.x())).collect()),
        }
    }
    pub fn lim(&self, m: &mut M) {
        match self {
            T::P(p) => p.lim(m),
            T::A(a) => {
                a.iter().for_each(|t| t.lim(m));
                m.arr(a.len());
            }
            T::D(d) => {
                d.iter().for_each(|(k, t)| {
                    m.name(k.len());
                    t.lim(m)
                });
                m.dict(d.len());
            }
        }
    }
    /// Number of API calls (roughly).
    pub fn size(&self) -> usize {
        match self {
            T::P(_) => 1,
            T::A(a) => 1 + a.iter().map(T::size).sum::<usize>(),
            T::D(d) => 1 + d.iter().map(|(_, t)| t.size()).sum::<usize>(),
        }
    }
    /// Write the tree. Returns an error when a container reports wrong lengths.
    pub fn emit(&self, obj: Obj<'_>, mode: Mode) -> Result<(), String> {
        let lens = |what: &str, len: i32, empty: bool, want: usize| {
            if len as usize != want || empty != (want == 0) {
                Err(format!("{what} reports len {len}, is_empty {empty} after {want} elements"))
            } else {
                Ok(())
            }
        };
        match self {
            T::P(p) if mode == Mode::Borrowed => with_prim!(*p, v => obj.primitive(&v)),
            T::P(p) => p.emit(obj),
            T::A(items) => match mode {
                Mode::Borrowed
                    if items.len() > 1 && items.iter().all(|t| matches!(t, T::P(P::I(_)))) =>
                {
                    // The usual way to get there: a borrowed slice.
                    let v: Vec<i32> = items
                        .iter()
                        .map(|t| if let T::P(P::I(i)) = t { *i } else { 0 })
                        .collect();
                    let mut a = obj.array();
                    a.items(&v[..1]).items(v[1..].iter());
                    lens("array", a.len(), a.is_empty(), v.len())?;
                }
                Mode::Borrowed
                    if items.len() > 1 && items.iter().all(|t| matches!(t, T::P(P::Ref(_)))) =>
                {
                    let v: Vec<Ref> = items
                        .iter()
                        .map(|t| if let T::P(P::Ref(i)) = t { Ref::new(*i) } else { Ref::new(1) })
                        .collect();
                    let mut a = obj.array().typed::<&Ref>();
                    a.items(&v);
                    lens("typed array", a.len(), a.is_empty(), v.len())?;
                }
                Mode::Typed if items.iter().all(|t| matches!(t, T::P(P::I(_)))) => {
                    let mut a = obj.array().typed::<i32>();
                    for (n, t) in items.iter().enumerate() {
                        lens("typed array", a.len(), a.is_empty(), n)?;
                        if let T::P(P::I(i)) = t {
                            if n % 2 == 0 {
                                a.item(*i);
                            } else {
                                a.items([*i]);
                            }
                        }
                    }
                    lens("typed array", a.len(), a.is_empty(), items.len())?;
                }
                Mode::Typed if items.iter().all(|t| matches!(t, T::P(P::Name(_)))) => {
                    let mut a = obj.start::<TypedArray<Name>>();
                    for (n, t) in items.iter().enumerate() {
                        lens("typed array", a.len(), a.is_empty(), n)?;
                        if let T::P(P::Name(i)) = t {
                            a.item(Name(i));
                        }
                    }
                    lens("typed array", a.len(), a.is_empty(), items.len())?;
                }
                Mode::Typed if items.iter().all(|t| matches!(t, T::A(_))) => {
                    let mut a = obj.start::<TypedArray<Array>>();
                    for (n, t) in items.iter().enumerate() {
                        lens("typed array", a.len(), a.is_empty(), n)?;
                        if let T::A(inner) = t {
                            let mut b = a.push();
                            for (m, t) in inner.iter().enumerate() {
                                lens("array", b.len(), b.is_empty(), m)?;
                                t.emit(b.push(), mode)?;
                            }
                        }
                    }
                    lens("typed array", a.len(), a.is_empty(), items.len())?;
                }
                Mode::Typed if items.iter().all(|t| matches!(t, T::D(_))) => {
                    let mut a = obj.array().typed::<Dict>();
                    for (n, t) in items.iter().enumerate() {
                        lens("typed array", a.len(), a.is_empty(), n)?;
                        if let T::D(inner) = t {
                            let mut b = a.push();
                            for (m, (k, t)) in inner.iter().enumerate() {
                                lens("dict", b.len(), b.is_empty(), m)?;
                                t.emit(b.insert(Name(k)), mode)?;
                            }
                        }
                    }
                    lens("typed array", a.len(), a.is_empty(), items.len())?;
                }
                _ => {
                    let mut a = if mode == Mode::Multi { obj.start::<Array>() } else { obj.array() };
                    for (n, t) in items.iter().enumerate() {
                        lens("array", a.len(), a.is_empty(), n)?;
                        match (t, mode) {
                            (T::P(p), Mode::Short | Mode::Typed) => {
                                with_prim!(*p, v => { a.item(v); })
                            }
                            (T::P(p), Mode::Multi) => with_prim!(*p, v => { a.items([v]); }),
                            (T::P(p), Mode::Borrowed) => match n % 3 {
                                0 => with_prim!(*p, v => { a.items(&[v]); }),
                                1 => with_prim!(*p, v => { a.item(&v); }),
                                _ => with_prim!(*p, v => { a.item(&&v); }),
                            },
                            (t, _) => t.emit(a.push(), mode)?,
                        }
                    }
                    lens("array", a.len(), a.is_empty(), items.len())?;
                }
            },
            T::D(items) => match mode {
                Mode::Typed if items.iter().all(|(_, t)| matches!(t, T::P(P::I(_)))) => {
                    let mut a = obj.dict().typed::<i32>();
                    for (n, (k, t)) in items.iter().enumerate() {
                        lens("typed dict", a.len(), a.is_empty(), n)?;
                        if let T::P(P::I(i)) = t {
                            if n % 2 == 0 {
                                a.pair(Name(k), *i);
                            } else {
                                a.pairs([(Name(k), *i)]);
                            }
                        }
                    }
                    lens("typed dict", a.len(), a.is_empty(), items.len())?;
                }
                Mode::Typed if items.iter().all(|(_, t)| matches!(t, T::A(_))) => {
                    let mut a = obj.start::<TypedDict<Array>>();
                    for (n, (k, t)) in items.iter().enumerate() {
                        lens("typed dict", a.len(), a.is_empty(), n)?;
                        if let T::A(inner) = t {
                            let mut b = a.insert(Name(k));
                            for (m, t) in inner.iter().enumerate() {
                                lens("array", b.len(), b.is_empty(), m)?;
                                t.emit(b.push(), mode)?;
                            }
                        }
                    }
                    lens("typed dict", a.len(), a.is_empty(), items.len())?;
                }
                _ => {
                    let mut d = if mode == Mode::Multi { obj.start::<Dict>() } else { obj.dict() };
                    for (n, (k, t)) in items.iter().enumerate() {
                        lens("dict", d.len(), d.is_empty(), n)?;
                        match (t, mode) {
                            (T::P(p), Mode::Short | Mode::Typed) => {
                                with_prim!(*p, v => { d.pair(Name(k), v); })
                            }
                            (T::P(p), Mode::Multi) => {
                                with_prim!(*p, v => { d.pairs([(Name(k), v)]); })
                            }
                            (T::P(p), Mode::Borrowed) => match n % 2 {
                                0 => with_prim!(*p, v => { d.pair(Name(k), &v); }),
                                _ => with_prim!(*p, v => { d.pairs([(Name(k), &v)]); }),
                            },
                            (t, _) => t.emit(d.insert(Name(k)), mode)?,
                        }
                    }
                    lens("dict", d.len(), d.is_empty(), items.len())?;
                }
            },
        }
        Ok(())
    }
}

/// Values with every kind of token start and end.
pub const PRIMS: &[P] = &[
    P::I(7),
    P::Bool(true),
    P::Null,
    P::Name(b"N"),
    P::Name(b""),
    P::Str(b"s"),
    P::Str(b"\xff"),
    P::F(2.5),
    P::Ref(4),
    P::Bool(false),
    P::I(-1),
    P::I(0),
    P::I(i32::MAX),
    P::I(i32::MIN),
    P::F(-0.5),
    P::F(3.0),
    P::F(1e-7),
    P::F(-2e12),
    P::Str(b""),
    P::Str(b"("),
    P::Str(b"\\)"),
    P::Str(b"0 R"),
    P::Text("t"),
    P::Text(""),
    P::Text("\u{e9}"),
    P::Text("\u{1f600}"),
    P::Lang(&[("en", "", "a")]),
    P::Lang(&[("de", "CH", "\u{e9}"), ("fr", "", "")]),
    P::Name(b"1"),
    P::Name(b"R"),
    P::Name(b"/"),
    P::Name(b"#"),
    P::Name(b"a b"),
    P::Name(b"\x00\xff"),
    P::Ref(i32::MAX),
    P::Rect([0.0, -1.5, 100.25, 7.0]),
    P::Date(0),
    P::Date(1),
    P::Date(2),
];

pub fn settings(pretty: bool) -> Settings {
    let mut s = Settings::default();
    s.pretty = pretty;
    s
}
pub fn layout(pretty: bool) -> &'static str {
    if pretty {
        "pretty"
    } else {
        "compact"
    }
}

/// All trees with exactly `n` nodes over the given leaves and keys; children of
/// dictionaries get keys in rotation.
pub fn trees(n: usize, leaves: &[P], keys: &[&'static [u8]]) -> Vec<T> {
    fn forests(n: usize, leaves: &[P], keys: &[&'static [u8]], memo: &mut Memo) -> Vec<Vec<T>> {
        if n == 0 {
            return vec![vec![]];
        }
        if let Some(v) = memo.f.get(&n) {
            return v.clone();
        }
        let mut out = vec![];
        for first in 1..=n {
            let heads = go(first, leaves, keys, memo);
            let tails = forests(n - first, leaves, keys, memo);
            for h in &heads {
                for t in &tails {
                    let mut v = vec![h.clone()];
                    v.extend(t.iter().cloned());
                    out.push(v);
                }
            }
        }
        memo.f.insert(n, out.clone());
        out
    }
    #[derive(Default)]
    struct Memo {
        t: std::collections::HashMap<usize, Vec<T>>,
        f: std::collections::HashMap<usize, Vec<Vec<T>>>,
    }
    fn go(n: usize, leaves: &[P], keys: &[&'static [u8]], memo: &mut Memo) -> Vec<T> {
        if let Some(v) = memo.t.get(&n) {
            return v.clone();
        }
        let mut out = vec![];
        if n == 1 {
            out.extend(leaves.iter().map(|p| T::P(*p)));
        }
        for f in forests(n - 1, leaves, keys, memo) {
            out.push(T::D(
                f.iter().enumerate().map(|(i, t)| (keys[i % keys.len()], t.clone())).collect(),
            ));
            out.push(T::A(f));
        }
        memo.t.insert(n, out.clone());
        out
    }
    go(n, leaves, keys, &mut Memo::default())
}

