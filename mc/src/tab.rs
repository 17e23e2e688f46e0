//! Tables of typed writers: for every method the arguments explored and the
//! entries the documentation says they write; and the exploration of call
//! sequences over such a table.

use crate::ctx::{catch, par, seq, Ctx};
use crate::gen::{layout, settings, M};
use crate::model::{matches, show_out, X};
use crate::pdf;
use pdf_writer::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// Calls add dictionary entries, in any order.
    Dict,
    /// Calls append array items, in call order.
    Array,
    /// Each call writes one complete value.
    Value,
}

/// One method with one choice of arguments.
pub struct Var {
    pub label: String,
    pub group: usize,
    pub plain: bool,
    /// One option of an enumeration.
    pub en: bool,
    pub entries: Vec<(Vec<u8>, X)>,
}

/// Where the writer is started.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    Indirect,
    InDict,
    InArray,
}
pub const PLACES: [Place; 3] = [Place::Indirect, Place::InDict, Place::InArray];

pub const DATA: &[u8] = b"9 0 obj\n(\xff\r\nendstream\nendobj\n";

/// One method that writes a single entry, over a wide domain of arguments.
pub struct Wide {
    pub label: &'static str,
    pub key: &'static str,
    pub n: usize,
    pub want: Box<dyn Fn(usize) -> X + Send + Sync>,
}

pub struct Table {
    pub name: &'static str,
    pub kind: Kind,
    pub base: X,
    pub vars: Vec<Var>,
    pub stream: bool,
    pub wide: Vec<Wide>,
    /// Call the wide method with the argument of that index.
    pub run_wide: Box<dyn Fn(&mut Chunk, Place, usize, usize) + Send + Sync>,
    pub run: Box<dyn Fn(&mut Chunk, Place, &[usize]) + Send + Sync>,
}

pub struct Tab<C: ?Sized, D: ?Sized> {
    pub vars: Vec<Var>,
    pub calls: Vec<Box<C>>,
    pub wide: Vec<Wide>,
    pub wcalls: Vec<Box<D>>,
    group: usize,
    fresh: bool,
}

impl<C: ?Sized, D: ?Sized> Tab<C, D> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Tab { vars: vec![], calls: vec![], wide: vec![], wcalls: vec![], group: 0, fresh: true }
    }
    /// The next variants belong to another method.
    pub fn next(&mut self) {
        self.group += 1;
        self.fresh = true;
    }
    pub fn push(&mut self, label: String, entries: Vec<(&str, X)>, call: Box<C>) {
        self.vars.push(Var {
            label,
            group: self.group,
            plain: std::mem::take(&mut self.fresh),
            en: false,
            entries: entries.into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v)).collect(),
        });
        self.calls.push(call);
    }
    pub fn wide(
        &mut self,
        label: &'static str,
        key: &'static str,
        n: usize,
        want: impl Fn(usize) -> X + Send + Sync + 'static,
        call: Box<D>,
    ) {
        self.wide.push(Wide { label, key, n, want: Box::new(want) });
        self.wcalls.push(call);
    }
}

/// A crash point. Unless armed, these do nothing but count.
#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub struct Fuse {
    /// Crash at this point.
    pub at: Option<usize>,
    /// Crash by panicking instead of by ending the loops that ask.
    pub panic: bool,
    /// Crash points passed so far.
    pub seen: usize,
    /// Crashed in an iterator given to the code under test.
    pub inside: bool,
    pub blown: bool,
}
thread_local! {
    static FUSE: std::cell::Cell<Fuse> = const { std::cell::Cell::new(Fuse { at: None, panic: false, seen: 0, inside: false, blown: false }) };
}
/// Set up the next crash. Returns the state of the last one.
pub fn arm(at: Option<usize>, panic: bool) -> Fuse {
    FUSE.replace(Fuse { at, panic, ..Fuse::default() })
}
fn pass(inside: bool) -> bool {
    let mut f = FUSE.get();
    if f.at.is_none() && !f.blown {
        f.seen += 1;
        FUSE.set(f);
        return true;
    }
    if !f.blown && f.at == Some(f.seen) {
        f.blown = true;
        f.inside = inside;
        FUSE.set(f);
        if f.panic {
            panic!("crash point {}", f.seen);
        }
    }
    if !f.blown {
        f.seen += 1;
        FUSE.set(f);
    }
    !f.blown
}
/// A crash point. Returns whether to go on.
pub fn tick() -> bool {
    pass(false)
}
pub struct Fused<I>(I, bool);
impl<I: Iterator> Iterator for Fused<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if pass(self.1) {
            self.0.next()
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lower, upper) = self.0.size_hint();
        match HINT.get() {
            0 => (0, upper),
            1 => (lower, upper),
            2 => (0, None),
            _ => (lower.min(1), upper.map(|u| u.max(1) * 2 + 1)),
        }
    }
}
thread_local! {
    static HINT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// The ways an iterator may (truthfully) announce its length.
pub const HINTS: usize = 4;
/// Run with iterators that announce their length in that way.
pub fn hinted<R>(h: usize, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            HINT.set(0);
        }
    }
    let _reset = Reset;
    HINT.set(h % HINTS);
    f()
}
/// Crash points in a loop of the caller.
pub fn own<I: Iterator>(i: I) -> Fused<I> {
    Fused(i, false)
}
/// Crash points in an iterator the code under test runs.
pub fn user<I: Iterator>(i: I) -> Fused<I> {
    Fused(i, true)
}

/// Start an object at the place and close everything around it.
pub fn with_obj(ch: &mut Chunk, place: Place, f: impl FnOnce(Obj<'_>)) {
    let obj = ch.indirect(Ref::new(2));
    match place {
        Place::Indirect => f(obj),
        Place::InDict => {
            let mut d = obj.dict();
            d.pair(Name(b"A0"), Name(b""));
            f(d.insert(Name(b"K")));
            if tick() {
                d.pair(Name(b"Z9"), 1);
            }
        }
        Place::InArray => {
            let mut a = obj.array();
            a.item(Name(b""));
            f(a.push());
            if tick() {
                a.item(true);
            }
        }
    }
}

pub fn wrap(place: Place, v: X) -> X {
    match place {
        Place::Indirect => v,
        Place::InDict => X::Dict(vec![
            (b"A0".to_vec(), X::Name(vec![])),
            (b"K".to_vec(), v),
            (b"Z9".to_vec(), X::I(1)),
        ]),
        Place::InArray => X::Arr(vec![X::Name(vec![]), v, X::Bool(true)]),
    }
}

pub const I32S: &[i32] = &[7, 0, 1, -1, i32::MAX, i32::MIN, 255, 65536];
pub const F32S: &[f32] = &[2.5, 0.0, 3.0, -0.75, 1e-7, 4e9, 1.0];
pub const REFS: &[i32] = &[5, 1, i32::MAX];
pub const NAMES: &[&[u8]] = &[b"Nm", b"", b"a b", b"R", b"#", b"\xff\n"];
pub const STRS: &[&[u8]] = &[b"str", b"", b"(", b")\\", b"\xff\r"];
pub const TEXTS: &[&str] = &["Text", "", "\u{e9}\u{1f600}", "(\n"];
pub const LANGS: &[&[(&str, &str, &str)]] =
    &[&[("en", "", "x")], &[("de", "CH", "\u{e9}"), ("fr", "", "")]];
pub const RECTS: &[[f32; 4]] = &[[0.0, -1.5, 100.25, 7.0], [1.0, 2.0, 3.0, 4.0]];
/// Index patterns of lists: empty, one, two, all, many.
pub fn lists<T: Clone>(alpha: &[T]) -> Vec<Vec<T>> {
    let n = alpha.len();
    vec![
        vec![alpha[0].clone(), alpha[1 % n].clone()],
        vec![],
        vec![alpha[0].clone()],
        vec![alpha[n - 1].clone(), alpha[0].clone(), alpha[0].clone()],
        alpha.to_vec(),
        (0..17).map(|i| alpha[(i * 5) % n].clone()).collect(),
    ]
}
pub fn lang_x(l: &[(&str, &str, &str)]) -> X {
    X::Lang(l.iter().map(|(a, r, t)| (format!("{a}{r}"), t.to_string())).collect())
}
pub fn f32s_x(v: &[f32]) -> X {
    X::Arr(v.iter().map(|f| X::F(*f)).collect())
}

/// One line per method. See the tables for the forms.
#[macro_export]
macro_rules! lines {
    ($t:ident;) => {};
    ($t:ident; i32 $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::i32s().len(), |i| X::I($crate::dom::i32s()[i] as i64), Box::new(|w, i| { w.$m($crate::dom::i32s()[i]); }));
        for v in $crate::tab::I32S {
            $t.push(format!("{}({v})", stringify!($m)), vec![($k, X::I(*v as i64))], Box::new(move |w| { w.$m(*v); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    ($t:ident; f32 $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::f32s().len(), |i| X::F($crate::dom::f32s()[i]), Box::new(|w, i| { w.$m($crate::dom::f32s()[i]); }));
        for v in $crate::tab::F32S {
            $t.push(format!("{}({v})", stringify!($m)), vec![($k, X::F(*v))], Box::new(move |w| { w.$m(*v); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    ($t:ident; bool $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        for v in [true, false] {
            $t.push(format!("{}({v})", stringify!($m)), vec![($k, X::Bool(v))], Box::new(move |w| { w.$m(v); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    ($t:ident; refr $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::refs().len(), |i| X::Ref($crate::dom::refs()[i] as i64), Box::new(|w, i| { w.$m(pdf_writer::Ref::new($crate::dom::refs()[i])); }));
        for v in $crate::tab::REFS {
            $t.push(format!("{}({v} 0 R)", stringify!($m)), vec![($k, X::Ref(*v as i64))], Box::new(move |w| { w.$m(pdf_writer::Ref::new(*v)); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    ($t:ident; name $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::bytes().len(), |i| X::Name($crate::dom::bytes()[i].clone()), Box::new(|w, i| { w.$m(pdf_writer::Name(&$crate::dom::bytes()[i])); }));
        for v in $crate::tab::NAMES {
            $t.push(format!("{}({:?})", stringify!($m), pdf_writer::Name(v)), vec![($k, X::Name(v.to_vec()))], Box::new(move |w| { w.$m(pdf_writer::Name(v)); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    ($t:ident; str $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::bytes().len(), |i| X::Str($crate::dom::bytes()[i].clone()), Box::new(|w, i| { w.$m(pdf_writer::Str(&$crate::dom::bytes()[i])); }));
        for v in $crate::tab::STRS {
            $t.push(format!("{}({:?})", stringify!($m), pdf_writer::Str(v)), vec![($k, X::Str(v.to_vec()))], Box::new(move |w| { w.$m(pdf_writer::Str(v)); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    // Only plain text strings.
    ($t:ident; text $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::texts().len(), |i| X::Text($crate::dom::texts()[i].clone()), Box::new(|w, i| { w.$m(pdf_writer::TextStr(&$crate::dom::texts()[i])); }));
        for v in $crate::tab::TEXTS {
            $t.push(format!("{}(text {v:?})", stringify!($m)), vec![($k, X::Text(v.to_string()))], Box::new(move |w| { w.$m(pdf_writer::TextStr(v)); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    // Plain or language-tagged text strings.
    ($t:ident; ltext $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::texts().len(), |i| X::Text($crate::dom::texts()[i].clone()), Box::new(|w, i| { w.$m(pdf_writer::TextStr(&$crate::dom::texts()[i])); }));
        for v in $crate::tab::TEXTS {
            $t.push(format!("{}(text {v:?})", stringify!($m)), vec![($k, X::Text(v.to_string()))], Box::new(move |w| { w.$m(pdf_writer::TextStr(v)); }));
        }
        for v in $crate::tab::LANGS {
            $t.push(format!("{}({v:?})", stringify!($m)), vec![($k, $crate::tab::lang_x(v))], Box::new(move |w| {
                let segs = $crate::gen::lang_segs(v);
                w.$m(pdf_writer::TextStrWithLang(&segs));
            }));
        }
        $crate::lines!{$t; $($r)*}
    };
    ($t:ident; rect $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::rects(), |i| $crate::tab::f32s_x(&$crate::dom::rect(i)), Box::new(|w, i| { let v = $crate::dom::rect(i); w.$m(pdf_writer::Rect::new(v[0], v[1], v[2], v[3])); }));
        for v in $crate::tab::RECTS {
            $t.push(format!("{}({v:?})", stringify!($m)), vec![($k, $crate::tab::f32s_x(v))], Box::new(move |w| { w.$m(pdf_writer::Rect::new(v[0], v[1], v[2], v[3])); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    ($t:ident; date $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::dates().len(), |i| X::Str($crate::dom::dates()[i].1.clone().into_bytes()), Box::new(|w, i| { w.$m($crate::dom::dates()[i].0); }));
        for v in 0..3u8 {
            $t.push(format!("{}(date {v})", stringify!($m)), vec![($k, X::Str($crate::gen::date(v).1.to_vec()))], Box::new(move |w| { w.$m($crate::gen::date(v).0); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    ($t:ident; i32s $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::wide_lists($crate::tab::I32S, $crate::dom::i32s()), |i| X::Arr($crate::dom::wide_list($crate::tab::I32S, $crate::dom::i32s(), i).iter().map(|v| X::I(*v as i64)).collect()), Box::new(|w, i| { let l = $crate::dom::wide_list($crate::tab::I32S, $crate::dom::i32s(), i); w.$m($crate::tab::user(l.iter()).map(|v| *v)); }));
        for v in $crate::tab::lists($crate::tab::I32S) {
            $t.push(format!("{}({v:?})", stringify!($m)), vec![($k, X::Arr(v.iter().map(|i| X::I(*i as i64)).collect()))], Box::new(move |w| { w.$m($crate::tab::user(v.iter().copied())); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    ($t:ident; f32s $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::wide_lists($crate::tab::F32S, $crate::dom::f32s()), |i| X::Arr($crate::dom::wide_list($crate::tab::F32S, $crate::dom::f32s(), i).iter().map(|v| X::F(*v)).collect()), Box::new(|w, i| { let l = $crate::dom::wide_list($crate::tab::F32S, $crate::dom::f32s(), i); w.$m($crate::tab::user(l.iter()).map(|v| *v)); }));
        for v in $crate::tab::lists($crate::tab::F32S) {
            $t.push(format!("{}({v:?})", stringify!($m)), vec![($k, $crate::tab::f32s_x(&v))], Box::new(move |w| { w.$m($crate::tab::user(v.iter().copied())); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    ($t:ident; refs $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::wide_lists($crate::tab::REFS, $crate::dom::refs()), |i| X::Arr($crate::dom::wide_list($crate::tab::REFS, $crate::dom::refs(), i).iter().map(|v| X::Ref(*v as i64)).collect()), Box::new(|w, i| { let l = $crate::dom::wide_list($crate::tab::REFS, $crate::dom::refs(), i); w.$m($crate::tab::user(l.iter()).map(|v| pdf_writer::Ref::new(*v))); }));
        for v in $crate::tab::lists($crate::tab::REFS) {
            $t.push(format!("{}({v:?})", stringify!($m)), vec![($k, X::Arr(v.iter().map(|i| X::Ref(*i as i64)).collect()))], Box::new(move |w| { w.$m($crate::tab::user(v.iter().map(|i| pdf_writer::Ref::new(*i)))); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    ($t:ident; names $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::wide_lists($crate::tab::NAMES, $crate::dom::slices()), |i| X::Arr($crate::dom::wide_list($crate::tab::NAMES, $crate::dom::slices(), i).iter().map(|v| X::Name(v.to_vec())).collect()), Box::new(|w, i| { let l = $crate::dom::wide_list($crate::tab::NAMES, $crate::dom::slices(), i); w.$m($crate::tab::user(l.iter()).map(|v| pdf_writer::Name(v))); }));
        for v in $crate::tab::lists($crate::tab::NAMES) {
            $t.push(format!("{}({v:?})", stringify!($m)), vec![($k, X::Arr(v.iter().map(|i| X::Name(i.to_vec())).collect()))], Box::new(move |w| { w.$m($crate::tab::user(v.iter().map(|i| pdf_writer::Name(i)))); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    ($t:ident; strs $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::wide_lists($crate::tab::STRS, $crate::dom::slices()), |i| X::Arr($crate::dom::wide_list($crate::tab::STRS, $crate::dom::slices(), i).iter().map(|v| X::Str(v.to_vec())).collect()), Box::new(|w, i| { let l = $crate::dom::wide_list($crate::tab::STRS, $crate::dom::slices(), i); w.$m($crate::tab::user(l.iter()).map(|v| pdf_writer::Str(v))); }));
        for v in $crate::tab::lists($crate::tab::STRS) {
            $t.push(format!("{}({v:?})", stringify!($m)), vec![($k, X::Arr(v.iter().map(|i| X::Str(i.to_vec())).collect()))], Box::new(move |w| { w.$m($crate::tab::user(v.iter().map(|i| pdf_writer::Str(i)))); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    ($t:ident; texts $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::wide_lists($crate::tab::TEXTS, $crate::dom::strs()), |i| X::Arr($crate::dom::wide_list($crate::tab::TEXTS, $crate::dom::strs(), i).iter().map(|v| X::Text(v.to_string())).collect()), Box::new(|w, i| { let l = $crate::dom::wide_list($crate::tab::TEXTS, $crate::dom::strs(), i); w.$m($crate::tab::user(l.iter()).map(|v| pdf_writer::TextStr(v))); }));
        for v in $crate::tab::lists($crate::tab::TEXTS) {
            $t.push(format!("{}({v:?})", stringify!($m)), vec![($k, X::Arr(v.iter().map(|i| X::Text(i.to_string())).collect()))], Box::new(move |w| { w.$m($crate::tab::user(v.iter().map(|i| pdf_writer::TextStr(i)))); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    // A fixed number of float arguments forming an array:
    // `nums color_rgb "C" [r, g, b] (r, g, b);` The first list gives the order
    // in the array, the second the arguments.
    ($t:ident; nums $m:ident $k:literal [$($o:ident),*] ($($a:ident),*); $($r:tt)*) => {
        $t.next();
        {
            let arity = [$(stringify!($a)),*].len();
            let mut sets: Vec<Vec<f32>> = vec![(0..arity).map(|i| 0.25 + i as f32).collect(), vec![0.0; arity], vec![1.0; arity]];
            for p in 0..arity {
                for v in $crate::tab::F32S {
                    let mut s = sets[0].clone();
                    s[p] = *v;
                    sets.push(s);
                }
            }
            for s in sets {
                let mut it = s.iter().copied();
                $(let $a = it.next().unwrap();)*
                let _ = it;
                $t.push(format!("{}{s:?}", stringify!($m)), vec![($k, $crate::tab::f32s_x(&[$($o),*]))], Box::new(move |w| { w.$m($($a),*); }));
            }
            const K: usize = [$(stringify!($a)),*].len();
            $t.wide(stringify!($m), $k, $crate::dom::num_sets(K), |i| {
                let [$($a),*] = $crate::dom::num_set::<K>(i);
                $crate::tab::f32s_x(&[$($o),*])
            }, Box::new(|w, i| {
                let [$($a),*] = $crate::dom::num_set::<K>(i);
                w.$m($($a),*);
            }));
        }
        $crate::lines!{$t; $($r)*}
    };
    // An array of six numbers.
    ($t:ident; arr $n:literal $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        {
            let mut sets: Vec<[f32; $n]> = vec![std::array::from_fn(|i| 0.25 + i as f32), [0.0; $n], [1.0; $n]];
            for p in 0..$n {
                for v in $crate::tab::F32S {
                    let mut s = sets[0];
                    s[p] = *v;
                    sets.push(s);
                }
            }
            for s in sets {
                $t.push(format!("{}({s:?})", stringify!($m)), vec![($k, $crate::tab::f32s_x(&s))], Box::new(move |w| { w.$m(s); }));
            }
            $t.wide(stringify!($m), $k, $crate::dom::num_sets($n), |i| $crate::tab::f32s_x(&$crate::dom::num_set::<$n>(i)), Box::new(|w, i| { w.$m($crate::dom::num_set::<$n>(i)); }));
        }
        $crate::lines!{$t; $($r)*}
    };
    // No argument, a fixed value.
    ($t:ident; unit $m:ident $k:literal $v:literal; $($r:tt)*) => {
        $t.next();
        $t.push(stringify!($m).to_string(), vec![($k, $crate::x($v))], Box::new(move |w| { w.$m(); }));
        $crate::lines!{$t; $($r)*}
    };
    // A nested dictionary writer with its fixed entries.
    ($t:ident; sub $m:ident $k:literal $v:literal; $($r:tt)*) => {
        $t.next();
        $t.push(format!("{}+", stringify!($m)), vec![($k, $crate::tab::plus($v))], Box::new(move |w| {
            let mut d = w.$m();
            if $crate::tab::tick() {
                d.pair(pdf_writer::Name(b"Zz"), pdf_writer::Name(b""));
            }
            $crate::tab::tick();
        }));
        $t.push(stringify!($m).to_string(), vec![($k, $crate::x($v))], Box::new(move |w| { w.$m(); }));
        $crate::lines!{$t; $($r)*}
    };
    // An array of typed dictionary writers.
    ($t:ident; subs $m:ident $k:literal $v:literal; $($r:tt)*) => {
        $t.next();
        for n in [2usize, 0, 1, 5] {
            $t.push(format!("{} x{n}", stringify!($m)), vec![($k, X::Arr((0..n).map(|i| if i % 2 == 0 { $crate::tab::plus($v) } else { $crate::x($v) }).collect()))], Box::new(move |w| {
                let mut a = w.$m();
                for i in $crate::tab::own(0..n) {
                    let mut d = a.push();
                    if i % 2 == 0 && $crate::tab::tick() {
                        d.pair(pdf_writer::Name(b"Zz"), pdf_writer::Name(b""));
                    }
                }
            }));
        }
        $crate::lines!{$t; $($r)*}
    };
    // A generic array of references, through a typed array writer.
    ($t:ident; refarr $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::wide_lists($crate::tab::REFS, $crate::dom::refs()), |i| X::Arr($crate::dom::wide_list($crate::tab::REFS, $crate::dom::refs(), i).iter().map(|v| X::Ref(*v as i64)).collect()), Box::new(|w, i| { let mut a = w.$m(); for v in $crate::dom::wide_list($crate::tab::REFS, $crate::dom::refs(), i) { a.item(pdf_writer::Ref::new(v)); } return; #[allow(unreachable_code)] w.$m(); }));
        for v in $crate::tab::lists($crate::tab::REFS) {
            $t.push(format!("{} {v:?}", stringify!($m)), vec![($k, X::Arr(v.iter().map(|i| X::Ref(*i as i64)).collect()))], Box::new(move |w| {
                let mut a = w.$m();
                for i in $crate::tab::own(v.iter()) {
                    a.item(pdf_writer::Ref::new(*i));
                }
            }));
        }
        $crate::lines!{$t; $($r)*}
    };
    // A dictionary of anything, through a generic dictionary writer.
    ($t:ident; anydict $m:ident $k:literal; $($r:tt)*) => {
        $t.next();
        $t.push(format!("{} +1", stringify!($m)), vec![($k, $crate::x("<</A 1>>"))], Box::new(move |w| { w.$m().pair(pdf_writer::Name(b"A"), 1); }));
        $t.push(format!("{} +0", stringify!($m)), vec![($k, $crate::x("<<>>"))], Box::new(move |w| { w.$m(); }));
        $t.push(format!("{} +3", stringify!($m)), vec![($k, $crate::x("<</A 4 0 R /B <</C []>> / />>"))], Box::new(move |w| {
            let mut d = w.$m();
            d.pair(pdf_writer::Name(b"A"), pdf_writer::Ref::new(4));
            d.insert(pdf_writer::Name(b"B")).dict().insert(pdf_writer::Name(b"C")).array();
            d.pair(pdf_writer::Name(b""), pdf_writer::Name(b""));
        }));
        $crate::lines!{$t; $($r)*}
    };
    // An enumerated option: all variants.
    ($t:ident; en $m:ident $k:literal { $($v:expr => $p:expr),* $(,)? }; $($r:tt)*) => {
        $t.next();
        $($t.push(format!("{}({})", stringify!($m), stringify!($v)), vec![($k, X::from($p))], Box::new(move |w| { w.$m($v); })); $t.vars.last_mut().unwrap().en = true;)*
        $crate::lines!{$t; $($r)*}
    };
    // Flags: every single flag, none and all.
    ($t:ident; flags $m:ident $k:literal $ty:ident; $($r:tt)*) => {
        $t.next();
        $t.wide(stringify!($m), $k, $crate::dom::flag_sets().len(), |i| X::I(($crate::dom::flag_sets()[i] as u64 & $ty::all().bits() as u64) as i64), Box::new(|w, i| { w.$m($ty::from_bits_truncate($crate::dom::flag_sets()[i] as _)); }));
        {
            let mut sets = vec![$ty::all(), $ty::empty()];
            sets.extend((0..32).filter_map(|b| $ty::from_bits(1 << b)));
            for b in sets.into_iter().map(|f| f.bits()) {
                $t.push(format!("{}({b:#x})", stringify!($m)), vec![($k, X::I(b as i64))], Box::new(move |w| { w.$m($ty::from_bits(b).unwrap()); }));
            }
        }
        $crate::lines!{$t; $($r)*}
    };
    // Anything else; the first form starts a new method, the second adds a
    // variant to it.
    ($t:ident; call $l:literal {$($k:literal : $v:expr),* $(,)?} |$w:ident| $e:expr; $($r:tt)*) => {
        $t.next();
        $t.push($l.to_string(), vec![$(($k, X::from($v))),*], Box::new(move |$w| { let _ = $e; }));
        $crate::lines!{$t; $($r)*}
    };
    ($t:ident; also $l:literal {$($k:literal : $v:expr),* $(,)?} |$w:ident| $e:expr; $($r:tt)*) => {
        $t.push($l.to_string(), vec![$(($k, X::from($v))),*], Box::new(move |$w| { let _ = $e; }));
        $crate::lines!{$t; $($r)*}
    };
    // A wide domain of `$n` arguments.
    ($t:ident; wide $l:literal $k:literal $n:expr, |$i:ident| $v:expr, |$w:ident| $e:expr; $($r:tt)*) => {
        $t.wide($l, $k, $n, |$i: usize| $v, Box::new(|$w, $i: usize| { let _ = $e; }));
        $crate::lines!{$t; $($r)*}
    };
    // Arbitrary statements.
    ($t:ident; do |$x:ident| $b:block; $($r:tt)*) => {
        $t.next();
        {
            let $x = &mut $t;
            $b
        }
        $crate::lines!{$t; $($r)*}
    };
}

/// The fixed dictionary with the probe entry appended.
pub fn plus(v: &str) -> X {
    match crate::model::x(v) {
        X::Dict(mut d) => {
            d.push((b"Zz".to_vec(), X::Name(vec![])));
            X::Dict(d)
        }
        _ => unreachable!(),
    }
}

#[macro_export]
macro_rules! table {
    ($out:ident; $kind:ident $name:literal $base:literal $W:ident { $($l:tt)* }) => {{
        #[allow(unused_mut)]
        let mut t: $crate::tab::Tab<dyn Fn(&mut $W<'_>) + Send + Sync, dyn Fn(&mut $W<'_>, usize) + Send + Sync> = $crate::tab::Tab::new();
        $crate::lines!{t; $($l)*}
        let $crate::tab::Tab { vars, calls, wide, wcalls, .. } = t;
        $out.push($crate::tab::Table {
            name: $name,
            kind: $crate::tab::Kind::$kind,
            base: $crate::x($base),
            vars,
            stream: false,
            wide,
            run_wide: Box::new(move |ch, place, m, i| {
                $crate::tab::with_obj(ch, place, |obj| wcalls[m](&mut obj.start::<$W>(), i))
            }),
            run: Box::new(move |ch, place, seq| {
                $crate::tab::with_obj(ch, place, |obj| {
                    let mut w = obj.start::<$W>();
                    for i in $crate::tab::own(seq.iter()) {
                        calls[*i](&mut w);
                    }
                })
            }),
        });
    }};
}

#[macro_export]
macro_rules! stream_table {
    ($out:ident; $name:literal $base:literal $W:ident |$ch:ident, $id:ident, $d:ident| $start:expr, { $($l:tt)* }) => {{
        #[allow(unused_mut)]
        let mut t: $crate::tab::Tab<dyn Fn(&mut $W<'_>) + Send + Sync, dyn Fn(&mut $W<'_>, usize) + Send + Sync> = $crate::tab::Tab::new();
        $crate::lines!{t; $($l)*}
        let $crate::tab::Tab { vars, calls, wide, wcalls, .. } = t;
        let mut base = $crate::x($base);
        if let X::Dict(d) = &mut base {
            d.insert(0, (b"Length".to_vec(), X::I($crate::tab::DATA.len() as i64)));
        }
        $out.push($crate::tab::Table {
            name: $name,
            kind: $crate::tab::Kind::Dict,
            base,
            vars,
            stream: true,
            wide,
            run_wide: Box::new(move |$ch, _, m, i| {
                let $id = pdf_writer::Ref::new(2);
                let $d = $crate::tab::DATA;
                wcalls[m](&mut $start, i)
            }),
            run: Box::new(move |$ch, _, seq| {
                let $id = pdf_writer::Ref::new(2);
                let $d = $crate::tab::DATA;
                let mut w = $start;
                for i in $crate::tab::own(seq.iter()) {
                    calls[*i](&mut w);
                }
            }),
        });
    }};
}

/// Complete values: `"label", "pdf" => |obj| ...;`
#[macro_export]
macro_rules! value_table {
    ($out:ident; $name:literal { $($label:literal, $v:expr => |$o:ident| $e:expr;)* }) => {{
        let mut t: $crate::tab::Tab<dyn for<'a> Fn(pdf_writer::Obj<'a>) + Send + Sync, ()> = $crate::tab::Tab::new();
        $(t.next(); t.push($label.to_string(), vec![("", X::from($v))], Box::new(move |$o| { let _ = $e; }));)*
        let $crate::tab::Tab { vars, calls, .. } = t;
        $out.push($crate::tab::Table {
            name: $name,
            kind: $crate::tab::Kind::Value,
            base: X::Null,
            vars,
            stream: false,
            wide: vec![],
            run_wide: Box::new(|_, _, _, _| ()),
            run: Box::new(move |ch, place, seq| {
                $crate::tab::with_obj(ch, place, |obj| calls[seq[0]](obj))
            }),
        });
    }};
}

impl Table {
    pub fn places(&self) -> &'static [Place] {
        if self.stream {
            &PLACES[..1]
        } else {
            &PLACES
        }
    }
    pub fn len_range(&self, max: usize) -> std::ops::RangeInclusive<usize> {
        if self.kind == Kind::Value {
            1..=1
        } else {
            0..=max
        }
    }
    /// Can these calls be made on one writer without repeating an entry?
    pub fn compatible(&self, s: &[usize]) -> bool {
        self.kind != Kind::Dict
            || s.iter().enumerate().all(|(n, i)| {
                s[..n].iter().all(|j| {
                    self.vars[*i]
                        .entries
                        .iter()
                        .all(|(k, _)| self.vars[*j].entries.iter().all(|(l, _)| k != l))
                })
            })
    }
    pub fn want(&self, s: &[usize]) -> X {
        let es = s.iter().flat_map(|i| self.vars[*i].entries.iter().cloned());
        match (&self.base, self.kind) {
            (X::Dict(d), Kind::Dict) => {
                let mut d = d.clone();
                d.extend(es);
                X::Dict(d)
            }
            (X::Arr(a), Kind::Array) => {
                let mut a = a.clone();
                a.extend(es.map(|(_, v)| v));
                X::Arr(a)
            }
            (_, Kind::Value) => self.vars[s[0]].entries[0].1.clone(),
            _ => unreachable!("{}", self.name),
        }
    }
    pub fn show(&self, s: &[usize]) -> String {
        format!(
            "{}: {}",
            self.name,
            s.iter().map(|i| self.vars[*i].label.clone()).collect::<Vec<_>>().join("; ")
        )
    }
    pub fn plain(&self) -> Vec<usize> {
        (0..self.vars.len()).filter(|i| self.vars[*i].plain).collect()
    }

    /// The first variants of every method.
    pub fn some_of_each(&self, k: usize) -> Vec<usize> {
        let first = |g: usize| self.vars.iter().position(|v| v.group == g).unwrap();
        (0..self.vars.len()).filter(|i| i - first(self.vars[*i].group) < k).collect()
    }

    /// Build an object with these calls in a fresh chunk, between neighbours.
    pub fn build(&self, s: &[usize], place: Place, pretty: bool) -> Result<Chunk, String> {
        catch(|| {
            let mut ch = Chunk::with_settings(settings(pretty));
            ch.indirect(Ref::new(1)).primitive(1);
            (self.run)(&mut ch, place, s);
            ch.indirect(Ref::new(3)).primitive(Name(b""));
            ch
        })
    }

    pub fn verify(&self, out: &[u8], s: &[usize], place: Place) -> Result<(), String> {
        self.verify_value(out, self.want(s), place)
    }

    fn verify_value(&self, out: &[u8], want: X, place: Place) -> Result<(), String> {
        let objs = pdf::parse_chunk(out)?;
        let want = wrap(place, want);
        if objs.len() != 3 || objs[0].val != pdf::V::Int(1) || objs[2].val != pdf::V::Name(vec![]) {
            return Err("the neighbouring objects are disturbed".into());
        }
        if objs[1].num != 2 || objs[1].gen != 0 || !matches(&want, &objs[1].val) {
            return Err(format!("expected {}", want.show()));
        }
        if objs[1].stream.as_deref() != self.stream.then_some(DATA) {
            return Err("the stream data differs".into());
        }
        Ok(())
    }

    pub fn explore_one(&self, c: &Ctx, s: &[usize], place: Place, pretty: bool) {
        let r = self.build(s, place, pretty);
        let sig = || format!("{} {} {place:?}", self.show(s), layout(pretty));
        match r {
            Err(p) => c.fail(&sig(), || format!("{}\npanicked: {p}", sig())),
            Ok(ch) => {
                if let Err(e) = self.verify(ch.as_bytes(), s, place) {
                    c.fail(&sig(), || {
                        format!("{}\n{e}\noutput: {}", sig(), show_out(ch.as_bytes()))
                    });
                }
                c.sample(|| format!("{} -> {}", self.show(s), show_out(ch.as_bytes())));
            }
        }
    }
}

impl Table {
    /// One call with one argument of a wide domain.
    pub fn explore_wide(&self, c: &Ctx, m: usize, i: usize, place: Place, pretty: bool) {
        let w = &self.wide[m];
        let v = (w.want)(i);
        let sig = || format!("{}: {} writing {} {place:?} {}", self.name, w.label, v.show(), layout(pretty));
        let r = catch(|| {
            let mut ch = Chunk::with_settings(settings(pretty));
            ch.indirect(Ref::new(1)).primitive(1);
            (self.run_wide)(&mut ch, place, m, i);
            ch.indirect(Ref::new(3)).primitive(Name(b""));
            ch
        });
        let mut want = self.base.clone();
        match &mut want {
            X::Dict(d) => d.push((w.key.as_bytes().to_vec(), v.clone())),
            X::Arr(a) => a.push(v.clone()),
            _ => want = v.clone(),
        }
        match r {
            Err(p) => c.fail(&sig(), || format!("{}\npanicked: {p}", sig())),
            Ok(ch) => {
                if let Err(e) = self.verify_value(ch.as_bytes(), want, place) {
                    c.fail(&sig(), || format!("{}\n{e}\noutput: {}", sig(), show_out(ch.as_bytes())));
                }
                c.sample(|| format!("{} -> {}", sig(), show_out(ch.as_bytes())));
            }
        }
    }
}

/// One writer after the other in the same chunk: all pairs of writers, each with
/// its method variants in turn.
fn cross(c: &Ctx, tables: &[Table]) {
    c.phase("one writer after the other");
    let one: Vec<(usize, Vec<usize>)> = tables
        .iter()
        .enumerate()
        .flat_map(|(k, t)| {
            let some = if c.thorough { t.some_of_each(2) } else { t.plain() };
            let limit = c.bound(if t.kind == Kind::Value { 12 } else { 60 }, 400);
            let step = some.len().div_ceil(limit).max(1);
            let mut v: Vec<_> = some.into_iter().step_by(step).map(|i| (k, vec![i])).collect();
            if t.kind != Kind::Value {
                v.push((k, vec![]));
            }
            v
        })
        .collect();
    let n = one.len();
    par(n * n, |i| {
        let ((a, s), (b, r)) = (&one[i % n], &one[i / n]);
        let (a, b) = (&tables[*a], &tables[*b]);
        let (p, q) = (a.places()[i / 2 % a.places().len()], b.places()[i / 6 % b.places().len()]);
        let pretty = (i ^ i / n) % 2 == 0;
        let sig = || format!("{} {p:?}, then {} {q:?} {}", a.show(s), b.show(r), layout(pretty));
        let res = catch(|| {
            let mut ch = Chunk::with_settings(settings(pretty));
            (a.run)(&mut ch, p, s);
            (b.run)(&mut ch, q, r);
            ch
        });
        let res = res.and_then(|ch| {
            let o = pdf::parse_chunk(ch.as_bytes())?;
            if o.len() != 2 {
                return Err(format!("{} objects", o.len()));
            }
            for (o, t, p, s) in [(&o[0], a, p, s), (&o[1], b, q, r)] {
                let want = wrap(p, t.want(s));
                if o.num != 2 || o.gen != 0 || !matches(&want, &o.val) || o.stream.as_deref() != t.stream.then_some(DATA) {
                    return Err(format!("expected {}\noutput: {}", want.show(), show_out(ch.as_bytes())));
                }
            }
            Ok(())
        });
        if let Err(e) = res {
            c.fail(&sig(), || format!("{}\n{e}", sig()));
        }
        c.steps(4);
        c.traces_n(1);
        c.states_by_construction(1);
    });
    c.note("one writer after the other", format!("all pairs of {n} short uses of the writers in one chunk"));
}

/// All call sequences within the bounds on every table.
pub fn explore(c: &Ctx, tables: &[Table]) {
    let mut methods = 0;
    let mut variants = 0;
    let mut wides = 0;
    for t in tables {
        c.phase(t.name);
        let n = t.vars.len();
        let plain = t.plain();
        methods += plain.len();
        variants += n;
        let count = |k: u64, len: usize| {
            c.states_by_construction(1);
            c.steps(k * (len as u64 + 3));
            c.traces_n(k);
        };
        // No call, every call: everywhere.
        for len in t.len_range(1) {
            par(n.pow(len as u32), |i| {
                let s = seq(i, n.max(1), len);
                for place in t.places() {
                    for p in [false, true] {
                        for h in 0..HINTS {
                            hinted(h, || t.explore_one(c, &s, *place, p));
                        }
                    }
                }
                count((2 * HINTS * t.places().len()) as u64, len);
            });
        }
        for (m, w) in t.wide.iter().enumerate() {
            wides += w.n;
            par(w.n, |i| {
                let n = t.places().len();
                for k in 0..c.bound(1, 2 * n) {
                    hinted(i / 5 + i + k, || t.explore_wide(c, m, i, t.places()[(i + k) % n], (i / n + k / n) % 2 == 0));
                }
                count(c.bound(1, 2 * n as u64), 1);
            });
        }
        if t.kind == Kind::Value {
            continue;
        }
        // All ordered pairs of calls with all arguments.
        par(n * n, |i| {
            let s = seq(i, n, 2);
            if t.compatible(&s) {
                let places = if n * n > c.bound(20_000, 2_000_000) {
                    &t.places()[i % t.places().len()..][..1]
                } else {
                    t.places()
                };
                for place in places {
                    for p in [false, true] {
                        hinted(i / n + i + *place as usize, || t.explore_one(c, &s, *place, p));
                    }
                }
                count(2 * places.len() as u64, 2);
            }
        });
        // Longer sequences over as many of the argument choices as the budget
        // allows.
        let budget = c.bound(2_000_000usize, 40_000_000);
        for len in 3..=c.bound(6, 8) {
            let set = [usize::MAX, 4, 2, 1].iter().map(|k| t.some_of_each(*k)).find(|s| s.len().checked_pow(len).is_some_and(|n| n <= budget));
            let Some(set) = set else { continue };
            let k = set.len();
            if len as usize > plain.len() && t.kind == Kind::Dict {
                continue;
            }
            par(k.pow(len), |i| {
                let s: Vec<usize> = seq(i, k, len as usize).iter().map(|j| set[*j]).collect();
                if t.compatible(&s) {
                    hinted(i / 7, || t.explore_one(c, &s, t.places()[i % t.places().len()], i / 3 % 2 == 0));
                    count(1, len as usize);
                }
            });
        }
        // Repeated calls on one writer.
        if t.kind == Kind::Array {
            for len in crate::ctx::sizes(c.bound(300, 3000)) {
                par(n, |i| {
                    let alt: Vec<usize> = (0..len).map(|j| if j % 2 == 0 { i } else { (i + 1) % n }).collect();
                    let one = vec![i; len];
                    let all: Vec<usize> = (0..len).map(|j| (i + j) % n).collect();
                    for s in [alt, one, all] {
                        hinted(i / 2 + len, || t.explore_one(c, &s, t.places()[(i + len) % t.places().len()], i % 2 == 0));
                        count(1, len);
                    }
                });
            }
        }
        // Everything at once: all rotations, both directions.
        par(2 * plain.len(), |i| {
            let mut all = plain.clone();
            all.rotate_left(i / 2);
            if i % 2 == 1 {
                all.reverse();
            }
            let mut s: Vec<usize> = vec![];
            for v in all {
                s.push(v);
                if !t.compatible(&s) {
                    s.pop();
                }
            }
            for place in t.places() {
                for p in [false, true] {
                    t.explore_one(c, &s, *place, p);
                }
            }
            count(2 * t.places().len() as u64, s.len());
        });
    }
    cross(c, tables);
    c.note("writers", tables.len());
    c.note("methods", methods);
    c.note("method variants with boundary arguments", variants);
    c.note("single calls with arguments of wide domains", wides);
    c.note(
        "call sequences",
        format!(
            "all of length 0-2 over all variants; longer ones (to length {}) over all, four, two or one variant of every method, as far as {} sequences per writer and length go; all rotations of everything",
            c.bound(6, 8),
            c.bound(2_000_000, 40_000_000)
        ),
    );
}

/// What writing this value adds to the limits.
pub fn lim_x(x: &X, m: &mut M) {
    match x {
        X::Null | X::Bool(_) => {}
        X::I(i) => m.int(*i),
        X::F(f) => m.num(*f),
        X::Name(n) => m.name(n.len()),
        X::Str(s) => m.str(s.len()),
        X::Text(t) => m.text(t),
        X::Lang(l) => m.str(
            2 + l
                .iter()
                .map(|(tag, t)| 2 * (2 + tag.len()) + 2 * t.encode_utf16().count())
                .sum::<usize>(),
        ),
        X::Ref(r) => m.int(*r),
        X::Arr(a) => {
            a.iter().for_each(|x| lim_x(x, m));
            m.arr(a.len());
        }
        X::Dict(d) => {
            d.iter().for_each(|(k, x)| {
                m.name(k.len());
                lim_x(x, m);
            });
            m.dict(d.len());
        }
    }
}
