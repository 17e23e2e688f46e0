//! Expected values: the boring reference model documents are compared with.

use crate::pdf::{self, V};

/// An expected value.
#[derive(Clone, Debug, PartialEq)]
pub enum X {
    Null,
    Bool(bool),
    /// Must be an integer token.
    I(i64),
    /// A number that rounds to this single-precision value.
    F(f32),
    Name(Vec<u8>),
    Str(Vec<u8>),
    /// A text string.
    Text(String),
    /// A text string with language tags.
    Lang(Vec<(String, String)>),
    Ref(i64),
    Arr(Vec<X>),
    /// Order of entries is irrelevant; duplicates count.
    Dict(Vec<(Vec<u8>, X)>),
}

pub fn name(s: &str) -> X {
    X::Name(s.as_bytes().to_vec())
}
pub fn dict<const N: usize>(e: [(&str, X); N]) -> X {
    X::Dict(e.into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v)).collect())
}
pub fn arr<T: Into<X>>(e: impl IntoIterator<Item = T>) -> X {
    X::Arr(e.into_iter().map(Into::into).collect())
}
impl From<i32> for X {
    fn from(v: i32) -> X {
        X::I(v as i64)
    }
}
impl From<f32> for X {
    fn from(v: f32) -> X {
        X::F(v)
    }
}
impl From<bool> for X {
    fn from(v: bool) -> X {
        X::Bool(v)
    }
}
impl From<&str> for X {
    /// PDF syntax; reals are compared by value, integers must be integers.
    fn from(s: &str) -> X {
        x(s)
    }
}

/// Expected value from PDF syntax.
pub fn x(s: &str) -> X {
    from_v(&pdf::parse_value(s.as_bytes()).unwrap_or_else(|e| panic!("spec {s:?}: {e}")))
}

/// Expected values from a flat list of PDF values.
pub fn xs(s: &str) -> Vec<X> {
    let mut l = pdf::Lex::new(s.as_bytes());
    let mut out = vec![];
    while !l.done() {
        out.push(from_v(&l.value().unwrap_or_else(|e| panic!("spec {s:?}: {e}"))));
    }
    out
}

pub fn from_v(v: &V) -> X {
    match v {
        V::Null => X::Null,
        V::Bool(b) => X::Bool(*b),
        V::Int(i) => X::I(*i),
        V::Real(s) => X::F(s.parse().unwrap()),
        V::Name(n) => X::Name(n.clone()),
        V::Str(s) => X::Str(s.clone()),
        V::Ref(n, _) => X::Ref(*n),
        V::Arr(a) => X::Arr(a.iter().map(from_v).collect()),
        V::Dict(d) => X::Dict(d.iter().map(|(k, v)| (k.clone(), from_v(v))).collect()),
    }
}

/// Does the value read back match the expectation?
pub fn matches(e: &X, v: &V) -> bool {
    match (e, v) {
        (X::Null, V::Null) => true,
        (X::Bool(a), V::Bool(b)) => a == b,
        (X::I(a), V::Int(b)) => a == b,
        (X::F(f), V::Int(i)) => num_eq(*f, &i.to_string()),
        (X::F(f), V::Real(s)) => num_eq(*f, s),
        (X::Name(a), V::Name(b)) => a == b,
        (X::Str(a), V::Str(b)) => a == b,
        (X::Text(t), V::Str(b)) => pdf::decode_text(b).is_ok_and(|d| d == *t),
        (X::Lang(segs), V::Str(b)) => {
            let mut want = String::new();
            for (tag, text) in segs {
                want.push('\u{1b}');
                want.push_str(tag);
                want.push('\u{1b}');
                want.push_str(text);
            }
            // Language escapes only exist in Unicode-encoded text strings.
            b.starts_with(&[0xFE, 0xFF]) && pdf::decode_text(b).is_ok_and(|d| d == want)
        }
        (X::Ref(a), V::Ref(n, 0)) => a == n,
        (X::Arr(a), V::Arr(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| matches(x, y))
        }
        (X::Dict(a), V::Dict(b)) => {
            if a.len() != b.len() {
                return false;
            }
            if a.iter().zip(b).all(|((k, x), (l, y))| k == l && matches(x, y)) {
                return true;
            }
            // Any order: multiset matching.
            let mut used = vec![false; b.len()];
            a.iter().all(|(k, x)| {
                (0..b.len()).any(|i| {
                    if !used[i] && b[i].0 == *k && matches(x, &b[i].1) {
                        used[i] = true;
                        true
                    } else {
                        false
                    }
                })
            })
        }
        _ => false,
    }
}

/// Does the decimal text round to this single-precision number?
pub fn num_eq(f: f32, s: &str) -> bool {
    s.parse::<f32>().is_ok_and(|g| g == f)
}

/// Same value read back, ignoring dictionary order and number spelling.
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Arr(a), V::Arr(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
        }
        (V::Dict(a), V::Dict(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same(x, y))
        }
        (V::Real(a), V::Real(b)) => a.parse::<f64>().ok() == b.parse::<f64>().ok(),
        (V::Real(a), V::Int(i)) | (V::Int(i), V::Real(a)) => {
            a.parse::<f64>().is_ok_and(|f| f == *i as f64)
        }
        _ => a == b,
    }
}

impl X {
    pub fn show(&self) -> String {
        match self {
            X::Null => "null".into(),
            X::Bool(b) => b.to_string(),
            X::I(i) => i.to_string(),
            X::F(f) => format!("{f:?}f"),
            X::Name(n) => format!("/{}", show_bytes(n)),
            X::Str(s) => format!("({})", show_bytes(s)),
            X::Text(t) => format!("text {t:?}"),
            X::Lang(l) => format!("langtext {l:?}"),
            X::Ref(r) => format!("{r} 0 R"),
            X::Arr(a) => {
                format!("[{}]", a.iter().map(X::show).collect::<Vec<_>>().join(" "))
            }
            X::Dict(d) => format!(
                "<<{}>>",
                d.iter()
                    .map(|(k, v)| format!("/{} {}", show_bytes(k), v.show()))
                    .collect::<Vec<_>>()
                    .join(" ")
            ),
        }
    }
}

pub fn show_bytes(b: &[u8]) -> String {
    b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect()
}

/// Show at most a few hundred bytes of output.
pub fn show_out(b: &[u8]) -> String {
    if b.len() > 600 {
        format!("{}…{}", show_bytes(&b[..300]), show_bytes(&b[b.len() - 300..]))
    } else {
        show_bytes(b)
    }
}
