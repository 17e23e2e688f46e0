//! Ordered collections: for each, the steps that add entries, the entries each
//! step must add, and the writer that owns the collection.

use crate::model::{x, X};
use crate::tab::user;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

type AttributesArray<'a> = TypedArray<'a, Attributes<'a>>;
type FileSpecArray<'a> = TypedArray<'a, FileSpec<'a>>;
type OutputIntentArray<'a> = TypedArray<'a, OutputIntent<'a>>;
type DestinationDict<'a> = TypedDict<'a, Destination<'a>>;
type DeveloperExtensionDict<'a> = TypedDict<'a, DeveloperExtension<'a>>;
type PropertyListDict<'a> = TypedDict<'a, PropertyList<'a>>;

/// What a step at some position adds.
pub type Items = Box<dyn Fn(usize) -> Vec<(Vec<u8>, X)> + Send + Sync>;

pub struct Coll {
    pub name: String,
    pub dict: bool,
    pub steps: Vec<String>,
    pub items: Vec<Items>,
    /// The owner with its fixed entries, the entry for the collection, and what
    /// the owner's calls before and after add.
    pub base: X,
    pub key: &'static str,
    /// The collection is this entry of a dictionary under `key`.
    pub via: Option<&'static str>,
    pub pre: X,
    pub post: X,
    pub run: Box<dyn Fn(Obj<'_>, bool, bool, &[usize]) + Send + Sync>,
}

pub struct Steps<C: ?Sized> {
    names: Vec<String>,
    items: Vec<Items>,
    calls: Vec<Box<C>>,
}

impl<C: ?Sized> Steps<C> {
    fn add(&mut self, name: &str, items: impl Fn(usize) -> Vec<X> + Send + Sync + 'static, call: Box<C>) {
        self.names.push(name.into());
        self.items.push(Box::new(move |i| items(i).into_iter().map(|x| (vec![], x)).collect()));
        self.calls.push(call);
    }
    fn pairs(
        &mut self,
        name: &str,
        items: impl Fn(usize) -> Vec<(Vec<u8>, X)> + Send + Sync + 'static,
        call: Box<C>,
    ) {
        self.names.push(name.into());
        self.items.push(Box::new(items));
        self.calls.push(call);
    }
}

/// The key used at a position: boundary names first, all distinct.
pub fn key(i: usize) -> Vec<u8> {
    const K: &[&[u8]] = &[b"a", b"", b"b c", b"\xff", b"P", b"#20", b"(", b"/x"];
    match K.get(i) {
        Some(k) => k.to_vec(),
        None => format!("k{i}").into_bytes(),
    }
}

macro_rules! coll {
    ($out:ident; $name:expr, $kind:ident, $W:ident $base:literal $key:literal;
     pre $pre:literal |$pw:ident| $pe:expr; post $post:literal |$qw:ident| $qe:expr;
     open |$o:ident| $open:expr; $C:ty; |$s:ident| $b:block) => {{
        let mut $s: Steps<dyn Fn(&mut $C, usize) + Send + Sync> =
            Steps { names: vec![], items: vec![], calls: vec![] };
        $b
        let Steps { names, items, calls } = $s;
        $out.push(Coll {
            name: $name.to_string(),
            dict: stringify!($kind) == "Dict",
            steps: names,
            items,
            base: x($base),
            key: $key,
            via: None,
            pre: x($pre),
            post: x($post),
            run: Box::new(move |obj, pre, post, seq| {
                let mut w = obj.start::<$W>();
                if pre {
                    let $pw = &mut w;
                    let _ = $pe;
                }
                {
                    let $o = &mut w;
                    let mut c: $C = $open;
                    for (n, i) in crate::tab::own(seq.iter()).enumerate() {
                        calls[*i](&mut c, n);
                    }
                }
                if crate::tab::tick() && post {
                    let $qw = &mut w;
                    let _ = $qe;
                }
            }),
        });
    }};
}

/// A collection inside a tree that belongs to the owner.
macro_rules! via {
    ($out:ident; $name:expr, $W:ident $base:literal $key:literal $via:literal;
     pre $pre:literal |$pw:ident| $pe:expr; post $post:literal |$qw:ident| $qe:expr;
     open |$o:ident| $open:expr; |$t:ident| $open2:expr; $C:ty; |$s:ident| $b:block) => {{
        let mut $s: Steps<dyn Fn(&mut $C, usize) + Send + Sync> =
            Steps { names: vec![], items: vec![], calls: vec![] };
        $b
        let Steps { names, items, calls } = $s;
        $out.push(Coll {
            name: $name.to_string(),
            dict: false,
            steps: names,
            items,
            base: x($base),
            key: $key,
            via: Some($via),
            pre: x($pre),
            post: x($post),
            run: Box::new(move |obj, pre, post, seq| {
                let mut w = obj.start::<$W>();
                if pre {
                    let $pw = &mut w;
                    let _ = $pe;
                }
                {
                    let $o = &mut w;
                    let mut $t = $open;
                    let mut c: $C = $open2;
                    for (n, i) in crate::tab::own(seq.iter()).enumerate() {
                        calls[*i](&mut c, n);
                    }
                }
                if crate::tab::tick() && post {
                    let $qw = &mut w;
                    let _ = $qe;
                }
            }),
        });
    }};
}

/// A collection that is itself the object.
macro_rules! whole {
    ($out:ident; $name:expr, $kind:ident; open |$o:ident| $open:expr; $C:ty; |$s:ident| $b:block) => {{
        let mut $s: Steps<dyn Fn(&mut $C, usize) + Send + Sync> =
            Steps { names: vec![], items: vec![], calls: vec![] };
        $b
        let Steps { names, items, calls } = $s;
        $out.push(Coll {
            name: $name.to_string(),
            dict: stringify!($kind) == "Dict",
            steps: names,
            items,
            base: X::Null,
            key: "",
            via: None,
            pre: X::Null,
            post: X::Null,
            run: Box::new(move |$o, _, _, seq| {
                let mut c: $C = $open;
                for (n, i) in crate::tab::own(seq.iter()).enumerate() {
                    calls[*i](&mut c, n);
                }
            }),
        });
    }};
}

impl Coll {
    pub fn want(&self, pre: bool, post: bool, seq: &[usize]) -> X {
        let items = seq.iter().enumerate().flat_map(|(n, i)| self.items[*i](n));
        let v = if self.dict {
            X::Dict(items.collect())
        } else {
            X::Arr(items.map(|(_, x)| x).collect())
        };
        let v = match self.via {
            Some(k) => X::Dict(vec![(k.as_bytes().to_vec(), v)]),
            None => v,
        };
        match (&self.base, &self.pre, &self.post) {
            (X::Dict(b), X::Dict(p), X::Dict(q)) => {
                let mut d = b.clone();
                if pre {
                    d.extend(p.iter().cloned());
                }
                d.push((self.key.as_bytes().to_vec(), v));
                if crate::tab::tick() && post {
                    d.extend(q.iter().cloned());
                }
                X::Dict(d)
            }
            _ => v,
        }
    }
}

fn int(i: i32) -> X {
    X::I(i as i64)
}
fn r(i: i32) -> Ref {
    Ref::new(i)
}

fn refs(s: &mut Steps<dyn Fn(&mut TypedArray<'_, Ref>, usize) + Send + Sync>) {
    s.add("5", |_| vec![X::Ref(5)], Box::new(|a, _| { a.item(r(5)); }));
    s.add("max", |_| vec![X::Ref(i32::MAX as i64)], Box::new(|a, _| { a.item(r(i32::MAX)); }));
    s.add("n+1", |n| vec![X::Ref(n as i64 + 1)], Box::new(|a, n| { a.item(r(n as i32 + 1)); }));
    s.add("items[]", |_| vec![], Box::new(|a, _| { a.items(user([].into_iter())); }));
    s.add("items[1,2,3]", |_| vec![X::Ref(1), X::Ref(2), X::Ref(3)], Box::new(|a, _| { a.items(user([r(1), r(2), r(3)].into_iter())); }));
}

fn name_refs(s: &mut Steps<dyn Fn(&mut NameTreeEntries<'_, Ref>, usize) + Send + Sync>) {
    s.add("(a) 5", |_| vec![X::Str(b"a".to_vec()), X::Ref(5)], Box::new(|e, _| { e.insert(Str(b"a"), r(5)); }));
    s.add("() 1", |_| vec![X::Str(vec![]), X::Ref(1)], Box::new(|e, _| { e.insert(Str(b""), r(1)); }));
    s.add("key n", |n| vec![X::Str(key(n)), X::Ref(n as i64 + 1)], Box::new(|e, n| { e.insert(Str(&key(n)), r(n as i32 + 1)); }));
    s.add(")( max", |_| vec![X::Str(b")(\\\r".to_vec()), X::Ref(i32::MAX as i64)], Box::new(|e, _| { e.insert(Str(b")(\\\r"), r(i32::MAX)); }));
    s.add("bin 2", |_| vec![X::Str(b"\x00\x80 0 R".to_vec()), X::Ref(2)], Box::new(|e, _| { e.insert(Str(b"\x00\x80 0 R"), r(2)); }));
}

fn number_refs(s: &mut Steps<dyn Fn(&mut NumberTreeEntries<'_, Ref>, usize) + Send + Sync>) {
    for (k, v) in [(0, 1), (7, 5), (-1, 3), (i32::MAX, i32::MAX), (i32::MIN, 2)] {
        s.add(&format!("{k} {v}"), move |_| vec![int(k), X::Ref(v as i64)], Box::new(move |e, _| { e.insert(k, r(v)); }));
    }
    s.add("n n+1", |n| vec![int(n as i32), X::Ref(n as i64 + 1)], Box::new(|e, n| { e.insert(n as i32, r(n as i32 + 1)); }));
}

/// Trees of one value type.
macro_rules! trees {
    ($out:ident; $T:ty, [$($l:literal $v:expr => $xv:expr),* $(,)?]) => {{
        type NT<'a> = NameTree<'a, $T>;
        type MT<'a> = NumberTree<'a, $T>;
        coll!($out; concat!("NameTree<", stringify!($T), ">.names"), Array, NT "<<>>" "Names";
            pre "<</Limits [(a) ()]>>" |w| w.limits(Name(b"a"), Name(b""));
            post "<</Kids [3 0 R 4 0 R]>>" |w| w.kids().items([r(3), r(4)]);
            open |w| w.names(); NameTreeEntries<'_, $T>; |s| {
                $(s.add(concat!("(a) ", $l), |_| vec![X::Str(b"a".to_vec()), $xv], Box::new(|e, _| { e.insert(Str(b"a"), $v); }));
                s.add(concat!("key ", $l), |n| vec![X::Str(key(n)), $xv], Box::new(|e, n| { e.insert(Str(&key(n)), $v); }));)*
            });
        coll!($out; concat!("NumberTree<", stringify!($T), ">.nums"), Array, MT "<<>>" "Nums";
            pre "<</Kids []>>" |w| { w.kids(); };
            post "<</Limits [-5 2147483647]>>" |w| w.limits(-5, i32::MAX);
            open |w| w.nums(); NumberTreeEntries<'_, $T>; |s| {
                $(s.add(concat!("7 ", $l), |_| vec![int(7), $xv], Box::new(|e, _| { e.insert(7, $v); }));
                s.add(concat!("-n ", $l), |n| vec![int(-(n as i32)), $xv], Box::new(|e, n| { e.insert(-(n as i32), $v); }));)*
                s.add("MIN first", |_| { let f: Vec<X> = vec![$($xv),*]; vec![int(i32::MIN), f.into_iter().next().unwrap()] }, Box::new(|e, _| {
                    #[allow(unused_mut)]
                    let mut done = false;
                    $(if !done { e.insert(i32::MIN, $v); done = true; })*
                    let _ = done;
                }));
            });
        coll!($out; concat!("NameTree<", stringify!($T), ">.kids"), Array, NT "<<>>" "Kids";
            pre "<</Names []>>" |w| { w.names(); };
            post "<</Limits [() (\\)b)]>>" |w| w.limits(Name(b""), Name(b")b"));
            open |w| w.kids(); TypedArray<'_, Ref>; |s| { refs(&mut s); });
        coll!($out; concat!("NumberTree<", stringify!($T), ">.kids"), Array, MT "<<>>" "Kids";
            pre "<</Limits [0 -2147483648]>>" |w| w.limits(0, i32::MIN);
            post "<</Nums []>>" |w| { w.nums(); };
            open |w| w.kids(); TypedArray<'_, Ref>; |s| { refs(&mut s); });
    }};
}

pub fn collections() -> Vec<Coll> {
    let mut o: Vec<Coll> = vec![];

    trees!(o; Ref, ["5" r(5) => X::Ref(5), "max" r(i32::MAX) => X::Ref(i32::MAX as i64)]);
    trees!(o; i32, ["0" 0 => X::I(0), "min" i32::MIN => X::I(i32::MIN as i64)]);
    trees!(o; f32, [".5" 0.5 => X::F(0.5), "3" 3.0 => X::F(3.0)]);
    trees!(o; bool, ["true" true => X::Bool(true), "false" false => X::Bool(false)]);
    trees!(o; Null, ["null" Null => X::Null]);
    trees!(o; Rect, ["rect" Rect::new(0.0, 1.0, -2.5, 3.0) => x("[0.0 1.0 -2.5 3.0]")]);
    trees!(o; Date, ["date" crate::gen::date(2).0 => X::Str(crate::gen::date(2).1.to_vec())]);
    type N = Name<'static>;
    trees!(o; N, ["N" Name(b"N") => X::Name(b"N".to_vec()), "empty" Name(b"") => X::Name(vec![]), "a b" Name(b"a b") => X::Name(b"a b".to_vec())]);
    type S = Str<'static>;
    trees!(o; S, ["s" Str(b"(") => X::Str(b"(".to_vec()), "empty" Str(b"") => X::Str(vec![]), "bin" Str(b"\xff\r") => X::Str(b"\xff\r".to_vec())]);
    type TS = TextStr<'static>;
    trees!(o; TS, ["t" TextStr("t") => X::Text("t".into()), "empty" TextStr("") => X::Text("".into()), "e" TextStr("\u{e9}") => X::Text("\u{e9}".into())]);


    // The document's name dictionary and other owners of trees.
    macro_rules! names {
        ($($m:ident $k:literal, $pm:ident $pre:literal, $qm:ident $post:literal;)*) => {$(
            via!(o; concat!("Names.", stringify!($m)), Names "<<>>" $k "Names";
                pre $pre |w| w.$pm().kids().item(r(9));
                post $post |w| w.$qm().names().insert(Str(b"z"), r(8));
                open |w| w.$m(); |t| t.names(); NameTreeEntries<'_, Ref>; |s| { name_refs(&mut s); });
        )*};
    }
    names! {
        destinations "Dests", appearances "<</AP <</Kids [9 0 R]>>>>", javascript "<</JavaScript <</Names [(z) 8 0 R]>>>>";
        appearances "AP", javascript "<</JavaScript <</Kids [9 0 R]>>>>", pages "<</Pages <</Names [(z) 8 0 R]>>>>";
        javascript "JavaScript", pages "<</Pages <</Kids [9 0 R]>>>>", templates "<</Templates <</Names [(z) 8 0 R]>>>>";
        pages "Pages", templates "<</Templates <</Kids [9 0 R]>>>>", capture_ids "<</IDS <</Names [(z) 8 0 R]>>>>";
        templates "Templates", capture_ids "<</IDS <</Kids [9 0 R]>>>>", capture_urls "<</URLS <</Names [(z) 8 0 R]>>>>";
        capture_ids "IDS", capture_urls "<</URLS <</Kids [9 0 R]>>>>", embedded_files "<</EmbeddedFiles <</Names [(z) 8 0 R]>>>>";
        capture_urls "URLS", embedded_files "<</EmbeddedFiles <</Kids [9 0 R]>>>>", alternate_presentations "<</AlternatePresentations <</Names [(z) 8 0 R]>>>>";
        embedded_files "EmbeddedFiles", alternate_presentations "<</AlternatePresentations <</Kids [9 0 R]>>>>", renditions "<</Renditions <</Names [(z) 8 0 R]>>>>";
        alternate_presentations "AlternatePresentations", renditions "<</Renditions <</Kids [9 0 R]>>>>", destinations "<</Dests <</Names [(z) 8 0 R]>>>>";
        renditions "Renditions", destinations "<</Dests <</Kids [9 0 R]>>>>", appearances "<</AP <</Names [(z) 8 0 R]>>>>";
    }
    via!(o; "Catalog.page_labels", Catalog "<</Type /Catalog>>" "PageLabels" "Nums";
        pre "<</Pages 3 0 R>>" |w| w.pages(r(3)); post "<</Names <<>>>>" |w| { w.names(); };
        open |w| w.page_labels(); |t| t.nums(); NumberTreeEntries<'_, Ref>; |s| { number_refs(&mut s); });
    via!(o; "StructTreeRoot.id_tree", StructTreeRoot "<</Type /StructTreeRoot>>" "IDTree" "Names";
        pre "<</K 3 0 R>>" |w| w.child(r(3)); post "<</ParentTree <<>>>>" |w| { w.parent_tree(); };
        open |w| w.id_tree(); |t| t.names(); NameTreeEntries<'_, Ref>; |s| { name_refs(&mut s); });
    via!(o; "StructTreeRoot.parent_tree", StructTreeRoot "<</Type /StructTreeRoot>>" "ParentTree" "Nums";
        pre "<</IDTree <<>>>>" |w| { w.id_tree(); }; post "<</ParentTreeNextKey 7>>" |w| w.parent_tree_next_key(7);
        open |w| w.parent_tree(); |t| t.nums(); NumberTreeEntries<'_, Ref>; |s| { number_refs(&mut s); });
    coll!(o; "StructTreeRoot.children", Array, StructTreeRoot "<</Type /StructTreeRoot>>" "K";
        pre "<</ClassMap <<>>>>" |w| { w.class_map(); }; post "<</RoleMap <<>>>>" |w| { w.role_map(); };
        open |w| w.children(); TypedArray<'_, Ref>; |s| { refs(&mut s); });
    coll!(o; "StructTreeRoot.namespaces", Array, StructTreeRoot "<</Type /StructTreeRoot>>" "Namespaces";
        pre "<</K []>>" |w| { w.children(); }; post "<</IDTree <<>>>>" |w| { w.id_tree(); };
        open |w| w.namespaces(); TypedArray<'_, Ref>; |s| { refs(&mut s); });
    coll!(o; "StructTreeRoot.pronunciation_lexicon", Array, StructTreeRoot "<</Type /StructTreeRoot>>" "PronunciationLexicon";
        pre "<</Namespaces []>>" |w| { w.namespaces(); }; post "<</K [2 0 R]>>" |w| { w.children().item(r(2)); };
        open |w| w.pronunciation_lexicon(); TypedArray<'_, Ref>; |s| { refs(&mut s); });

    // Fonts.
    coll!(o; "Encoding.differences", Array, Encoding "<</Type /Encoding>>" "Differences";
        pre "<</BaseEncoding /WinAnsiEncoding>>" |w| w.base_encoding(Name(b"WinAnsiEncoding"));
        post "<</A 1>>" |w| w.pair(Name(b"A"), 1);
        open |w| w.differences(); Differences<'_>; |s| {
            s.add("0 []", |_| vec![int(0)], Box::new(|d, _| { d.consecutive(0, user([].into_iter())); }));
            s.add("65 [A]", |_| vec![int(65), X::Name(b"A".to_vec())], Box::new(|d, _| { d.consecutive(65, user([Name(b"A")].into_iter())); }));
            s.add("255 [.notdef, '']", |_| vec![int(255), X::Name(b".notdef".to_vec()), X::Name(vec![])], Box::new(|d, _| { d.consecutive(255, user([Name(b".notdef"), Name(b"")].into_iter())); }));
            s.add("n [n names]", |n| {
                let mut v = vec![int(n as i32 % 256)];
                v.extend((0..n % 9).map(|i| X::Name(key(i))));
                v
            }, Box::new(|d, n| {
                let k: Vec<_> = (0..n % 9).map(key).collect();
                d.consecutive((n % 256) as u8, user(k.iter().map(|k| Name(k))));
            }));
            s.add("128 [a b c d e]", |_| vec![int(128), x("/a"), x("/b#20c"), x("/d#5be"), x("/R"), x("/9")], Box::new(|d, _| {
                d.consecutive(128, user([&b"a"[..], b"b c", b"d[e", b"R", b"9"].map(Name).into_iter()));
            }));
            s.add("item", |_| vec![x("/it")], Box::new(|d, _| { d.item(Name(b"it")); }));
        });
    whole!(o; "Differences", Array; open |obj| obj.start(); Differences<'_>; |s| {
        for k in [0u8, 1, 127, 128, 254, 255] {
            s.add(&format!("{k} [x]"), move |_| vec![int(k as i32), x("/x")], Box::new(move |d, _| { d.consecutive(k, user([Name(b"x")].into_iter())); }));
        }
    });
    coll!(o; "CidFont.widths", Array, CidFont "<</Type /Font>>" "W";
        pre "<</DW 700.5>>" |w| w.default_width(700.5); post "<</CIDToGIDMap 4 0 R>>" |w| w.cid_to_gid_map_stream(r(4));
        open |w| w.widths(); Widths<'_>; |s| { widths(&mut s); });
    whole!(o; "Widths", Array; open |obj| obj.start(); Widths<'_>; |s| { widths(&mut s); });
    coll!(o; "Type3Font.char_procs", Dict, Type3Font "<</Type /Font /Subtype /Type3>>" "CharProcs";
        pre "<</FirstChar 0>>" |w| w.first_char(0); post "<</LastChar 9>>" |w| w.last_char(9);
        open |w| w.char_procs(); TypedDict<'_, Ref>; |s| { ref_dict(&mut s); });

    // Structure.
    coll!(o; "StructTreeRoot.role_map", Dict, StructTreeRoot "<</Type /StructTreeRoot>>" "RoleMap";
        pre "<</ClassMap <<>>>>" |w| { w.class_map(); }; post "<</K 3 0 R>>" |w| w.child(r(3));
        open |w| w.role_map(); RoleMap<'_>; |s| {
            for (role, n) in [(StructRole::P, "P"), (StructRole::H1, "H1"), (StructRole::Table, "Table"), (StructRole::TOCI, "TOCI")] {
                s.pairs(n, move |i| vec![(key(i), X::Name(n.as_bytes().to_vec()))], Box::new(move |m, i| { m.insert(Name(&key(i)), role); }));
            }
            s.pairs("pair", |i| vec![(key(i), x("/Own"))], Box::new(|m, i| { m.pair(Name(&key(i)), Name(b"Own")); }));
        });
    coll!(o; "StructTreeRoot.class_map", Dict, StructTreeRoot "<</Type /StructTreeRoot>>" "ClassMap";
        pre "<</RoleMap <</a /P>>>>" |w| { w.role_map().insert(Name(b"a"), StructRole::P); }; post "<</K []>>" |w| { w.children(); };
        open |w| w.class_map(); ClassMap<'_>; |s| {
            s.pairs("single", |i| vec![(key(i), x("<<>>"))], Box::new(|m, i| { m.single(Name(&key(i))); }));
            s.pairs("single layout", |i| vec![(key(i), x("<</O /Layout /SpaceBefore 2.5>>"))], Box::new(|m, i| { m.single(Name(&key(i))).layout().space_before(2.5); }));
            s.pairs("multiple 0", |i| vec![(key(i), x("[]"))], Box::new(|m, i| { m.multiple(Name(&key(i))); }));
            s.pairs("multiple n", |i| vec![(key(i), X::Arr((0..=i as i64 % 5).map(|j| X::Dict(vec![(b"O".to_vec(), x("/Table")), (b"ColSpan".to_vec(), X::I(j))])).collect()))], Box::new(|m, i| {
                let mut a = m.multiple(Name(&key(i)));
                for j in 0..=i as i32 % 5 {
                    a.push().table().col_span(j);
                }
            }));
            s.pairs("multiple 2", |i| vec![(key(i), x("[<</O /List>> <<>>]"))], Box::new(|m, i| {
                let mut a = m.multiple(Name(&key(i)));
                a.push().list();
                a.push();
            }));
        });
    coll!(o; "Namespace.role_map_ns", Dict, Namespace "<</Type /Namespace>>" "RoleMapNS";
        pre "<</NS (u)>>" |w| w.pair(Name(b"NS"), TextStr("u")); post "<</Schema <<>>>>" |w| { w.insert(Name(b"Schema")).dict(); };
        open |w| w.role_map_ns(); NamespaceRoleMap<'_>; |s| {
            s.pairs("1.7 P", |i| vec![(key(i), x("/P"))], Box::new(|m, i| { m.to_pdf_1_7(Name(&key(i)), StructRole::P); }));
            s.pairs("1.7 H6", |i| vec![(key(i), x("/H6"))], Box::new(|m, i| { m.to_pdf_1_7(Name(&key(i)), StructRole::H6); }));
            s.pairs("ns", |i| vec![(key(i), x("[/ro#20le 7 0 R]"))], Box::new(|m, i| { m.to_namespace(Name(&key(i)), Name(b"ro le"), r(7)); }));
            s.pairs("2.0 Title", |i| vec![(key(i), x("[/Title 8 0 R]"))], Box::new(|m, i| { m.to_pdf_2_0(Name(&key(i)), StructRole2::Title, r(8)); }));
        });
    coll!(o; "StructElement.children", Array, StructElement "<</Type /StructElem>>" "K";
        pre "<</S /P>>" |w| w.kind(StructRole::P); post "<</Pg 3 0 R>>" |w| w.page(r(3));
        open |w| w.children(); StructChildren<'_>; |s| { children(&mut s); });
    whole!(o; "StructChildren", Array; open |obj| obj.start(); StructChildren<'_>; |s| { children(&mut s); });
    coll!(o; "StructElement.attributes", Array, StructElement "<</Type /StructElem>>" "A";
        pre "<</K []>>" |w| { w.children(); }; post "<</C []>>" |w| { w.attribute_class(); };
        open |w| w.attributes(); AttributesArray<'_>; |s| {
            s.add("none", |_| vec![x("<<>>")], Box::new(|a, _| { a.push(); }));
            s.add("list n", |n| vec![X::Dict(vec![(b"O".to_vec(), x("/List")), (b"ContinuedList".to_vec(), X::Bool(n % 2 == 0))])], Box::new(|a, n| { a.push().list().continued_list(n % 2 == 0); }));
            s.add("columns", |_| vec![x("<</O /Layout /ColumnWidths [1.5 2.0] /ColumnGap 3.0>>")], Box::new(|a, _| {
                let at = a.push();
                let mut l = at.layout();
                l.column_widths().individual().items([1.5, 2.0]);
                l.column_gap().uniform(3.0);
            }));
            s.add("user", |_| vec![x("<</O /UserProperties /P [<</N (a)>> <<>>]>>")], Box::new(|a, _| {
                let mut at = a.push();
                let mut u = at.user();
                u.push().name(TextStr("a"));
                u.push();
            }));
        });
    coll!(o; "StructElement.attribute_class", Array, StructElement "<</Type /StructElem>>" "C";
        pre "<</A []>>" |w| { w.attributes(); }; post "<</ActualText (x)>>" |w| w.actual_text(TextStr("x"));
        open |w| w.attribute_class(); TypedArray<'_, Name<'_>>; |s| {
            for n in [&b"a"[..], b"", b"b c", b"\xff"] {
                s.add(&format!("{:?}", Name(n)), move |_| vec![X::Name(n.to_vec())], Box::new(move |a, _| { a.item(Name(n)); }));
            }
            s.add("items", |_| vec![x("/x"), x("/")], Box::new(|a, _| { a.items(user([Name(b"x"), Name(b"")].into_iter())); }));
        });
    type Columns<'a> = TrackSizes<'a>;
    whole!(o; "TrackSizes.individual", Array; open |obj| obj.start::<Columns>().individual(); TypedArray<'_, f32>; |s| {
        for f in [0.0f32, 1.0, -2.5, 1e-7, 4e9] {
            s.add(&format!("{f}"), move |_| vec![X::F(f)], Box::new(move |a, _| { a.item(f); }));
        }
        s.add("items", |n| vec![X::F(n as f32), X::F(0.5)], Box::new(|a, n| { a.items(user([n as f32, 0.5].into_iter())); }));
    });
    coll!(o; "Catalog.extensions", Dict, Catalog "<</Type /Catalog>>" "Extensions";
        pre "<</Lang (en)>>" |w| w.lang(TextStr("en")); post "<</OutputIntents []>>" |w| { w.output_intents(); };
        open |w| w.extensions(); DeveloperExtensionDict<'_>; |s| {
            s.pairs("ext", |i| vec![(key(i), x("<</Type /DeveloperExtensions>>"))], Box::new(|d, i| { d.insert(Name(&key(i))); }));
            s.pairs("ext level", |i| vec![(key(i), X::Dict(vec![(b"Type".to_vec(), x("/DeveloperExtensions")), (b"ExtensionLevel".to_vec(), int(i as i32))]))], Box::new(|d, i| { d.insert(Name(&key(i))).extension_level(i as i32); }));
            s.pairs("ext base", |i| vec![(key(i), x("<</Type /DeveloperExtensions /BaseVersion /1.7>>"))], Box::new(|d, i| { d.insert(Name(&key(i))).base_version(1, 7); }));
        });
    coll!(o; "Catalog.output_intents", Array, Catalog "<</Type /Catalog>>" "OutputIntents";
        pre "<</Names <<>>>>" |w| { w.names(); }; post "<</AF []>>" |w| { w.associated_files(); };
        open |w| w.output_intents(); OutputIntentArray<'_>; |s| {
            s.add("none", |_| vec![x("<</Type /OutputIntent>>")], Box::new(|a, _| { a.push(); }));
            s.add("pdfa", |_| vec![x("<</Type /OutputIntent /S /GTS_PDFA1>>")], Box::new(|a, _| { a.push().subtype(OutputIntentSubtype::PDFA); }));
            s.add("info", |_| vec![x("<</Type /OutputIntent /Info (i) /DestOutputProfile 5 0 R>>")], Box::new(|a, _| { a.push().info(TextStr("i")).dest_output_profile(r(5)); }));
        });
    macro_rules! files {
        ($($W:ident $base:literal, $pre:literal |$w:ident| $pe:expr;)*) => {$(
            coll!(o; concat!(stringify!($W), ".associated_files"), Array, $W $base "AF";
                pre $pre |$w| $pe; post "<</Z9 1>>" |w| w.pair(Name(b"Z9"), 1);
                open |w| w.associated_files(); FileSpecArray<'_>; |s| {
                    s.add("none", |_| vec![x("<</Type /Filespec>>")], Box::new(|a, _| { a.push(); }));
                    s.add("path", |n| vec![X::Dict(vec![(b"Type".to_vec(), x("/Filespec")), (b"F".to_vec(), X::Str(key(n)))])], Box::new(|a, n| { a.push().path(Str(&key(n))); }));
                    s.add("desc", |_| vec![x("<</Type /Filespec /Desc (d) /V false>>")], Box::new(|a, _| { a.push().description(TextStr("d")).volatile(false); }));
                });
        )*};
    }
    files! {
        Catalog "<</Type /Catalog>>", "<</Extensions <<>>>>" |w| { w.extensions(); };
        StructTreeRoot "<</Type /StructTreeRoot>>", "<</Namespaces []>>" |w| { w.namespaces(); };
        StructElement "<</Type /StructElem>>", "<</A []>>" |w| { w.attributes(); };
        Page "<</Type /Page>>", "<</Annots [4 0 R]>>" |w| w.annotations([r(4)]);
        Annotation "<</Type /Annot>>", "<</Rect [0.0 0.0 1.0 1.0]>>" |w| w.rect(Rect::new(0.0, 0.0, 1.0, 1.0));
    }

    // Forms.
    coll!(o; "Field.choice_options", Array, Field "<<>>" "Opt";
        pre "<</FT /Ch>>" |w| w.field_type(FieldType::Choice); post "<</I [1]>>" |w| w.choice_indices([1]);
        open |w| w.choice_options(); ChoiceOptions<'_>; |s| {
            s.add("a", |_| vec![x("(a)")], Box::new(|c, _| { c.option(TextStr("a")); }));
            s.add("empty", |_| vec![x("()")], Box::new(|c, _| { c.option(TextStr("")); }));
            s.add("export", |_| vec![X::Arr(vec![X::Text("\u{e9}".into()), X::Text("v".into())])], Box::new(|c, _| { c.export(TextStr("v"), TextStr("\u{e9}")); }));
            s.add("options n", |n| (0..n % 7).map(|i| X::Text(format!("o{i}"))).collect(), Box::new(|c, n| {
                let v: Vec<_> = (0..n % 7).map(|i| format!("o{i}")).collect();
                c.options(v.iter().map(|o| TextStr(o)));
            }));
            s.add("exports", |_| vec![x("[(1) (a)]"), x("[(2) (b)]")], Box::new(|c, _| { c.exports([(TextStr("a"), TextStr("1")), (TextStr("b"), TextStr("2"))]); }));
        });
    coll!(o; "Action.fields", Array, Action "<</Type /Action>>" "Fields";
        pre "<</S /SubmitForm>>" |w| w.action_type(ActionType::SubmitForm); post "<</F (x)>>" |w| w.pair(Name(b"F"), Str(b"x"));
        open |w| w.fields(); Fields<'_>; |s| {
            s.add("id", |_| vec![X::Ref(5)], Box::new(|f, _| { f.id(r(5)); }));
            s.add("ids n", |n| (0..n % 5).map(|i| X::Ref(i as i64 + 1)).collect(), Box::new(|f, n| { f.ids((0..n % 5).map(|i| r(i as i32 + 1))); }));
            s.add("name", |_| vec![X::Text("\u{20ac}".into())], Box::new(|f, _| { f.name(TextStr("\u{20ac}")); }));
            s.add("names", |_| vec![x("(a)"), x("()")], Box::new(|f, _| { f.names([TextStr("a"), TextStr("")]); }));
        });

    // Named objects.
    whole!(o; "destinations", Dict; open |obj| obj.dict().typed(); DestinationDict<'_>; |s| {
        s.pairs("fit", |i| vec![(key(i), x("[5 0 R /Fit]"))], Box::new(|d, i| { d.insert(Name(&key(i))).page(r(5)).fit(); }));
        s.pairs("xyz", |i| vec![(key(i), X::Arr(vec![X::Ref(i as i64 + 1), x("/XYZ"), X::F(i as f32), X::F(2.5), X::F(1.25)]))], Box::new(|d, i| { d.insert(Name(&key(i))).page(r(i as i32 + 1)).xyz(i as f32, 2.5, Some(1.25)); }));
        s.pairs("open", |i| vec![(key(i), x("[9 0 R]"))], Box::new(|d, i| { d.insert(Name(&key(i))).page(r(9)); }));
    });
    macro_rules! resources {
        ($($m:ident $k:literal, $pm:ident $pre:literal, $qm:ident $post:literal;)*) => {$(
            coll!(o; concat!("Resources.", stringify!($m)), Dict, Resources "<<>>" $k;
                pre $pre |w| { w.$pm().pair(Name(b"p"), r(6)); }; post $post |w| { w.$qm().pair(Name(b"q"), r(7)); };
                open |w| w.$m(); Dict<'_>; |s| {
                    s.pairs("pair", |i| vec![(key(i), X::Ref(i as i64 + 1))], Box::new(|d, i| { d.pair(Name(&key(i)), r(i as i32 + 1)); }));
                    s.pairs("max", |i| vec![(key(i), X::Ref(i32::MAX as i64))], Box::new(|d, i| { d.pair(Name(&key(i)), r(i32::MAX)); }));
                    s.pairs("pairs", |i| vec![(key(i), X::Ref(1)), ([key(i), b"2".to_vec()].concat(), X::Ref(2))], Box::new(|d, i| {
                        let (a, b) = (key(i), [key(i), b"2".to_vec()].concat());
                        d.pairs(user([(Name(&a), r(1)), (Name(&b), r(2))].into_iter()));
                    }));
                    s.pairs("inline", |i| vec![(key(i), x("[/Indexed]"))], Box::new(|d, i| { d.insert(Name(&key(i))).array().item(Name(b"Indexed")); }));
                });
        )*};
    }
    resources! {
        x_objects "XObject", fonts "<</Font <</p 6 0 R>>>>", color_spaces "<</ColorSpace <</q 7 0 R>>>>";
        fonts "Font", color_spaces "<</ColorSpace <</p 6 0 R>>>>", patterns "<</Pattern <</q 7 0 R>>>>";
        color_spaces "ColorSpace", patterns "<</Pattern <</p 6 0 R>>>>", shadings "<</Shading <</q 7 0 R>>>>";
        patterns "Pattern", shadings "<</Shading <</p 6 0 R>>>>", ext_g_states "<</ExtGState <</q 7 0 R>>>>";
        shadings "Shading", ext_g_states "<</ExtGState <</p 6 0 R>>>>", x_objects "<</XObject <</q 7 0 R>>>>";
        ext_g_states "ExtGState", x_objects "<</XObject <</p 6 0 R>>>>", fonts "<</Font <</q 7 0 R>>>>";
    }
    coll!(o; "Resources.properties", Dict, Resources "<<>>" "Properties";
        pre "<</Font <<>>>>" |w| { w.fonts(); }; post "<</ProcSet [/PDF /Text /ImageB /ImageC /ImageI]>>" |w| w.proc_sets_all();
        open |w| w.properties(); PropertyListDict<'_>; |s| {
            s.pairs("none", |i| vec![(key(i), x("<<>>"))], Box::new(|d, i| { d.insert(Name(&key(i))); }));
            s.pairs("mcid", |i| vec![(key(i), X::Dict(vec![(b"MCID".to_vec(), int(i as i32))]))], Box::new(|d, i| { d.insert(Name(&key(i))).identify(i as i32); }));
            s.pairs("text", |i| vec![(key(i), x("<</ActualText (t) /A 1>>"))], Box::new(|d, i| { d.insert(Name(&key(i))).actual_text(TextStr("t")).pair(Name(b"A"), 1); }));
        });
    type Ap<'a> = AppearanceEntry<'a>;
    whole!(o; "AppearanceEntry.streams", Dict; open |obj| obj.start::<Ap>().streams(); TypedDict<'_, Ref>; |s| { ref_dict(&mut s); });
    coll!(o; "Page.annotations and kids", Array, Pages "<</Type /Pages>>" "Annots";
        pre "<</Kids [3 0 R 4 0 R] /Count 2>>" |w| w.kids([r(3), r(4)]).count(2); post "<</MediaBox [0.0 0.0 9.0 9.0]>>" |w| w.media_box(Rect::new(0.0, 0.0, 9.0, 9.0));
        open |w| w.insert(Name(b"Annots")).array().typed(); TypedArray<'_, Ref>; |s| { refs(&mut s); });
    o
}

fn ref_dict(s: &mut Steps<dyn Fn(&mut TypedDict<'_, Ref>, usize) + Send + Sync>) {
    s.pairs("5", |i| vec![(key(i), X::Ref(5))], Box::new(|d, i| { d.pair(Name(&key(i)), r(5)); }));
    s.pairs("n", |i| vec![(key(i), X::Ref(i as i64 + 1))], Box::new(|d, i| { d.pair(Name(&key(i)), r(i as i32 + 1)); }));
    s.pairs("max", |i| vec![(key(i), X::Ref(i32::MAX as i64))], Box::new(|d, i| { d.pair(Name(&key(i)), r(i32::MAX)); }));
    s.pairs("pairs", |i| vec![(key(i), X::Ref(1)), ([key(i), b"2".to_vec()].concat(), X::Ref(2))], Box::new(|d, i| {
        let (a, b) = (key(i), [key(i), b"2".to_vec()].concat());
        d.pairs(user([(Name(&a), r(1)), (Name(&b), r(2))].into_iter()));
    }));
}

fn widths(s: &mut Steps<dyn Fn(&mut Widths<'_>, usize) + Send + Sync>) {
    s.add("0 []", |_| vec![int(0), X::Arr(vec![])], Box::new(|w, _| { w.consecutive(0, user([].into_iter())); }));
    s.add("65535 [1]", |_| vec![int(65535), x("[1.0]")], Box::new(|w, _| { w.consecutive(65535, user([1.0].into_iter())); }));
    s.add("n [n]", |n| {
        vec![int(n as i32), X::Arr((0..n % 11).map(|i| X::F(i as f32 * 0.25)).collect())]
    }, Box::new(|w, n| { w.consecutive(n as u16, user((0..n % 11).map(|i| i as f32 * 0.25))); }));
    s.add("same 1 9 500", |_| vec![int(1), int(9), X::F(500.0)], Box::new(|w, _| { w.same(1, 9, 500.0); }));
    s.add("same 0 65535 .5", |_| vec![int(0), int(65535), X::F(0.5)], Box::new(|w, _| { w.same(0, 65535, 0.5); }));
    s.add("same 32768 32767 -1", |_| vec![int(32768), int(32767), X::F(-1.0)], Box::new(|w, _| { w.same(32768, 32767, -1.0); }));
}

fn children(s: &mut Steps<dyn Fn(&mut StructChildren<'_>, usize) + Send + Sync>) {
    s.add("element", |n| vec![X::Ref(n as i64 + 1)], Box::new(|c, n| { c.struct_element(r(n as i32 + 1)); }));
    s.add("mcid", |n| vec![int(n as i32)], Box::new(|c, n| { c.marked_content_id(n as i32); }));
    s.add("mcr", |_| vec![x("<</Type /MCR>>")], Box::new(|c, _| { c.marked_content_ref(); }));
    s.add("mcr mcid", |n| vec![X::Dict(vec![(b"Type".to_vec(), x("/MCR")), (b"MCID".to_vec(), int(n as i32)), (b"Pg".to_vec(), X::Ref(4))])], Box::new(|c, n| { c.marked_content_ref().marked_content_id(n as i32).page(r(4)); }));
    s.add("objr", |_| vec![x("<</Type /OBJR /Obj 6 0 R>>")], Box::new(|c, _| { c.object_ref().object(r(6)); }));
}
