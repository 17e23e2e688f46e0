//! C20: structure role names and version mappings are coherent.
use mc::tables::{roles, roles2};
use mc::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;
use std::collections::HashMap;
use std::num::NonZeroU16;

fn main() {
    guard(explore)
}

/// Substitutes for the roles which exist in one version only.
const TO_2: &[(&str, Option<&str>)] = &[
    ("Art", None), ("BlockQuote", None), ("TOC", None), ("TOCI", None), ("Index", None),
    ("Private", None), ("BibEntry", None), ("Quote", Some("Em")), ("Note", Some("FENote")),
    ("Reference", Some("Link")), ("Code", Some("Strong")),
];
/// Fallback without options, with its option set.
const TO_1: &[(&str, &str, &str)] = &[
    ("DocumentFragment", "Div", "Div"), ("Aside", "Div", "Div"), ("Title", "P", "H1"),
    ("Sub", "Div", "Span"), ("FENote", "Note", "Note"), ("Em", "Span", "Span"),
    ("Strong", "Span", "Span"), ("Artifact", "Private", "Private"),
];

fn type_1(n: &str) -> &'static [&'static str] {
    match n {
        "Document" | "Part" | "Art" | "Sect" | "Div" | "BlockQuote" | "Caption" | "TOC" | "TOCI"
        | "Index" | "NonStruct" | "Private" => &["Grouping"],
        "P" | "H" | "H1" | "H2" | "H3" | "H4" | "H5" | "H6" => &["BlockLevel(ParagraphLike)"],
        "L" | "LI" | "Lbl" | "LBody" => &["BlockLevel(List)"],
        "Table" => &["BlockLevel(Table)"],
        "TR" | "TH" | "TD" | "THead" | "TBody" | "TFoot" => &["Table"],
        "Span" | "Quote" | "Note" | "Reference" | "BibEntry" | "Code" => &["InlineLevel(Generic)"],
        // The standard lists these two both among the inline-level elements
        // and as the ruby and warichu assemblies.
        "Ruby" | "Warichu" => &["InlineLevel(Generic)", "InlineLevel(RubyWarichu)"],
        "Link" => &["InlineLevel(Link)"],
        "Annot" => &["InlineLevel(Annotation)"],
        "RB" | "RT" | "RP" | "WT" | "WP" => &["InlineLevel(RubyWarichu)"],
        "Figure" | "Formula" | "Form" => &["Illustration"],
        n => panic!("{n}"),
    }
}
fn type_2(n: &str) -> &'static str {
    match n {
        "Document" | "DocumentFragment" => "Document",
        "Part" | "Sect" | "Div" | "Aside" | "NonStruct" => "Grouping",
        "P" | "H" | "Title" | "FENote" => "BlockLevel",
        "Sub" => "SubBlockLevel",
        "Lbl" | "Span" | "Em" | "Strong" | "Link" | "Annot" | "Form" => "InlineLevel(Generic)",
        "Ruby" | "RB" | "RT" | "RP" | "Warichu" | "WT" | "WP" => "InlineLevel(RubyWarichu)",
        "L" | "LI" | "LBody" => "List",
        "Table" | "TR" | "TH" | "TD" | "THead" | "TBody" | "TFoot" => "Table",
        "Caption" => "Caption",
        "Figure" => "Figure",
        "Formula" => "Formula",
        "Artifact" => "Artifact",
        n if n.strip_prefix('H').is_some_and(|l| l.parse::<u16>().is_ok()) => "BlockLevel",
        n => panic!("{n}"),
    }
}

/// The name a role is serialised to, in every writer that serialises roles.
fn name_1(r: StructRole) -> Vec<Vec<u8>> {
    let mut out = vec![r.to_name().0.to_vec()];
    let mut ch = Chunk::new();
    ch.struct_element(Ref::new(1)).kind(r);
    ch.indirect(Ref::new(2)).start::<RoleMap>().insert(Name(b"X"), r);
    ch.indirect(Ref::new(3)).start::<NamespaceRoleMap>().to_pdf_1_7(Name(b"X"), r);
    let o = pdf::parse_chunk(ch.as_bytes()).unwrap();
    for (i, k) in ["S", "X", "X"].iter().enumerate() {
        match o[i].val.get(k) {
            Some(pdf::V::Name(n)) => out.push(n.clone()),
            v => out.push(format!("{v:?}").into_bytes()),
        }
    }
    out
}
fn name_2(r: StructRole2, pretty: bool) -> Vec<Vec<u8>> {
    // Whatever the buffer was used for before.
    let mut out = vec![];
    for b in [0xff, 0, b'0', b'9', b'H', b' '] {
        out.push(r.to_name(&mut [b; 6]).0.to_vec());
    }
    for level in [1, 12, 345, 6789, 10_000, u16::MAX] {
        let mut buf = [0; 6];
        StructRole2::Heading(NonZeroU16::new(level).unwrap()).to_name(&mut buf);
        out.push(r.to_name(&mut buf).0.to_vec());
        out.push(r.to_name(&mut buf).0.to_vec());
    }
    let mut ch = Chunk::with_settings(gen::settings(pretty));
    ch.struct_element(Ref::new(1)).kind_2(r, Ref::new(8));
    ch.indirect(Ref::new(2)).start::<NamespaceRoleMap>().to_pdf_2_0(Name(b"X"), r, Ref::new(9));
    let o = pdf::parse_chunk(ch.as_bytes()).unwrap();
    let mut put = |v: Option<&pdf::V>| match v {
        Some(pdf::V::Name(n)) => out.push(n.clone()),
        v => out.push(format!("{v:?}").into_bytes()),
    };
    put(o[0].val.get("S"));
    match o[1].val.get("X") {
        Some(pdf::V::Arr(a)) if a.len() == 2 && a[1] == pdf::V::Ref(9, 0) => put(Some(&a[0])),
        v => put(v),
    }
    out
}

fn all_opts() -> Vec<RoleMapOpts> {
    let f = [RoleMapOpts::MAP_HN_TO_H6, RoleMapOpts::MAP_TITLE_TO_H1, RoleMapOpts::MAP_SUB_TO_SPAN];
    (0..8)
        .map(|m| {
            let mut o = RoleMapOpts::empty();
            for (i, f) in f.iter().enumerate() {
                o.set(RoleMapOpts::from_bits(f.bits()).unwrap(), m >> i & 1 > 0);
            }
            o
        })
        .collect()
}

fn explore() {
    let c = Ctx::new("C20");
    let r1 = roles();
    let mut r2: Vec<(StructRole2, String)> =
        roles2().into_iter().map(|(r, n)| (r, n.to_string())).collect();
    for l in 1..=u16::MAX {
        r2.push((StructRole2::Heading(NonZeroU16::new(l).unwrap()), format!("H{l}")));
    }
    let by_1: HashMap<&str, StructRole> = r1.iter().map(|(r, n)| (*n, *r)).collect();
    let by_2: HashMap<String, StructRole2> = r2.iter().map(|(r, n)| (n.clone(), *r)).collect();
    c.note("PDF 1.7 roles", r1.len());
    c.note("PDF 2.0 roles", r2.len());

    c.phase("names");
    for (r, n) in &r1 {
        let got = name_1(*r);
        c.check(got.iter().all(|g| g == n.as_bytes()), &format!("1.7 {r:?} name"), || {
            format!("{r:?} is written as {:?}, expected {n}", got.iter().map(|g| show_bytes(g)).collect::<Vec<_>>())
        });
        c.states_by_construction(1);
        c.steps(3);
        c.traces_n(1);
    }
    par(r2.len(), |i| {
        let (r, n) = &r2[i];
        for pretty in [false, true] {
            let got = name_2(*r, pretty);
            c.check(got.iter().all(|g| g == n.as_bytes()), &format!("2.0 {r:?} name"), || {
                format!("{r:?} is written as {:?}, expected {n}", got.iter().map(|g| show_bytes(g)).collect::<Vec<_>>())
            });
        }
        c.states_by_construction(1);
        c.steps(6);
        c.traces_n(2);
    });

    // The mapping between the versions as a graph: every edge.
    c.phase("1.7 to 2.0");
    for (r, n) in &r1 {
        let want = match TO_2.iter().find(|(a, _)| a == n) {
            Some((_, w)) => w.map(|w| by_2[w]),
            None => Some(*by_2.get(*n).unwrap_or_else(|| panic!("{n}"))),
        };
        let got = r.into_pdf_2_0();
        c.check(got == want, &format!("1.7 {r:?} to 2.0"), || {
            format!("{r:?} maps to {got:?} in PDF 2.0, expected {want:?}")
        });
        let got = StructRole2::try_from(*r).ok();
        c.check(got == want, &format!("1.7 {r:?} try_from"), || {
            format!("{r:?} converts to {got:?} in PDF 2.0, expected {want:?}")
        });
        let t = format!("{:?}", r.role_type());
        c.check(type_1(n).contains(&t.as_str()), &format!("1.7 {r:?} type"), || {
            format!("{r:?} is classified as {t}, expected {:?}", type_1(n))
        });
        c.states_by_construction(1);
        c.steps(3);
        c.traces_n(1);
    }

    c.phase("2.0 to 1.7");
    c.check(RoleMapOpts::default().is_empty(), "default options", || {
        format!("the default options are {:03b}", RoleMapOpts::default().bits())
    });
    par(r2.len(), |i| {
        let (r, n) = &r2[i];
        let heading = matches!(r, StructRole2::Heading(l) if l.get() > 6);
        for o in all_opts() {
            let set = match n.as_str() {
                "Title" => o.contains(RoleMapOpts::MAP_TITLE_TO_H1),
                "Sub" => o.contains(RoleMapOpts::MAP_SUB_TO_SPAN),
                _ => false,
            };
            let (same, want) = if heading {
                (false, by_1[if o.contains(RoleMapOpts::MAP_HN_TO_H6) { "H6" } else { "P" }])
            } else {
                match TO_1.iter().find(|(a, ..)| a == n) {
                    Some((_, no, yes)) => (false, by_1[if set { *yes } else { *no }]),
                    None => (true, by_1[n.as_str()]),
                }
            };
            let compat = if same {
                StructRole2Compat::Compatible(want)
            } else {
                StructRole2Compat::RoleMapping(want)
            };
            let bits = o.bits();
            let got = r.compatibility_1_7(RoleMapOpts::from_bits(bits).unwrap());
            let def = bits == 0;
            let ok = got == compat
                && got.role() == want
                && got.into_pdf_1_7() == same.then_some(want)
                && got.role_mapped_1_7() == (!same).then_some(want)
                && (!def || StructRole::try_from(*r).ok() == same.then_some(want));
            c.check(ok, &format!("2.0 {r:?} to 1.7"), || {
                format!(
                    "{r:?} with options {bits:03b}: {got:?} role={:?} compatible={:?} mapped={:?} converted={:?}, expected {compat:?}",
                    got.role(), got.into_pdf_1_7(), got.role_mapped_1_7(), StructRole::try_from(*r)
                )
            });
            // Walk on: the fallback must lead back into 2.0 to the same role
            // or to one which falls back to something stable.
            let mut at = *r;
            for _ in 0..4 {
                let f = at.compatibility_1_7(RoleMapOpts::from_bits(bits).unwrap()).role();
                let Some(next) = f.into_pdf_2_0() else { break };
                if same {
                    c.check(next == *r, &format!("2.0 {r:?} round trip"), || {
                        format!("{r:?} -> {f:?} -> {next:?}")
                    });
                }
                at = next;
            }
            c.states_by_construction(1);
            c.steps(6);
            c.traces_n(1);
        }
        let t = format!("{:?}", r.role_type());
        c.check(t == type_2(n), &format!("2.0 {r:?} type"), || {
            format!("{r:?} is classified as {t}, expected {}", type_2(n))
        });
    });
    c.finish()
}
