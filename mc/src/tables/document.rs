//! Catalog, pages, outlines, destinations, names, viewer preferences, page
//! labels, document information, metadata, structure tree and attributes.
use crate::model::{x, X};
use crate::dom::{f32s, num_set, num_sets, rect, rects, refs};
use crate::tab::*;
use crate::{stream_table, table, value_table};
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;
use std::num::NonZeroU16;

/// The standard structure types of PDF 1.7 and their names.
pub fn roles() -> Vec<(StructRole, &'static str)> {
    use StructRole as R;
    vec![
        (R::Document, "Document"),
        (R::Part, "Part"),
        (R::Art, "Art"),
        (R::Sect, "Sect"),
        (R::Div, "Div"),
        (R::BlockQuote, "BlockQuote"),
        (R::Caption, "Caption"),
        (R::TOC, "TOC"),
        (R::TOCI, "TOCI"),
        (R::Index, "Index"),
        (R::NonStruct, "NonStruct"),
        (R::Private, "Private"),
        (R::P, "P"),
        (R::StructuredHeading, "H"),
        (R::H1, "H1"),
        (R::H2, "H2"),
        (R::H3, "H3"),
        (R::H4, "H4"),
        (R::H5, "H5"),
        (R::H6, "H6"),
        (R::L, "L"),
        (R::LI, "LI"),
        (R::Lbl, "Lbl"),
        (R::LBody, "LBody"),
        (R::Table, "Table"),
        (R::TR, "TR"),
        (R::TH, "TH"),
        (R::TD, "TD"),
        (R::THead, "THead"),
        (R::TBody, "TBody"),
        (R::TFoot, "TFoot"),
        (R::Span, "Span"),
        (R::Quote, "Quote"),
        (R::Note, "Note"),
        (R::Reference, "Reference"),
        (R::BibEntry, "BibEntry"),
        (R::Code, "Code"),
        (R::Link, "Link"),
        (R::Annot, "Annot"),
        (R::Ruby, "Ruby"),
        (R::Warichu, "Warichu"),
        (R::RB, "RB"),
        (R::RT, "RT"),
        (R::RP, "RP"),
        (R::WT, "WT"),
        (R::WP, "WP"),
        (R::Figure, "Figure"),
        (R::Formula, "Formula"),
        (R::Form, "Form"),
    ]
}

/// The standard structure types of PDF 2.0 without numbered headings.
pub fn roles2() -> Vec<(StructRole2, &'static str)> {
    use StructRole2 as R;
    vec![
        (R::Document, "Document"),
        (R::DocumentFragment, "DocumentFragment"),
        (R::Part, "Part"),
        (R::Sect, "Sect"),
        (R::Div, "Div"),
        (R::Aside, "Aside"),
        (R::NonStruct, "NonStruct"),
        (R::P, "P"),
        (R::StructuredHeading, "H"),
        (R::Title, "Title"),
        (R::FENote, "FENote"),
        (R::Sub, "Sub"),
        (R::Lbl, "Lbl"),
        (R::Span, "Span"),
        (R::Em, "Em"),
        (R::Strong, "Strong"),
        (R::Link, "Link"),
        (R::Annot, "Annot"),
        (R::Form, "Form"),
        (R::Ruby, "Ruby"),
        (R::RB, "RB"),
        (R::RT, "RT"),
        (R::RP, "RP"),
        (R::Warichu, "Warichu"),
        (R::WT, "WT"),
        (R::WP, "WP"),
        (R::L, "L"),
        (R::LI, "LI"),
        (R::LBody, "LBody"),
        (R::Table, "Table"),
        (R::TR, "TR"),
        (R::TH, "TH"),
        (R::TD, "TD"),
        (R::THead, "THead"),
        (R::TBody, "TBody"),
        (R::TFoot, "TFoot"),
        (R::Caption, "Caption"),
        (R::Figure, "Figure"),
        (R::Formula, "Formula"),
        (R::Artifact, "Artifact"),
    ]
}

pub fn h(n: u16) -> StructRole2 {
    StructRole2::Heading(NonZeroU16::new(n).unwrap())
}
fn n(s: &str) -> X {
    X::Name(s.as_bytes().to_vec())
}
const LEVELS: &[u16] = &[1, 2, 6, 7, 9, 10, 99, 100, 255, 256, 9999, 10000, 65535];

/// All arguments for a colour or number per side.
fn sides<T: Copy + PartialEq>(v: [T; 5]) -> Vec<[T; 4]> {
    let [a, b, c, d, e] = v;
    vec![
        [a, b, c, d],
        [a; 4],
        [e; 4],
        [b, a, a, a],
        [a, b, a, a],
        [a, a, b, a],
        [a, a, a, b],
        [a, a, e, e],
        [a, e, a, e],
        [e, d, c, b],
    ]
}
fn sides_x<T: Copy + PartialEq>(s: [T; 4], f: impl Fn(T) -> X) -> X {
    if s.iter().all(|t| *t == s[0]) {
        f(s[0])
    } else {
        X::Arr(s.map(f).to_vec())
    }
}
fn colours(i: usize) -> [[f32; 3]; 4] {
    let v = num_set::<12>(i);
    std::array::from_fn(|k| [v[3 * k], v[3 * k + 1], v[3 * k + 2]])
}
fn rgb(c: [f32; 3]) -> X {
    f32s_x(&c)
}
const COLORS: [[f32; 3]; 5] =
    [[0.0, 0.5, 1.0], [0.25, 1.0, 1.0], [0.0, 0.5, 0.0], [1.0, 0.5, 1.0], [0.0; 3]];
const WIDTHS: [f32; 5] = [0.5, 1.0, 2.0, 0.0, 3.25];

pub fn document() -> Vec<Table> {
    let mut o = vec![];
    table!(o; Dict "Catalog" "<</Type /Catalog>>" Catalog {
        refr pages "Pages";
        en page_layout "PageLayout" {
            PageLayout::SinglePage => "/SinglePage", PageLayout::OneColumn => "/OneColumn",
            PageLayout::TwoColumnLeft => "/TwoColumnLeft",
            PageLayout::TwoColumnRight => "/TwoColumnRight",
            PageLayout::TwoPageLeft => "/TwoPageLeft",
            PageLayout::TwoPageRight => "/TwoPageRight",
        };
        call "page_labels+" {"PageLabels": "<</Nums [-2 7 0 R 3 1 0 R]>>"}
            |w| w.page_labels().nums().insert(-2, Ref::new(7)).insert(3, Ref::new(1));
        also "page_labels" {"PageLabels": "<<>>"} |w| { w.page_labels(); };
        en page_mode "PageMode" {
            PageMode::UseNone => "/UseNone", PageMode::UseOutlines => "/UseOutlines",
            PageMode::UseThumbs => "/UseThumbs", PageMode::FullScreen => "/FullScreen",
            PageMode::UseOC => "/UseOC", PageMode::UseAttachments => "/UseAttachments",
        };
        sub viewer_preferences "ViewerPreferences" "<<>>";
        sub names "Names" "<<>>";
        refr destinations "Dests";
        refr outlines "Outlines";
        sub struct_tree_root "StructTreeRoot" "<</Type /StructTreeRoot>>";
        sub mark_info "MarkInfo" "<<>>";
        text lang "Lang";
        wide "version" "Version" 1 << 16, |i| n(&format!("{}.{}", i >> 8, i & 255)), |w| w.version((i >> 8) as u8, i as u8);
        do |t| {
            for (a, b) in [(2, 0), (1, 7), (0, 0), (9, 9), (1, 4)] {
                t.push(format!("version({a}, {b})"), vec![("Version", n(&format!("{a}.{b}")))], Box::new(move |w| { w.version(a, b); }));
            }
        };
        sub additional_actions "AA" "<<>>";
        sub form "AcroForm" "<<>>";
        refr metadata "Metadata";
        call "extensions x2" {"Extensions": "<</ADBE <</Type /DeveloperExtensions /Zz 1>> / <</Type /DeveloperExtensions>>>>"} |w| {
            let mut e = w.extensions();
            e.insert(Name(b"ADBE")).pair(Name(b"Zz"), 1);
            e.insert(Name(b""));
        };
        also "extensions x0" {"Extensions": "<<>>"} |w| { w.extensions(); };
        call "separation_info+" {"SeparationInfo": "<</DeviceColorant /a>>"} |w| { w.separation_info().device_colorant(Name(b"a")); };
        also "separation_info" {"SeparationInfo": "<<>>"} |w| { w.separation_info(); };
        call "output_intents x2" {"OutputIntents": "[<</Type /OutputIntent /S /GTS_PDFA1>> <</Type /OutputIntent>>]"} |w| {
            let mut a = w.output_intents();
            a.push().subtype(OutputIntentSubtype::PDFA);
            a.push();
        };
        also "output_intents x0" {"OutputIntents": "[]"} |w| { w.output_intents(); };
        subs associated_files "AF" "<</Type /Filespec>>";
    });
    table!(o; Dict "DeveloperExtension" "<</Type /DeveloperExtensions>>" DeveloperExtension {
        wide "base_version" "BaseVersion" 1 << 16, |i| n(&format!("{}.{}", i >> 8, i & 255)), |w| w.base_version((i >> 8) as u8, i as u8);
        do |t| {
            for (a, b) in [(1, 7), (2, 0), (0, 0), (1, 4)] {
                t.push(format!("base_version({a}, {b})"), vec![("BaseVersion", n(&format!("{a}.{b}")))], Box::new(move |w| { w.base_version(a, b); }));
            }
        };
        i32 extension_level "ExtensionLevel";
    });
    table!(o; Dict "ViewerPreferences" "<<>>" ViewerPreferences {
        bool hide_toolbar "HideToolbar";
        bool hide_menubar "HideMenubar";
        bool fit_window "FitWindow";
        bool center_window "CenterWindow";
        bool display_doc_title "DisplayDocTitle";
        en non_full_screen_page_mode "NonFullScreenPageMode" {
            PageMode::UseNone => "/UseNone", PageMode::UseOutlines => "/UseOutlines",
            PageMode::UseThumbs => "/UseThumbs", PageMode::UseOC => "/UseOC",
        };
        en direction "Direction" { Direction::L2R => "/L2R", Direction::R2L => "/R2L" };
    });
    table!(o; Dict "StructTreeRoot" "<</Type /StructTreeRoot>>" StructTreeRoot {
        refr child "K";
        refarr children "K";
        call "id_tree+" {"IDTree": "<</Limits [() (a)] /Names [() 7 0 R (a\\)) 1 0 R]>>"} |w| {
            let mut t = w.id_tree();
            t.limits(Name(b""), Name(b"a"));
            t.names().insert(Str(b""), Ref::new(7)).insert(Str(b"a)"), Ref::new(1));
        };
        also "id_tree" {"IDTree": "<<>>"} |w| { w.id_tree(); };
        call "parent_tree+" {"ParentTree": "<</Kids [7 0 R 1 0 R] /Limits [-1 8]>>"} |w| {
            let mut t = w.parent_tree();
            t.kids().item(Ref::new(7)).item(Ref::new(1));
            t.limits(-1, 8);
        };
        also "parent_tree" {"ParentTree": "<<>>"} |w| { w.parent_tree(); };
        i32 parent_tree_next_key "ParentTreeNextKey";
        call "role_map+" {"RoleMap": "<</My#20Role /H1 / /P>>"}
            |w| w.role_map().insert(Name(b"My Role"), StructRole::H1).insert(Name(b""), StructRole::P);
        also "role_map" {"RoleMap": "<<>>"} |w| { w.role_map(); };
        sub class_map "ClassMap" "<<>>";
        refarr namespaces "Namespaces";
        refarr pronunciation_lexicon "PronunciationLexicon";
        subs associated_files "AF" "<</Type /Filespec>>";
    });
    table!(o; Dict "StructElement" "<</Type /StructElem>>" StructElement {
        do |t| {
            for (r, name) in roles() {
                t.push(format!("kind({r:?})"), vec![("S", n(name))], Box::new(move |w| { w.kind(r); }));
            }
        };
        do |t| {
            for (i, (r, name)) in roles2().into_iter().enumerate() {
                let id = REFS[i % REFS.len()];
                t.push(format!("kind_2({r:?}, {id})"), vec![("S", n(name)), ("NS", X::Ref(id as i64))], Box::new(move |w| { w.kind_2(r, Ref::new(id)); }));
            }
            for l in LEVELS {
                t.push(format!("kind_2(H{l}, 3)"), vec![("S", n(&format!("H{l}"))), ("NS", X::Ref(3))], Box::new(move |w| { w.kind_2(h(*l), Ref::new(3)); }));
            }
        };
        name custom_kind "S";
        refr parent "P";
        str id "ID";
        refs refs "Ref";
        refr page "Pg";
        refr child "K";
        sub marked_content_child "K" "<</Type /MCR>>";
        sub object_child "K" "<</Type /OBJR>>";
        call "children+" {"K": "[5 0 R 0 <</Type /MCR /MCID 3>> <</Type /OBJR>> 2147483647]"} |w| {
            let mut c = w.children();
            c.struct_element(Ref::new(5)).marked_content_id(0);
            c.marked_content_ref().marked_content_id(3);
            c.object_ref();
            c.marked_content_id(i32::MAX);
        };
        also "children" {"K": "[]"} |w| { w.children(); };
        subs attributes "A" "<<>>";
        call "attribute_class+" {"C": "[/a / /b#20c]"}
            |w| w.attribute_class().item(Name(b"a")).items([Name(b""), Name(b"b c")]);
        also "attribute_class" {"C": "[]"} |w| { w.attribute_class(); };
        i32 revision "R";
        ltext title "T";
        text lang "Lang";
        ltext alt "Alt";
        ltext expanded "E";
        ltext actual_text "ActualText";
        subs associated_files "AF" "<</Type /Filespec>>";
        refr namespace "NS";
        en phonetic_alphabet "PhoneticAlphabet" {
            PhoneticAlphabet::Ipa => "/ipa", PhoneticAlphabet::XSampa => "/x-sampa",
            PhoneticAlphabet::Pinyin => "/zh-Latn-pinyin",
            PhoneticAlphabet::WadeGiles => "/zh-Latn-wadegile",
            PhoneticAlphabet::Custom(Name(b"my own")) => "/my#20own",
            PhoneticAlphabet::Custom(Name(b"")) => "/",
        };
        text phoneme "Phoneme";
    });
    table!(o; Array "StructChildren" "[]" StructChildren {
        refr struct_element "";
        i32 marked_content_id "";
        sub marked_content_ref "" "<</Type /MCR>>";
        sub object_ref "" "<</Type /OBJR>>";
    });
    table!(o; Dict "MarkedRef" "<</Type /MCR>>" MarkedRef {
        refr page "Pg";
        refr stream "Stm";
        refr stream_owner "StmOwn";
        i32 marked_content_id "MCID";
    });
    table!(o; Dict "ObjectRef" "<</Type /OBJR>>" ObjectRef {
        refr page "Pg";
        refr object "Obj";
    });
    table!(o; Dict "RoleMap" "<<>>" RoleMap {
        do |t| {
            for (r, name) in roles() {
                t.next();
                let key: &'static str = Box::leak(format!("{name}x").into_boxed_str());
                t.push(format!("insert({key}, {r:?})"), vec![(key, n(name))], Box::new(move |w| { w.insert(Name(key.as_bytes()), r); }));
            }
            for key in ["", "a b", "P", "#", "\u{e9}"] {
                t.next();
                t.push(format!("insert({key:?}, Sect)"), vec![(key, n("Sect"))], Box::new(move |w| { w.insert(Name(key.as_bytes()), StructRole::Sect); }));
            }
        };
    });
    table!(o; Dict "ClassMap" "<<>>" ClassMap {
        do |t| {
            for key in ["a", "", "b c", "\u{e9}", "#20"] {
                t.next();
                t.push(format!("single({key:?}).list().continued_list"), vec![(key, x("<</O /List /ContinuedList true>>"))], Box::new(move |w| { w.single(Name(key.as_bytes())).list().continued_list(true); }));
                t.push(format!("single({key:?})"), vec![(key, x("<<>>"))], Box::new(move |w| { w.single(Name(key.as_bytes())); }));
                for k in 0..3usize {
                    let want = X::Arr((0..k).map(|i| x(["<</O /Table /RowSpan 2>>", "<<>>"][i])).collect());
                    t.push(format!("multiple({key:?}) x{k}"), vec![(key, want)], Box::new(move |w| {
                        let mut m = w.multiple(Name(key.as_bytes()));
                        if k > 0 {
                            m.push().table().row_span(2);
                        }
                        if k > 1 {
                            m.push();
                        }
                    }));
                }
            }
        };
    });
    table!(o; Dict "Namespace" "<</Type /Namespace>>" Namespace {
        text ns "NS";
        sub schema "Schema" "<</Type /Filespec>>";
        sub role_map_ns "RoleMapNS" "<<>>";
    });
    value_table!(o; "Namespace (fixed)" {
        "pdf_2_ns", "<</Type /Namespace /NS (http://iso.org/pdf2/ssn)>>"
            => |o| o.start::<Namespace>().pdf_2_ns();
        "pdf_1_7_ns", "<</Type /Namespace /NS (http://iso.org/pdf/ssn)>>"
            => |o| o.start::<Namespace>().pdf_1_7_ns();
        "mathml_3_0_ns", "<</Type /Namespace /NS (http://www.w3.org/1998/Math/MathML)>>"
            => |o| o.start::<Namespace>().mathml_3_0_ns();
    });
    table!(o; Dict "NamespaceRoleMap" "<<>>" NamespaceRoleMap {
        do |t| {
            for key in ["a", "", "b c", "\u{e9}"] {
                t.next();
                for (r, name) in roles() {
                    t.push(format!("to_pdf_1_7({key:?}, {r:?})"), vec![(key, n(name))], Box::new(move |w| { w.to_pdf_1_7(Name(key.as_bytes()), r); }));
                }
                t.next();
                for r in NAMES {
                    for id in REFS {
                        let want = X::Arr(vec![X::Name(r.to_vec()), X::Ref(*id as i64)]);
                        t.push(format!("to_namespace({key:?}, {:?}, {id})", Name(r)), vec![(key, want)], Box::new(move |w| { w.to_namespace(Name(key.as_bytes()), Name(r), Ref::new(*id)); }));
                    }
                }
                t.next();
                for (r, name) in roles2() {
                    t.push(format!("to_pdf_2_0({key:?}, {r:?}, 8)"), vec![(key, X::Arr(vec![n(name), X::Ref(8)]))], Box::new(move |w| { w.to_pdf_2_0(Name(key.as_bytes()), r, Ref::new(8)); }));
                }
                for l in LEVELS {
                    t.push(format!("to_pdf_2_0({key:?}, H{l}, 8)"), vec![(key, X::Arr(vec![n(&format!("H{l}")), X::Ref(8)]))], Box::new(move |w| { w.to_pdf_2_0(Name(key.as_bytes()), h(*l), Ref::new(8)); }));
                }
            }
        };
    });
    table!(o; Dict "MarkInfo" "<<>>" MarkInfo {
        bool marked "Marked";
        bool user_properties "UserProperties";
        bool suspects "Suspects";
    });
    table!(o; Dict "PageLabel" "<</Type /PageLabel>>" PageLabel {
        en style "S" {
            NumberingStyle::Arabic => "/D", NumberingStyle::LowerRoman => "/r",
            NumberingStyle::UpperRoman => "/R", NumberingStyle::LowerAlpha => "/a",
            NumberingStyle::UpperAlpha => "/A",
        };
        ltext prefix "P";
        i32 offset "St";
    });
    table!(o; Dict "DocumentInfo" "<<>>" DocumentInfo {
        ltext title "Title";
        ltext author "Author";
        ltext subject "Subject";
        ltext keywords "Keywords";
        ltext creator "Creator";
        ltext producer "Producer";
        date creation_date "CreationDate";
        date modified_date "ModDate";
        en trapped "Trapped" {
            TrappingStatus::Trapped => "/True", TrappingStatus::NotTrapped => "/False",
            TrappingStatus::Unknown => "/Unknown",
        };
    });
    table!(o; Dict "Pages" "<</Type /Pages>>" Pages {
        refr parent "Parent";
        refs kids "Kids";
        i32 count "Count";
        rect media_box "MediaBox";
        sub resources "Resources" "<<>>";
    });
    table!(o; Dict "Page" "<</Type /Page>>" Page {
        refr parent "Parent";
        date last_modified "LastModified";
        rect media_box "MediaBox";
        rect crop_box "CropBox";
        rect bleed_box "BleedBox";
        rect trim_box "TrimBox";
        rect art_box "ArtBox";
        sub resources "Resources" "<<>>";
        refr contents "Contents";
        refs contents_array "Contents";
        i32 rotate "Rotate";
        sub group "Group" "<</Type /Group>>";
        refr thumbnail "Thumb";
        f32 duration "Dur";
        sub transition "Trans" "<</Type /Trans>>";
        refs annotations "Annots";
        i32 struct_parents "StructParents";
        en tab_order "Tabs" { TabOrder::RowOrder => "/R", TabOrder::ColumnOrder => "/C",
            TabOrder::StructureOrder => "/S" };
        f32 user_unit "UserUnit";
        sub additional_actions "AA" "<<>>";
        refr metadata "Metadata";
        subs associated_files "AF" "<</Type /Filespec>>";
    });
    table!(o; Dict "Outline" "<</Type /Outlines>>" Outline {
        refr first "First";
        refr last "Last";
        do |t| {
            for v in I32S.iter().filter(|v| **v >= 0) {
                t.push(format!("count({v})"), vec![("Count", X::I(*v as i64))], Box::new(move |w| { w.count(*v); }));
            }
        };
    });
    table!(o; Dict "OutlineItem" "<<>>" OutlineItem {
        ltext title "Title";
        refr parent "Parent";
        refr prev "Prev";
        refr next "Next";
        refr first "First";
        refr last "Last";
        i32 count "Count";
        call "dest.fit" {"Dest": "[6 0 R /Fit]"} |w| w.dest().page(Ref::new(6)).fit();
        also "dest.xyz" {"Dest": "[6 0 R /XYZ 1.0 2.5 0.5]"} |w| w.dest().page(Ref::new(6)).xyz(1.0, 2.5, Some(0.5));
        name dest_name "Dest";
        nums color_rgb "C" [r, g, b] (r, g, b);
        flags flags "F" OutlineItemFlags;
    });
    table!(o; Dict "Names" "<<>>" Names {
        do |t| {
            type F = for<'a, 'b> fn(&'a mut Names<'b>) -> NameTree<'a, Ref>;
            for (k, f) in [
                ("Dests", (|w| w.destinations()) as F),
                ("AP", (|w| w.appearances()) as F),
                ("JavaScript", (|w| w.javascript()) as F),
                ("Pages", (|w| w.pages()) as F),
                ("Templates", (|w| w.templates()) as F),
                ("IDS", (|w| w.capture_ids()) as F),
                ("URLS", (|w| w.capture_urls()) as F),
                ("EmbeddedFiles", (|w| w.embedded_files()) as F),
                ("AlternatePresentations", (|w| w.alternate_presentations()) as F),
                ("Renditions", (|w| w.renditions()) as F),
            ] {
                t.next();
                t.push(format!("{k}.names"), vec![(k, x("<</Names [(k) 9 0 R () 1 0 R]>>"))], Box::new(move |w| {
                    f(w).names().insert(Str(b"k"), Ref::new(9)).insert(Str(b""), Ref::new(1));
                }));
                t.push(format!("{k}.kids, limits"), vec![(k, x("<</Limits [(a) (b c)] /Kids [3 0 R]>>"))], Box::new(move |w| {
                    let mut t = f(w);
                    t.kids().item(Ref::new(3));
                    t.limits(Name(b"a"), Name(b"b c"));
                }));
                t.push(format!("{k} empty"), vec![(k, x("<<>>"))], Box::new(move |w| { f(w); }));
            }
        };
    });
    o.push(destinations());
    stream_table!(o; "Metadata" "<</Type /Metadata /Subtype /XML>>" Metadata
        |ch, id, d| ch.metadata(id, d), {
        call "filter" {"Filter": "/FlateDecode"} |w| { w.filter(Filter::FlateDecode); };
        call "pair" {"Zz": "[1]"} |w| { w.insert(Name(b"Zz")).array().item(1); };
    });
    attributes(&mut o);
    o
}

fn destinations() -> Table {
    let mut t: Tab<dyn for<'a> Fn(Obj<'a>) + Send + Sync, dyn for<'a> Fn(Obj<'a>, usize) + Send + Sync> = Tab::new();
    let mut push = |label: String, page: i32, rest: Vec<X>, f: Box<dyn for<'a> Fn(Destination<'a>) + Send + Sync>| {
        let mut a = vec![X::Ref(page as i64)];
        a.extend(rest);
        t.next();
        t.push(format!("page({page}).{label}"), vec![("", X::Arr(a))], Box::new(move |obj: Obj<'_>| {
            f(obj.start::<Destination>().page(Ref::new(page)))
        }));
    };
    for page in REFS {
        push("fit".into(), *page, vec![n("Fit")], Box::new(|d| d.fit()));
        push("fit_bounding_box".into(), *page, vec![n("FitB")], Box::new(|d| d.fit_bounding_box()));
        for v in F32S {
            push(format!("fit_horizontal({v})"), *page, vec![n("FitH"), X::F(*v)], Box::new(move |d| d.fit_horizontal(*v)));
            push(format!("fit_vertical({v})"), *page, vec![n("FitV"), X::F(*v)], Box::new(move |d| d.fit_vertical(*v)));
            push(format!("fit_bounding_box_horizontal({v})"), *page, vec![n("FitBH"), X::F(*v)], Box::new(move |d| d.fit_bounding_box_horizontal(*v)));
            push(format!("fit_bounding_box_vertical({v})"), *page, vec![n("FitBV"), X::F(*v)], Box::new(move |d| d.fit_bounding_box_vertical(*v)));
            for u in F32S {
                push(format!("xyz({v}, {u}, None)"), *page, vec![n("XYZ"), X::F(*v), X::F(*u), X::F(0.0)], Box::new(move |d| d.xyz(*v, *u, None)));
                for z in F32S {
                    push(format!("xyz({v}, {u}, {z})"), *page, vec![n("XYZ"), X::F(*v), X::F(*u), X::F(*z)], Box::new(move |d| d.xyz(*v, *u, Some(*z))));
                }
            }
        }
        for r in [[1.0, 2.0, 3.0, 4.0], [4.5, -3.0, 2.0, 0.0], [0.0; 4]] {
            push(format!("fit_rect({r:?})"), *page, vec![n("FitR"), X::F(r[0]), X::F(r[1]), X::F(r[2]), X::F(r[3])], Box::new(move |d| d.fit_rect(Rect::new(r[0], r[1], r[2], r[3]))));
        }
    }
    let num = |k: &'static str, m: fn(Destination<'_>, f32)| -> (&'static str, Box<dyn Fn(usize) -> X + Send + Sync>, Box<dyn for<'a> Fn(Obj<'a>, usize) + Send + Sync>) {
        (
            k,
            Box::new(move |i| X::Arr(vec![X::Ref(7), n(k), X::F(f32s()[i])])),
            Box::new(move |o, i| m(o.start::<Destination>().page(Ref::new(7)), f32s()[i])),
        )
    };
    for (k, want, call) in [
        num("FitH", |d, v| d.fit_horizontal(v)),
        num("FitV", |d, v| d.fit_vertical(v)),
        num("FitBH", |d, v| d.fit_bounding_box_horizontal(v)),
        num("FitBV", |d, v| d.fit_bounding_box_vertical(v)),
    ] {
        t.wide(k, "", f32s().len(), want, call);
    }
    let pos = |i: usize| -> [f32; 3] {
        let n = f32s().len();
        std::array::from_fn(|p| if p == i / n { f32s()[i % n] } else { 0.25 })
    };
    t.wide(
        "xyz",
        "",
        3 * f32s().len(),
        move |i| X::Arr([X::Ref(7), n("XYZ")].into_iter().chain(pos(i).map(X::F)).collect()),
        Box::new(move |o, i| {
            let [a, b, z] = pos(i);
            o.start::<Destination>().page(Ref::new(7)).xyz(a, b, Some(z))
        }),
    );
    t.wide(
        "fit_rect",
        "",
        rects(),
        |i| X::Arr([X::Ref(7), n("FitR")].into_iter().chain(rect(i).map(X::F)).collect()),
        Box::new(|o, i| {
            let [a, b, c, d] = rect(i);
            o.start::<Destination>().page(Ref::new(7)).fit_rect(Rect::new(a, b, c, d))
        }),
    );
    t.wide(
        "page",
        "",
        refs().len(),
        |i| X::Arr(vec![X::Ref(refs()[i] as i64), n("Fit")]),
        Box::new(|o, i| o.start::<Destination>().page(Ref::new(refs()[i])).fit()),
    );
    let Tab { vars, calls, wide, wcalls, .. } = t;
    Table {
        name: "Destination",
        kind: Kind::Value,
        base: X::Null,
        vars,
        stream: false,
        wide,
        run_wide: Box::new(move |ch, place, m, i| with_obj(ch, place, |obj| wcalls[m](obj, i))),
        run: Box::new(move |ch, place, seq| with_obj(ch, place, |obj| calls[seq[0]](obj))),
    }
}

fn owners() -> Vec<(AttributeOwner, bool, &'static str)> {
    use AttributeOwner as O;
    let mut v = vec![];
    for b in [false, true] {
        v.extend([
            (O::Layout, b, "Layout"),
            (O::List, b, "List"),
            (O::PrintField, b, "PrintField"),
            (O::Table, b, "Table"),
            (O::Artifact, b, "Artifact"),
            (O::Xml, b, "XML-1.00"),
            (O::Html3_2, b, "HTML-3.20"),
            (O::Html4, b, "HTML-4.01"),
            (O::Html5, b, "HTML-5.00"),
            (O::Oeb, b, "OEB-1.00"),
            (O::Rtf1_05, b, "RTF-1.05"),
            (O::Css3, b, "CSS-3"),
            (O::Rdfa1_1, b, "RDFa-1.10"),
            (O::Aria1_1, b, "ARIA-1.1"),
            (O::FENote, b, "FENote"),
            (O::NSO, b, "NSO"),
            (O::User, b, "UserProperties"),
        ]);
    }
    v.extend([
        (O::Css1, false, "CSS-1.00"),
        (O::Css2, false, "CSS-2.00"),
        (O::Css1, true, "CSS-1"),
        (O::Css2, true, "CSS-2"),
    ]);
    v
}

fn attributes(o: &mut Vec<Table>) {
    table!(o; Dict "Attributes" "<<>>" Attributes {
        do |t| {
            for (a, b, name) in owners() {
                t.push(format!("owner({name}, {b})"), vec![("O", n(name))], Box::new(move |w| { w.owner(a, b); }));
            }
        };
        do |t| {
            for k in 0..4usize {
                let want = X::Arr((0..k).map(|i| x(["<</N (a)>>", "<<>>", "<</H true>>"][i])).collect());
                t.push(format!("user x{k}"), vec![("O", n("UserProperties")), ("P", want)], Box::new(move |w| {
                    let mut u = w.user();
                    if k > 0 {
                        u.push().name(TextStr("a"));
                    }
                    if k > 1 {
                        u.push();
                    }
                    if k > 2 {
                        u.push().hidden(true);
                    }
                }));
            }
        };
    });
    value_table!(o; "Attributes (owned)" {
        "layout", "<</O /Layout>>" => |o| { o.start::<Attributes>().layout(); };
        "layout+", "<</O /Layout /Width 2.0>>" => |o| { o.start::<Attributes>().layout().width(2.0); };
        "list", "<</O /List>>" => |o| { o.start::<Attributes>().list(); };
        "list+", "<</O /List /ContinuedFrom (a)>>" => |o| { o.start::<Attributes>().list().continued_from(Str(b"a")); };
        "field", "<</O /PrintField>>" => |o| { o.start::<Attributes>().field(); };
        "field+", "<</O /PrintField /Desc (a)>>" => |o| { o.start::<Attributes>().field().description(TextStr("a")); };
        "table", "<</O /Table>>" => |o| { o.start::<Attributes>().table(); };
        "table+", "<</O /Table /ColSpan 3>>" => |o| { o.start::<Attributes>().table().col_span(3); };
        "artifact", "<</O /Artifact>>" => |o| { o.start::<Attributes>().artifact(); };
        "artifact+", "<</O /Artifact /Type /Page>>" => |o| { o.start::<Attributes>().artifact().artifact_type(ArtifactType::Page); };
        "note", "<</O /FENote>>" => |o| { o.start::<Attributes>().note(); };
        "note+", "<</O /FENote /NoteType /Endnote>>" => |o| { o.start::<Attributes>().note().note_type(NoteType::Endnote); };
        "namespace", "<</O /NSO /NS 5 0 R>>" => |o| { o.start::<Attributes>().namespace(Ref::new(5)); };
        "namespace+", "<</O /NSO /NS 1 0 R /A []>>" => |o| { o.start::<Attributes>().namespace(Ref::new(1)).insert(Name(b"A")).array(); };
    });
    table!(o; Dict "UserProperty" "<<>>" UserProperty {
        ltext name "N";
        call "value(1)" {"V": "1"} |w| w.value().primitive(1);
        also "value([])" {"V": "[]"} |w| w.value().array();
        also "value(<<>>)" {"V": "<</A /B>>"} |w| { w.value().dict().pair(Name(b"A"), Name(b"B")); };
        also "value(str)" {"V": "(\\))"} |w| w.value().primitive(Str(b")"));
        also "value(ref)" {"V": "4 0 R"} |w| w.value().primitive(Ref::new(4));
        ltext format "F";
        bool hidden "H";
    });
    table!(o; Dict "LayoutAttributes" "<</O /Layout>>" LayoutAttributes {
        en placement "Placement" { Placement::Block => "/Block", Placement::Inline => "/Inline",
            Placement::Before => "/Before", Placement::Start => "/Start", Placement::End => "/End" };
        en writing_mode "WritingMode" { WritingMode::LtrTtb => "/LrTb",
            WritingMode::RtlTtb => "/RlTb", WritingMode::TtbRtl => "/TbRl" };
        arr 3 background_color "BackgroundColor";
        do |t| {
            for s in sides(COLORS) {
                let want = if s.iter().all(|c| *c == s[0]) { rgb(s[0]) } else { X::Arr(s.map(rgb).to_vec()) };
                t.push(format!("border_color({s:?})"), vec![("BorderColor", want)], Box::new(move |w| {
                    w.border_color(Sides::new(s[0], s[1], s[2], s[3]));
                }));
            }
        };
        wide "border_color" "BorderColor" num_sets(12), |i| {
            let s = colours(i);
            if s.iter().all(|c| *c == s[0]) { rgb(s[0]) } else { X::Arr(s.map(rgb).to_vec()) }
        }, |w| w.border_color(Sides::from_array(colours(i)));
        do |t| {
            let all = styles();
            for a in 0..all.len() {
                let (s, name) = all[a];
                t.push(format!("border_style(all {name})"), vec![("BorderStyle", n(name))], Box::new(move |w| { w.border_style(Sides::uniform(s)); }));
                let p: Vec<_> = (0..4).map(|i| all[(a + i * 3) % all.len()]).collect();
                t.push(format!("border_style({p:?})"), vec![("BorderStyle", X::Arr(p.iter().map(|s| n(s.1)).collect()))], Box::new(move |w| { w.border_style(Sides::new(p[0].0, p[1].0, p[2].0, p[3].0)); }));
            }
        };
        do |t| {
            for s in sides(WIDTHS) {
                t.push(format!("border_thickness({s:?})"), vec![("BorderThickness", sides_x(s, X::F))], Box::new(move |w| { w.border_thickness(Sides::from_array(s)); }));
            }
        };
        wide "border_thickness" "BorderThickness" num_sets(4), |i| sides_x(num_set::<4>(i), X::F), |w| w.border_thickness(Sides::from_array(num_set::<4>(i)));
        do |t| {
            for s in sides(WIDTHS) {
                t.push(format!("padding({s:?})"), vec![("Padding", sides_x(s, X::F))], Box::new(move |w| { w.padding(Sides::new(s[0], s[1], s[2], s[3])); }));
            }
        };
        wide "padding" "Padding" num_sets(4), |i| sides_x(num_set::<4>(i), X::F), |w| w.padding(Sides::from_array(num_set::<4>(i)));
        arr 3 color "Color";
        f32 space_before "SpaceBefore";
        f32 space_after "SpaceAfter";
        f32 start_indent "StartIndent";
        f32 end_indent "EndIndent";
        f32 text_indent "TextIndent";
        en text_align "TextAlign" { TextAlign::Start => "/Start", TextAlign::Center => "/Center",
            TextAlign::End => "/End", TextAlign::Justify => "/Justify" };
        f32 width "Width";
        f32 height "Height";
        rect bbox "BBox";
        en block_align "BlockAlign" { BlockAlign::Before => "/Before", BlockAlign::Middle => "/Middle",
            BlockAlign::After => "/After", BlockAlign::Justify => "/Justify" };
        en inline_align "InlineAlign" { InlineAlign::Start => "/Start",
            InlineAlign::Center => "/Center", InlineAlign::End => "/End" };
        do |t| {
            let all = styles();
            for a in 0..all.len() {
                let (s, name) = all[a];
                t.push(format!("table_border_style(all {name})"), vec![("TBorderStyle", n(name))], Box::new(move |w| { w.table_border_style(Sides::uniform(s)); }));
                let p: Vec<_> = (0..4).map(|i| all[(a + i * 7) % all.len()]).collect();
                t.push(format!("table_border_style({p:?})"), vec![("TBorderStyle", X::Arr(p.iter().map(|s| n(s.1)).collect()))], Box::new(move |w| { w.table_border_style(Sides::new(p[0].0, p[1].0, p[2].0, p[3].0)); }));
            }
        };
        do |t| {
            for s in sides(WIDTHS) {
                t.push(format!("table_padding({s:?})"), vec![("TPadding", sides_x(s, X::F))], Box::new(move |w| { w.table_padding(Sides::from_array(s)); }));
            }
        };
        wide "table_padding" "TPadding" num_sets(4), |i| sides_x(num_set::<4>(i), X::F), |w| w.table_padding(Sides::from_array(num_set::<4>(i)));
        i32 column_count "ColumnCount";
        do |t| {
            type F = for<'a, 'b> fn(&'a mut LayoutAttributes<'b>) -> TrackSizes<'a>;
            for (k, f) in [
                ("ColumnWidths", (|w| w.column_widths()) as F),
                ("ColumnGap", (|w| w.column_gap()) as F),
            ] {
                t.next();
                for v in F32S {
                    t.push(format!("{k}.uniform({v})"), vec![(k, X::F(*v))], Box::new(move |w| f(w).uniform(*v)));
                }
                for l in lists(F32S) {
                    t.push(format!("{k}.individual({l:?})"), vec![(k, f32s_x(&l))], Box::new(move |w| { f(w).individual().items(crate::tab::user(l.iter().copied())); }));
                }
            }
        };
        do |t| {
            t.push("line_height(Normal)".into(), vec![("LineHeight", n("Normal"))], Box::new(|w| { w.line_height(LineHeight::Normal); }));
            t.push("line_height(Auto)".into(), vec![("LineHeight", n("Auto"))], Box::new(|w| { w.line_height(LineHeight::Auto); }));
            for v in F32S {
                t.push(format!("line_height({v})"), vec![("LineHeight", X::F(*v))], Box::new(move |w| { w.line_height(LineHeight::Custom(*v)); }));
            }
        };
        f32 baseline_shift "BaselineShift";
        en text_position "TextPosition" { LayoutTextPosition::Normal => "/Normal",
            LayoutTextPosition::Superscript => "/Sup", LayoutTextPosition::Subscript => "/Sub" };
        en text_decoration_type "TextDecorationType" { TextDecorationType::None => "/None",
            TextDecorationType::Underline => "/Underline", TextDecorationType::Overline => "/Overline",
            TextDecorationType::LineThrough => "/LineThrough" };
        arr 3 text_decoration_color "TextDecorationColor";
        f32 text_decoration_thickness "TextDecorationThickness";
        do |t| {
            t.push("glyph_orientation_vertical(Auto)".into(), vec![("GlyphOrientationVertical", n("Auto"))], Box::new(|w| { w.glyph_orientation_vertical(GlyphOrientationVertical::Auto); }));
            for v in [90, 0, -90, 180, 360, -180, 270] {
                t.push(format!("glyph_orientation_vertical({v})"), vec![("GlyphOrientationVertical", X::I(v as i64))], Box::new(move |w| { w.glyph_orientation_vertical(GlyphOrientationVertical::Angle(v)); }));
            }
        };
        en ruby_align "RubyAlign" { RubyAlign::Start => "/Start", RubyAlign::Center => "/Center",
            RubyAlign::End => "/End", RubyAlign::Justify => "/Justify",
            RubyAlign::Distribute => "/Distribute" };
        en ruby_position "RubyPosition" { RubyPosition::Before => "/Before",
            RubyPosition::After => "/After", RubyPosition::Warichu => "/Warichu",
            RubyPosition::Inline => "/Inline" };
    });
    value_table!(o; "TrackSizes" {
        "uniform", "2.5" => |o| o.start::<TrackSizes>().uniform(2.5);
        "individual", "[1.0 2.5]" => |o| { o.start::<TrackSizes>().individual().items([1.0, 2.5]); };
        "individual 0", "[]" => |o| { o.start::<TrackSizes>().individual(); };
    });
    table!(o; Dict "ListAttributes" "<</O /List>>" ListAttributes {
        en list_numbering "ListNumbering" {
            ListNumbering::None => "/None", ListNumbering::Unordered => "/Unordered",
            ListNumbering::Ordered => "/Ordered", ListNumbering::Description => "/Description",
            ListNumbering::Disc => "/Disc", ListNumbering::Circle => "/Circle",
            ListNumbering::Square => "/Square", ListNumbering::Decimal => "/Decimal",
            ListNumbering::LowerRoman => "/LowerRoman", ListNumbering::UpperRoman => "/UpperRoman",
            ListNumbering::LowerAlpha => "/LowerAlpha", ListNumbering::UpperAlpha => "/UpperAlpha",
        };
        bool continued_list "ContinuedList";
        str continued_from "ContinuedFrom";
    });
    table!(o; Dict "FieldAttributes" "<</O /PrintField>>" FieldAttributes {
        en role "Role" { FieldRole::Button => "/pb", FieldRole::CheckBox => "/cb",
            FieldRole::RadioButton => "/rb", FieldRole::TextField => "/tv", FieldRole::ListBox => "/lb" };
        call "checked(Unchecked, false)" {"checked": "/off"} |w| { w.checked(FieldState::Unchecked, false); };
        also "checked(Checked, false)" {"checked": "/on"} |w| { w.checked(FieldState::Checked, false); };
        also "checked(Neutral, false)" {"checked": "/neutral"} |w| { w.checked(FieldState::Neutral, false); };
        call "checked(Unchecked, true)" {"Checked": "/off"} |w| { w.checked(FieldState::Unchecked, true); };
        also "checked(Checked, true)" {"Checked": "/on"} |w| { w.checked(FieldState::Checked, true); };
        also "checked(Neutral, true)" {"Checked": "/neutral"} |w| { w.checked(FieldState::Neutral, true); };
        ltext description "Desc";
    });
    table!(o; Dict "TableAttributes" "<</O /Table>>" TableAttributes {
        i32 row_span "RowSpan";
        i32 col_span "ColSpan";
        do |t| {
            for l in lists(STRS) {
                t.push(format!("headers {l:?}"), vec![("Headers", X::Arr(l.iter().map(|s| X::Str(s.to_vec())).collect()))], Box::new(move |w| { w.headers().items(crate::tab::user(l.iter().map(|s| Str(s)))); }));
            }
        };
        en scope "Scope" { TableHeaderScope::Row => "/Row", TableHeaderScope::Column => "/Column",
            TableHeaderScope::Both => "/Both" };
        ltext summary "Summary";
        ltext short "Short";
    });
    table!(o; Dict "ArtifactAttributes" "<</O /Artifact>>" ArtifactAttributes {
        en artifact_type "Type" { ArtifactType::Pagination => "/Pagination",
            ArtifactType::Layout => "/Layout", ArtifactType::Page => "/Page",
            ArtifactType::Background => "/Background", ArtifactType::Inline => "/Inline" };
        rect bbox "BBox";
        en subtype "Subtype" { ArtifactSubtype::Header => "/Header",
            ArtifactSubtype::Footer => "/Footer", ArtifactSubtype::Watermark => "/Watermark",
            ArtifactSubtype::PageNumber => "/PageNum", ArtifactSubtype::Bates => "/Bates",
            ArtifactSubtype::LineNumber => "/LineNum", ArtifactSubtype::Redaction => "/Redaction",
            ArtifactSubtype::Custom(Name(b"my own")) => "/my#20own",
            ArtifactSubtype::Custom(Name(b"")) => "/" };
    });
    table!(o; Dict "FENoteAttributes" "<</O /FENote>>" FENoteAttributes {
        en note_type "NoteType" { NoteType::Footnote => "/Footnote",
            NoteType::Endnote => "/Endnote", NoteType::None => "/None" };
    });
    table!(o; Dict "PropertyList" "<<>>" PropertyList {
        i32 identify "MCID";
        ltext actual_text "ActualText";
    });
    value_table!(o; "PropertyList (artifact)" {
        "artifact", "<<>>" => |o| { o.start::<PropertyList>().artifact(); };
        "artifact+", "<</MCID 3 /Type /Layout>>" => |o| {
            let mut p = o.start::<PropertyList>();
            p.identify(3);
            p.artifact().kind(ArtifactType::Layout);
        };
    });
    table!(o; Dict "Artifact" "<<>>" Artifact {
        en kind "Type" { ArtifactType::Pagination => "/Pagination",
            ArtifactType::Layout => "/Layout", ArtifactType::Page => "/Page",
            ArtifactType::Background => "/Background", ArtifactType::Inline => "/Inline" };
        en subtype "Subtype" { ArtifactSubtype::Header => "/Header",
            ArtifactSubtype::Footer => "/Footer", ArtifactSubtype::Watermark => "/Watermark",
            ArtifactSubtype::PageNumber => "/PageNum", ArtifactSubtype::Bates => "/Bates",
            ArtifactSubtype::LineNumber => "/LineNum", ArtifactSubtype::Redaction => "/Redaction",
            ArtifactSubtype::Custom(Name(b"my own")) => "/my#20own",
            ArtifactSubtype::Custom(Name(b"")) => "/" };
        rect bounding_box "BBox";
        do |t| {
            use ArtifactAttachment::*;
            let all = [("Left", 0), ("Top", 1), ("Right", 2), ("Bottom", 3)];
            for l in lists(&all) {
                t.push(format!("attached {l:?}"), vec![("Attached", X::Arr(l.iter().map(|s| n(s.0)).collect()))], Box::new(move |w| {
                    w.attached(crate::tab::user(l.iter().map(|s| match s.1 { 0 => Left, 1 => Top, 2 => Right, _ => Bottom })));
                }));
            }
        };
    });
}

fn styles() -> Vec<(LayoutBorderStyle, &'static str)> {
    use LayoutBorderStyle::*;
    vec![
        (None, "None"),
        (Hidden, "Hidden"),
        (Solid, "Solid"),
        (Dashed, "Dashed"),
        (Dotted, "Dotted"),
        (Double, "Double"),
        (Groove, "Groove"),
        (Ridge, "Ridge"),
        (Inset, "Inset"),
        (Outset, "Outset"),
    ]
}
