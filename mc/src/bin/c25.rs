//! C25: trees, labels and other ordered collections keep every entry in order.
use mc::gen::{layout, settings};
use mc::model::{dict, matches, name, x};
use mc::tab::{hinted, with_obj, wrap, Place, PLACES};
use mc::tables::collections::{collections, Coll};
use mc::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

fn main() {
    guard(explore)
}

fn one(c: &Ctx, t: &Coll, s: &[usize], pre: bool, post: bool, place: Place, pretty: bool) {
    let show = || {
        let v: Vec<_> = s.iter().take(12).map(|i| t.steps[*i].clone()).collect();
        let n = s.len();
        format!("{} pre={pre} post={post} {place:?} {}: {n} steps {}", t.name, layout(pretty), v.join("; "))
    };
    let hint = s.len() + s.iter().sum::<usize>() + pre as usize + 2 * post as usize;
    let r = catch(|| {
        let mut ch = Chunk::with_settings(settings(pretty));
        ch.indirect(Ref::new(1)).primitive(1);
        hinted(hint, || with_obj(&mut ch, place, |o| (t.run)(o, pre, post, s)));
        ch.indirect(Ref::new(3)).primitive(Name(b""));
        ch
    });
    let ch = match r {
        Ok(ch) => ch,
        Err(p) => return c.fail(&show(), || format!("{}\npanicked: {p}", show())),
    };
    let want = wrap(place, t.want(pre, post, s));
    let ok = match pdf::parse_chunk(ch.as_bytes()) {
        Ok(o) => {
            o.len() == 3
                && o[0].val == pdf::V::Int(1)
                && (o[1].num, o[1].gen) == (2, 0)
                && matches(&want, &o[1].val)
                && o[2].val == pdf::V::Name(vec![])
        }
        Err(_) => false,
    };
    c.check(ok, &show(), || {
        let w = want.show();
        let w = &w[..w.char_indices().nth(1000).map_or(w.len(), |p| p.0)];
        format!("{}\nexpected {w}\noutput: {}", show(), show_out(ch.as_bytes()))
    });
    c.sample(|| format!("{} -> {}", show(), show_out(ch.as_bytes())));
    c.traces_n(1);
    c.steps(s.len() as u64 + 2);
}

fn explore() {
    let c = Ctx::new("C25");
    let colls = collections();
    c.note("collections", colls.len());
    let budget: usize = c.bound(60_000, 700_000);
    let long = c.bound(300, 1100);
    let mut depths = vec![];
    for t in &colls {
        c.phase(&t.name);
        let k = t.steps.len();
        let mut n = 0;
        // All sequences, as deep as the budget for one length allows.
        while k.pow(n as u32) <= budget && n <= 12 {
            let all = k.pow(n as u32);
            par(all, |i| {
                let s = seq(i, k, n);
                if all <= budget / 24 {
                    for place in PLACES {
                        for m in 0..8 {
                            one(c, t, &s, m & 1 > 0, m & 2 > 0, place, m & 4 > 0);
                        }
                    }
                } else {
                    let m = i % 8;
                    one(c, t, &s, m & 1 > 0, m & 2 > 0, PLACES[i % 3], m & 4 > 0);
                }
                c.states_by_construction(1);
            });
            n += 1;
        }
        depths.push(format!("{} ({k} steps): {}", t.name, n - 1));
        // Every length: one step over and over, and all steps in turn.
        par(long * (k + 1), |i| {
            let (n, j) = (i / (k + 1), i % (k + 1));
            let s: Vec<usize> = (0..n).map(|p| if j < k { j } else { p % k }).collect();
            one(c, t, &s, n % 2 == 0, n % 3 == 0, PLACES[n % 3], n % 2 == 1);
            c.states_by_construction(1);
        });
    }
    c.phase("sizes");
    let ns: Vec<usize> = sizes(c.bound(70_000, 300_000)).into_iter().rev().collect();
    par(ns.len() * colls.len(), |i| {
        let (n, t) = (ns[i / colls.len()], &colls[i % colls.len()]);
        let k = t.steps.len();
        for j in 0..=k {
            if n > 600 && j < k && j != (i / colls.len()) % k {
                continue;
            }
            let s: Vec<usize> = (0..n).map(|p| if j < k { j } else { p % k }).collect();
            one(c, t, &s, i % 2 == 0, i % 3 == 0, PLACES[i % 3], i % 5 < 3);
            c.states_by_construction(1);
        }
    });
    c.note("sizes of collections", format!("{} sizes up to {}", ns.len(), ns[0]));
    c.note("sequence length reached exhaustively", depths.join(", "));
    c.note("long sequences", format!("every length below {long}"));
    nested(c);
    all_names(c);
    runs(c);
    keys(c);
    c.finish()
}

/// Long runs given in one call.
fn runs(c: &Ctx) {
    c.phase("runs");
    let mut ns: Vec<usize> = sizes(c.bound(70_000, 300_000)).into_iter().rev().collect();
    ns.extend(0..c.bound(300, 1500));
    let starts = [0usize, 1, 9, 10, 31, 32, 64, 65, 99, 100, 127, 128, 200, 254, 255];
    par(ns.len() * 2, |i| {
        let (n, pretty) = (ns[i / 2], i % 2 == 0);
        let name = |j: usize| if j % 5 == 0 { ".notdef".into() } else { format!("g{j}") };
        let names: Vec<String> = (0..n).map(name).collect();
        let widths: Vec<f32> = (0..n).map(|j| (j % 700) as f32 * if j % 3 == 0 { 1.0 } else { 0.25 }).collect();
        for k in 0..starts.len() {
            if n > 300 && k != i % starts.len() {
                continue;
            }
            let start = starts[k];
            let wide = if k % 2 == 0 { start } else { start * 257 };
            let what = || format!("a run of {n} from {start} or {wide} {}", layout(pretty));
            let r = catch(|| {
                let mut ch = Chunk::with_settings(settings(pretty));
                let it = names.iter().map(|n| Name(n.as_bytes()));
                ch.indirect(Ref::new(1)).start::<Encoding>().differences().consecutive(3, [Name(b"x")]).consecutive(start as u8, it).consecutive(7, []);
                let mut f = ch.cid_font(Ref::new(2));
                f.widths().same(1, 2, 3.0).consecutive(wide as u16, widths.iter().copied()).same(wide as u16, 65535, 0.5);
                drop(f);
                let mut f = ch.type1_font(Ref::new(3));
                f.widths(widths.iter().copied());
                drop(f);
                let mut f = ch.type3_font(Ref::new(4));
                f.widths(widths.iter().copied());
                drop(f);
                pdf::parse_chunk(ch.as_bytes())
            });
            let int = |i: usize| X::I(i as i64);
            let num: Vec<X> = widths.iter().map(|w| X::F(*w)).collect();
            let mut diff = vec![int(3), X::Name(b"x".to_vec()), int(start)];
            diff.extend(names.iter().map(|n| X::Name(n.clone().into_bytes())));
            diff.push(int(7));
            let wid = vec![int(1), int(2), X::F(3.0), int(wide), X::Arr(num.clone()), int(wide), int(65535), X::F(0.5)];
            let want = [("Differences", X::Arr(diff)), ("W", X::Arr(wid)), ("Widths", X::Arr(num.clone())), ("Widths", X::Arr(num))];
            let ok = match r {
                Ok(Ok(o)) => o.len() == 4 && o.iter().zip(&want).all(|(o, (k, w))| o.val.get(k).is_some_and(|v| matches(w, v))),
                _ => false,
            };
            c.check(ok, &what(), what);
            c.states_by_construction(1);
            c.steps(8);
            c.traces_n(1);
        }
    });
    c.note("runs", format!("{} lengths up to {}", ns.len(), ns[0]));
}

/// Keys of every length.
fn keys(c: &Ctx) {
    c.phase("keys");
    let mut ns: Vec<usize> = sizes(c.bound(70_000, 300_000)).into_iter().rev().collect();
    ns.extend(0..c.bound(300, 1500));
    par(ns.len() * 4, |i| {
        let (n, j) = (ns[i / 4], i % 4);
        let pretty = (i + i / 4) % 2 == 0;
        let key = [b'a', b' ', 0xff, b'('][j];
        let (a, b) = (vec![key; n], [&vec![key; n][..], b"z"].concat());
        let what = || format!("keys of {n} times {key:#x} {}", layout(pretty));
        let r = catch(|| {
            let mut ch = Chunk::with_settings(settings(pretty));
            let mut at = Ref::new(1);
            let (one, two) = (Ref::new(1), Ref::new(2));
            let (x, y) = (Name(&a), Name(&b));
            let mut t = ch.name_tree::<Ref>(at.bump());
            t.limits(x, y);
            t.names().insert(Str(&a), one).insert(Str(&b), two);
            drop(t);
            ch.indirect(at.bump()).start::<RoleMap>().insert(x, StructRole::P).insert(y, StructRole::H1);
            let mut m = ch.indirect(at.bump()).start::<ClassMap>();
            m.single(x).owner(AttributeOwner::Layout, false);
            m.multiple(y).push().owner(AttributeOwner::List, false);
            drop(m);
            ch.indirect(at.bump()).start::<NamespaceRoleMap>().to_pdf_1_7(x, StructRole::P).to_namespace(y, y, two);
            let mut d = ch.destinations(at.bump());
            d.insert(x).page(one).fit();
            d.insert(y).page(two).fit_bounding_box();
            drop(d);
            let mut r = ch.indirect(at.bump()).start::<Resources>();
            r.fonts().pair(x, one).pair(y, two);
            r.x_objects().pair(x, one).pair(y, two);
            r.properties().insert(y).identify(3);
            drop(r);
            let mut f = ch.indirect(at.bump()).start::<FontDescriptorOverride>();
            f.custom_class(x).descent(2.0);
            f.custom_class_ref(y, two);
            drop(f);
            pdf::parse_chunk(ch.as_bytes())
        });
        let (sa, sb) = (X::Str(a.clone()), X::Str(b.clone()));
        let pair = |u: X, v: X| X::Dict(vec![(a.clone(), u), (b.clone(), v)]);
        let last = |v: X| X::Dict(vec![(b.clone(), v)]);
        let refs = || pair(X::Ref(1), X::Ref(2));
        let roles = || pair(name("P"), name("H1"));
        let want = [
            dict([
                ("Limits", X::Arr(vec![sa.clone(), sb.clone()])),
                ("Names", X::Arr(vec![sa.clone(), X::Ref(1), sb.clone(), X::Ref(2)])),
            ]),
            roles(),
            pair(x("<</O/Layout>>"), x("[<</O/List>>]")),
            X::Dict(vec![
                (a.clone(), name("P")),
                (b.clone(), X::Arr(vec![X::Name(b.clone()), X::Ref(2)])),
            ]),
            pair(x("[1 0 R/Fit]"), x("[2 0 R/FitB]")),
            dict([("Font", refs()), ("XObject", refs()), ("Properties", last(x("<</MCID 3>>")))]),
            pair(x("<</Type/FontDescriptor/Descent 2.0>>"), X::Ref(2)),
        ];
        let ok = match r {
            Ok(Ok(o)) => o.len() == want.len() && o.iter().zip(&want).all(|(o, w)| matches(w, &o.val)),
            _ => false,
        };
        c.check(ok, &what(), what);
        c.states_by_construction(1);
        c.steps(14);
        c.traces_n(1);
    });
    c.note("keys", format!("{} lengths up to {}", ns.len(), ns[0]));
}

/// Trees of trees written level by level: a tree over `n` keys with any fan-out
/// reads back as the sorted keys in order.
fn nested(c: &Ctx) {
    c.phase("nested trees");
    let max = c.bound(40, 90);
    par(max * 6 * 2, |i| {
        let (n, fan, pretty) = (i / 12, i / 2 % 6 + 1, i % 2 == 0);
        let what = || format!("{n} keys in a tree with fan-out {fan} {}", layout(pretty));
        // Leaves, then inner nodes with kids and limits.
        let mut ch = Chunk::with_settings(settings(pretty));
        let keys: Vec<Vec<u8>> = (0..n).map(|k| vec![((k / 7) as u8).wrapping_mul(37), b'(', (k % 7) as u8 * 40]).collect();
        let mut next = Ref::new(10);
        let mut level: Vec<(Ref, usize, usize)> = vec![];
        for (j, leaf) in keys.chunks(fan).enumerate() {
            let id = next.bump();
            let (a, b) = (j * fan, j * fan + leaf.len() - 1);
            {
                let mut t = ch.name_tree::<i32>(id);
                {
                    let mut e = t.names();
                    for (o, k) in leaf.iter().enumerate() {
                        e.insert(Str(k), (a + o) as i32);
                    }
                }
                t.limits(Name(&keys[a]), Name(&keys[b]));
            }
            let id2 = Ref::new(id.get() + 1000);
            {
                let mut t = ch.number_tree::<TextStr>(id2);
                t.limits(a as i32 - 5, b as i32 - 5);
                let mut e = t.nums();
                for o in 0..leaf.len() {
                    e.insert((a + o) as i32 - 5, TextStr("v"));
                }
            }
            level.push((id, a, b));
        }
        while level.len() > 1 && fan > 1 {
            let mut up = vec![];
            for g in level.chunks(fan) {
                let id = next.bump();
                let (a, b) = (g[0].1, g[g.len() - 1].2);
                let mut t = ch.name_tree::<i32>(id);
                t.limits(Name(&keys[a]), Name(&keys[b])).kids().items(g.iter().map(|g| g.0));
                t.finish();
                let mut t = ch.number_tree::<TextStr>(Ref::new(id.get() + 1000));
                t.kids().items(g.iter().map(|g| Ref::new(g.0.get() + 1000)));
                t.limits(a as i32 - 5, b as i32 - 5);
                t.finish();
                up.push((id, a, b));
            }
            level = up;
        }
        let objs = match pdf::parse_chunk(ch.as_bytes()) {
            Ok(o) => o,
            Err(e) => return c.fail(&what(), || format!("{}: {e}", what())),
        };
        // Read both trees back from their roots.
        let get = |n: i64| objs.iter().find(|o| o.num == n).map(|o| &o.val);
        fn walk<'a>(
            get: &dyn Fn(i64) -> Option<&'a pdf::V>,
            n: i64,
            leaf: &str,
            out: &mut Vec<(pdf::V, pdf::V)>,
        ) -> Option<()> {
            let v = get(n)?;
            let from = out.len();
            if let Some(pdf::V::Arr(k)) = v.get("Kids") {
                for k in k {
                    let pdf::V::Ref(n, 0) = k else { return None };
                    walk(get, *n, leaf, out)?;
                }
            }
            if let Some(pdf::V::Arr(a)) = v.get(leaf) {
                if a.len() % 2 == 1 {
                    return None;
                }
                for p in a.chunks(2) {
                    out.push((p[0].clone(), p[1].clone()));
                }
            }
            let lim = pdf::V::Arr(vec![out.get(from)?.0.clone(), out.last()?.0.clone()]);
            (v.get("Limits") == Some(&lim)).then_some(())
        }
        let (mut names, mut nums) = (vec![], vec![]);
        let mut ok = true;
        for l in &level {
            ok &= walk(&get, l.0.get() as i64, "Names", &mut names).is_some();
            ok &= walk(&get, l.0.get() as i64 + 1000, "Nums", &mut nums).is_some();
        }
        ok &= names.len() == n && nums.len() == n;
        ok = ok
            && (0..n).all(|k| {
                names[k] == (pdf::V::Str(keys[k].clone()), pdf::V::Int(k as i64))
                    && nums[k] == (pdf::V::Int(k as i64 - 5), pdf::V::Str(b"v".to_vec()))
            });
        c.check(ok, &what(), || format!("{}\n{}", what(), show_out(ch.as_bytes())));
        c.states_by_construction(1);
        c.traces_n(1);
        c.steps(4 * n as u64);
    });
}

/// Several collections in one owner: all ordered choices of trees of a name
/// dictionary, with entries of their own.
fn all_names(c: &Ctx) {
    c.phase("name dictionary");
    type Start = for<'a, 'b> fn(&'a mut Names<'b>) -> NameTree<'a, Ref>;
    let trees: [(&str, Start); 10] = [
        ("Dests", |n| n.destinations()),
        ("AP", |n| n.appearances()),
        ("JavaScript", |n| n.javascript()),
        ("Pages", |n| n.pages()),
        ("Templates", |n| n.templates()),
        ("IDS", |n| n.capture_ids()),
        ("URLS", |n| n.capture_urls()),
        ("EmbeddedFiles", |n| n.embedded_files()),
        ("AlternatePresentations", |n| n.alternate_presentations()),
        ("Renditions", |n| n.renditions()),
    ];
    for len in 0..=c.bound(4, 5) {
        par(10usize.pow(len as u32), |i| {
            let s = seq(i, 10, len);
            if s.iter().enumerate().any(|(n, a)| s[..n].contains(a)) {
                return;
            }
            for pretty in [false, true] {
                let mut ch = Chunk::with_settings(settings(pretty));
                let mut want = vec![];
                {
                    let mut n = ch.indirect(Ref::new(1)).start::<Names>();
                    for (p, t) in s.iter().enumerate() {
                        let mut w = trees[*t].1(&mut n);
                        let mut e = vec![];
                        if p % 3 != 1 {
                            let mut a = w.names();
                            for q in 0..=p {
                                let k = [b'k', *t as u8, b')', q as u8];
                                a.insert(Str(&k), Ref::new(q as i32 + 1));
                                e.extend([X::Str(k.to_vec()), X::Ref(q as i64 + 1)]);
                            }
                        }
                        let mut d = vec![];
                        if p % 3 != 1 {
                            d.push((b"Names".to_vec(), X::Arr(e)));
                        }
                        if p % 2 == 1 {
                            w.kids().item(Ref::new(*t as i32 + 1));
                            d.push((b"Kids".to_vec(), X::Arr(vec![X::Ref(*t as i64 + 1)])));
                        }
                        want.push((trees[*t].0.as_bytes().to_vec(), X::Dict(d)));
                    }
                }
                let want = X::Dict(want);
                let ok = pdf::parse_chunk(ch.as_bytes()).is_ok_and(|o| o.len() == 1 && matches(&want, &o[0].val));
                c.check(ok, &format!("names {s:?} {}", layout(pretty)), || {
                    format!("expected {}\noutput: {}", want.show(), show_out(ch.as_bytes()))
                });
                c.traces_n(1);
                c.steps(3 * len as u64);
            }
            c.states_by_construction(1);
        });
    }
    // The catalog's whole chain, with page labels next to it.
    let styles = [
        (NumberingStyle::Arabic, "/D"),
        (NumberingStyle::UpperRoman, "/R"),
        (NumberingStyle::LowerRoman, "/r"),
        (NumberingStyle::UpperAlpha, "/A"),
        (NumberingStyle::LowerAlpha, "/a"),
    ];
    par(styles.len().pow(3) * 2, |i| {
        let s = seq(i / 2, styles.len(), 3);
        let mut pdf = Pdf::with_settings(settings(i % 2 == 0));
        {
            let mut cat = pdf.catalog(Ref::new(1));
            cat.names().destinations().names().insert(Str(b"x"), Ref::new(7));
            {
                let mut l = cat.page_labels();
                let mut e = l.nums();
                for p in 0..3 {
                    e.insert(p * 10, Ref::new(p + 2));
                }
            }
            cat.pages(Ref::new(9));
        }
        for (p, t) in s.iter().enumerate() {
            let mut l = pdf.indirect(Ref::new(p as i32 + 2)).start::<PageLabel>();
            l.style(styles[*t].0).prefix(TextStr("p")).offset(p as i32 + 1);
        }
        let out = pdf.finish();
        let ok = pdf::parse_doc(&out, None).is_ok_and(|d| {
            d.obj(1).is_some_and(|o| {
                matches(
                    &x("<</Type /Catalog /Names <</Dests <</Names [(x) 7 0 R]>>>> /PageLabels <</Nums [0 2 0 R 10 3 0 R 20 4 0 R]>> /Pages 9 0 R>>"),
                    &o.val,
                )
            }) && s.iter().enumerate().all(|(p, t)| {
                let want = x(&format!("<</Type /PageLabel /S {} /P (p) /St {}>>", styles[*t].1, p + 1));
                d.obj(p as i64 + 2).is_some_and(|o| matches(&want, &o.val))
            })
        });
        c.check(ok, &format!("page labels {i}"), || show_out(&out));
        c.states_by_construction(1);
        c.traces_n(1);
        c.steps(12);
    });
}
