//! H01-H04, H08: what diffing promises about its patches.

use crate::pages;
use crate::parse;
use crate::spaces::{self, Space};
use crate::tree::*;
use hotmeal::{Document, Patch};
use mc_core::{Fail, Family, Obs, Outcome, Tier, ensure};
use std::sync::Arc;

pub type P = Patch<'static>;

pub fn family(s: Space, f: impl Fn(&D, &D, &mut Obs) -> Outcome + Send + Sync + 'static) -> Family {
    let g = s.get.clone();
    let d = s.get.clone();
    Family::new(
        s.name.clone(),
        s.bound.clone(),
        s.size,
        move |i| {
            let (a, b) = d(i);
            format!("{}  ==>  {}", show_doc(&a), show_doc(&b))
        },
        move |i, obs| {
            let (a, b) = g(i);
            f(&a, &b, obs)
        },
    )
}
pub fn diff_of(a: &D, b: &D) -> Result<Vec<P>, Fail> {
    let (da, db) = (build(a), build(b));
    hotmeal::diff(&da, &db).map_err(|e| Fail::from(format!("diff failed: {e:?}")))
}
/// Patch list in words.
pub fn show_patches(p: &[P]) -> String {
    p.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join("; ")
}
pub fn tally(p: &[P], obs: &mut Obs) {
    for x in p {
        obs.seen(match x {
            Patch::InsertElement { .. } => "InsertElement",
            Patch::InsertText { .. } => "InsertText",
            Patch::InsertComment { .. } => "InsertComment",
            Patch::Remove { .. } => "Remove",
            Patch::SetText { .. } => "SetText",
            Patch::SetAttribute { .. } => "SetAttribute",
            Patch::RemoveAttribute { .. } => "RemoveAttribute",
            Patch::Move { from, .. } if from.0.0.len() == 1 => "Move from slot",
            Patch::Move { .. } => "Move",
            Patch::UpdateProps { .. } => "UpdateProps",
            Patch::OpaqueChanged { .. } => "OpaqueChanged",
        });
    }
    obs.step(p.len() as u64);
}

/// What is there instead of what; of long texts, only from where they differ.
pub fn unlike(got: &str, want: &str) -> String {
    if got.len() + want.len() < 1500 {
        return format!("body is {got} instead of {want}");
    }
    let same = got.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
    let part = |s: &str| s.chars().skip(same.saturating_sub(100)).take(500).collect::<String>();
    format!("after {same} characters the body is ...{} instead of ...{}", part(got), part(want))
}
/// The document that results must be `want` in everything patches cover: the
/// body's attributes and content (placeholders aside), while the rest of the
/// document stays as it was in `before`.
pub fn judge(got: &D, want: &D, before: &D, p: &[P], who: &str) -> Outcome {
    let gb = got.body.as_deref().unwrap_or(&[]);
    let wb = want.body.as_deref().unwrap_or(&[]);
    let (g, w) = (merge_opaque(&strip(gb)), merge_opaque(&strip(wb)));
    if g != w {
        let key = if flatten_ns(&g) == flatten_ns(&w) { Some("inserted-namespace".to_string()) } else { None };
        return Err(Fail {
            key,
            msg: format!("{who}: {}\n  patches: {}", unlike(&show(&g), &show(&w)), show_patches(p)),
        });
    }
    // A vanished body stands for an empty one.
    if want.body.is_some() {
        ensure!(
            got.body_attrs == want.body_attrs,
            "{who}: body attributes are {:?} instead of {:?}; patches: {}",
            got.body_attrs,
            want.body_attrs,
            show_patches(p)
        );
    }
    ensure!(got.doctype == before.doctype, "{who}: the doctype changed");
    ensure!(got.head == before.head, "{who}: the head changed");
    Ok(())
}

pub fn h01(a: &D, b: &D, obs: &mut Obs) -> Outcome {
    let p = diff_of(a, b)?;
    tally(&p, obs);
    if a.body != b.body {
        obs.nontrivial();
    }
    let mut doc = build(a);
    doc.apply_patches(p.clone()).map_err(|e| format!("apply failed: {e:?}; patches: {}", show_patches(&p)))?;
    let got = read(&doc);
    obs.state(format!("{got:?}").as_bytes());
    obs.trace();
    judge(&got, b, a, &p, "after applying the diff")?;
    // The visible document: what a user compares.
    if b.body.is_some() {
        let want = build(b);
        ensure!(doc.to_body_html() == want.to_body_html(), "body html {} instead of {}", doc.to_body_html(), want.to_body_html());
    }
    Ok(())
}
/// Whether body content can be written so that it reads as the same.
pub fn plain_writable(f: &[T]) -> bool {
    parse::writable(&doc(f.to_vec()))
}
/// The same through markup: parse, diff_html, apply, serialize.
fn h01_markup(a: &D, b: &D, obs: &mut Obs) -> Outcome {
    let (Some(fa), Some(fb)) = (&a.body, &b.body) else { return Ok(()) };
    if !plain_writable(fa) || !plain_writable(fb) {
        return Ok(());
    }
    let frame = |d: &D, f: &[T]| {
        let at: String = d.body_attrs.iter().map(|(k, v)| format!(" {k}=\"{v}\"")).collect();
        format!("<!DOCTYPE html><html><head></head><body{at}>{}</body></html>", markup(f))
    };
    let (ha, hb) = (hotmeal::StrTendril::from(frame(a, fa)), hotmeal::StrTendril::from(frame(b, fb)));
    let p = hotmeal::diff_html(&ha, &hb).map_err(|e| format!("diff_html failed: {e:?}"))?;
    let n = p.len() as u64;
    let mut doc = hotmeal::parse(&ha);
    let want = hotmeal::parse(&hb);
    let shown = format!("{p:?}");
    doc.apply_patches(p).map_err(|e| format!("apply failed: {e:?}; patches {shown}"))?;
    ensure!(
        doc.to_html() == want.to_html(),
        "html is {} instead of {}; patches {shown}",
        doc.to_html(),
        want.to_html()
    );
    obs.step(n);
    obs.trace();
    obs.state(doc.to_html().as_bytes());
    if n > 0 {
        obs.nontrivial();
    }
    Ok(())
}
fn h02(a: &D, b: &D, obs: &mut Obs) -> Outcome {
    let p = diff_of(a, b)?;
    obs.step(p.len() as u64 + 1);
    obs.trace();
    let same = a.body.as_deref() == b.body.as_deref() && a.body_attrs == b.body_attrs;
    if same {
        obs.nontrivial();
        obs.seen("identical documents");
        ensure!(p.is_empty(), "identical documents, but the diff is: {}", show_patches(&p));
    } else {
        let gone = b.body.is_none() && a.body.as_ref().is_none_or(|f| f.is_empty());
        let came = a.body.is_none() && b.body.as_ref().is_some_and(|f| f.is_empty());
        let blank = strip(a.body.as_deref().unwrap_or(&[])) == strip(b.body.as_deref().unwrap_or(&[]));
        if !gone && !came && !blank {
            obs.seen("different documents");
            ensure!(!p.is_empty(), "different documents, but the diff is empty");
        }
    }
    Ok(())
}

/// Live page: the server diffs clean documents; the page keeps its DOM.
fn live(seq: &[&D], browser: bool, obs: &mut Obs) -> Outcome {
    let mut page = build(seq[0]);
    if browser {
        web_load(seq[0]);
    }
    let mut before = seq[0].clone();
    for (i, w) in seq.windows(2).enumerate() {
        let p = diff_of(w[0], w[1])?;
        obs.step(p.len() as u64);
        page.apply_patches(p.clone())
            .map_err(|e| format!("step {i}: the page rejects the patches: {e:?}; {}", show_patches(&p)))?;
        let got = read(&page);
        obs.state(format!("{got:?}").as_bytes());
        judge(&got, w[1], &before, &p, &format!("step {i}, page"))?;
        before.body_attrs = w[1].body_attrs.clone();
        if browser {
            hotmeal_wasm::apply_patches(&p)
                .map_err(|e| format!("step {i}: the browser rejects the patches: {e:?}; {}", show_patches(&p)))?;
            let g = web_read();
            let (x, y) = (sort_attrs(&strip(g.body.as_deref().unwrap_or(&[]))), sort_attrs(&strip(w[1].body.as_deref().unwrap_or(&[]))));
            ensure!(x == y, "step {i}, browser: {} instead of {}; patches {}", show(&x), show(&y), show_patches(&p));
        }
    }
    obs.trace();
    obs.nontrivial();
    Ok(())
}
pub fn histories(name: &str, bound: &str, list: Vec<D>, len: u32, browser: bool) -> Family {
    let n = list.len() as u64;
    let list = Arc::new(list);
    let l2 = list.clone();
    let pick = move |l: &Vec<D>, mut i: u64| -> Vec<D> {
        (0..len)
            .map(|_| {
                let d = l[(i % n) as usize].clone();
                i /= n;
                d
            })
            .collect()
    };
    Family::new(
        name,
        format!("{bound}: all {n}^{len} histories of {len} documents"),
        n.pow(len),
        move |i| pick(&l2, i).iter().map(show_doc).collect::<Vec<_>>().join("  ==>  "),
        move |i, obs| {
            let v = pick(&list, i);
            live(&v.iter().collect::<Vec<_>>(), browser, obs)
        },
    )
}
fn page_histories(t: Tier, browser: bool) -> Family {
    let (bound, size, get) = pages::histories(t.pick(3, 5), t.pick(12, 20));
    let g2 = get.clone();
    Family::new(
        "hist-pages",
        bound,
        size,
        move |i| format!("history {i} of real pages; the last change: {}", g2(i).iter().map(|d| show_doc(d).chars().take(300).collect::<String>()).collect::<Vec<_>>().join("  ==>  ")),
        move |i, obs| {
            let v = get(i);
            live(&v.iter().collect::<Vec<_>>(), browser, obs).map_err(|e| Fail { key: e.key, msg: e.msg.chars().take(4000).collect() })
        },
    )
}
fn hist_docs(t: Tier) -> Vec<(&'static str, &'static str, Vec<D>, u32)> {
    let fs = |n: usize, els: &[T], leaves: &[T]| forests(n, els, leaves).into_iter().map(doc).collect::<Vec<_>>();
    let lists: Vec<D> = mc_core::trees::arrangements(3, 3).iter().flat_map(|a| [spaces::list(0, a), spaces::list(3, a)]).collect();
    let small = fs(2, &[el("p", vec![]), el("b", vec![])], &[tx("a"), tx("b")]);
    let three = fs(3, &[el("p", vec![])], &[tx("a"), tx("b")]);
    let attr = fs(2, &[el("p", vec![]), ela("p", &[("id", "1")], vec![]), ela("p", &[("id", "2"), ("class", "x")], vec![])], &[tx("a")]);
    vec![
        ("hist-lists", "lists of <= 3 items, 2 kinds", lists, t.pick(3, 4)),
        ("hist-small", "bodies of <= 2 nodes over 2 elements and 2 texts", small, t.pick(3, 4)),
        ("hist-three", "bodies of <= 3 nodes over 1 element and 2 texts", three, 3),
        ("hist-attrs", "bodies of <= 2 nodes over 3 element/attribute combinations and a text", attr, 3),
    ]
}

pub fn h04(a: &D, b: &D, obs: &mut Obs) -> Outcome {
    let p = diff_of(a, b)?;
    tally(&p, obs);
    let mut batch = build(a);
    let rb = batch.apply_patches(p.clone());
    let mut one = build(a);
    let mut slots = if p.is_empty() { Default::default() } else { one.init_patch_slots() };
    let mut ro = Ok(());
    for x in p.clone() {
        ro = one.apply_patch_with_slots(x, &mut slots);
        if ro.is_err() {
            break;
        }
        obs.state(format!("{:?}", read(&one)).as_bytes());
    }
    ensure!(rb.is_ok() == ro.is_ok(), "batch {rb:?}, one by one {ro:?}");
    ensure!(
        read(&batch) == read(&one),
        "batch gives {}, one by one {}; patches {}",
        show_doc(&read(&batch)),
        show_doc(&read(&one)),
        show_patches(&p)
    );
    // Browser: one call against one call per patch with the slots kept.
    if a.body.is_some() && b.body.is_some() {
        web_load(a);
        let r1 = hotmeal_wasm::apply_patches(&p);
        let w1 = web_read();
        let ev1 = web_sys::events().len();
        web_load(a);
        let mut slots = hotmeal_wasm::Slots::new();
        let mut r2 = Ok(0);
        for x in &p {
            r2 = hotmeal_wasm::apply_patches_with_slots(std::slice::from_ref(x), &mut slots);
            if r2.is_err() {
                break;
            }
        }
        ensure!(r1.is_ok() == r2.is_ok(), "browser: batch {r1:?}, one by one {r2:?}");
        ensure!(r1.as_ref().is_ok_and(|n| *n == p.len()), "browser: {r1:?} patches counted, {} sent", p.len());
        ensure!(w1 == web_read() && ev1 == web_sys::events().len(), "browser: batch gives {}, one by one {}", show_doc(&w1), show_doc(&web_read()));
    }
    obs.trace();
    if p.len() > 1 {
        obs.nontrivial();
    }
    Ok(())
}

fn h08(a: &D, b: &D, obs: &mut Obs) -> Outcome {
    let (da, db) = (build(a), build(b));
    let p: Vec<Patch> = hotmeal::diff(&da, &db).map_err(|e| format!("diff failed: {e:?}"))?;
    wire(&p, obs)
}
pub fn wire(p: &[Patch], obs: &mut Obs) -> Outcome {
    let owned: Vec<P> = p.iter().cloned().map(|x| x.into_owned()).collect();
    ensure!(owned.as_slice() == p, "into_owned changes the patches: {p:?} -> {owned:?}");
    let bytes = facet_postcard::to_vec(&owned).map_err(|e| format!("encoding failed: {e}"))?;
    let back: Vec<P> = facet_postcard::from_slice(&bytes).map_err(|e| format!("decoding failed: {e}"))?;
    ensure!(back == owned, "the wire changes the patches: {owned:?} -> {back:?}");
    obs.step(p.len() as u64);
    obs.trace();
    if !p.is_empty() {
        obs.nontrivial();
    }
    Ok(())
}

fn all(t: Tier) -> Vec<Space> {
    let mut v = spaces::plain(t);
    v.extend(spaces::special(t));
    v
}
pub fn h01_families(t: Tier) -> Vec<Family> {
    let mut v: Vec<Family> = all(t).into_iter().chain(spaces::foreigns(t)).map(|s| family(s, h01)).collect();
    for s in [spaces::mixed(3), spaces::attrs(2), spaces::lists(3, 3), spaces::islands(), spaces::opaque_attrs(), spaces::edit1("edit1", spaces::bases()), spaces::inversions(3), spaces::frames(), spaces::exotics(), spaces::svgattrs(3)] {
        let mut s = s;
        s.name = format!("markup-{}", s.name);
        v.push(family(s, h01_markup));
    }
    v.extend(pages::families(t, "", 8, h01));
    v.extend(pages::families(t, "markup-", 8, h01_markup));
    v
}
pub fn h02_families(t: Tier) -> Vec<Family> {
    let mut v: Vec<Family> = all(t).into_iter().chain(spaces::foreigns(t)).map(|s| family(s, h02)).collect();
    // Every document of every space against itself.
    for s in all(t).into_iter().chain(spaces::foreigns(t)) {
        let get = s.get.clone();
        v.push(family(
            Space {
                name: format!("self-{}", s.name),
                bound: format!("every new document of '{}' against itself", s.name),
                size: s.size,
                get: Arc::new(move |i| {
                    let b = get(i).1;
                    (b.clone(), b)
                }),
            },
            h02,
        ));
    }
    v.extend(pages::families(t, "", 8, h02));
    v
}
pub fn h03_families(t: Tier) -> Vec<Family> {
    hist_docs(t).into_iter().map(|(n, b, l, k)| histories(n, b, l, k, false)).chain([page_histories(t, false)]).collect()
}
pub fn h03b_families(t: Tier) -> Vec<Family> {
    hist_docs(t).into_iter().map(|(n, b, l, k)| histories(n, b, l, k, true)).chain([page_histories(t, true)]).collect()
}
pub fn h04_families(t: Tier) -> Vec<Family> {
    let mut v: Vec<Family> = all(t).into_iter().chain(spaces::foreigns(t)).map(|s| family(s, h04)).collect();
    v.extend(pages::families(t, "", 4, h04));
    v
}
pub fn h08_families(t: Tier) -> Vec<Family> {
    let mut v: Vec<Family> = all(t).into_iter().chain(spaces::foreigns(t)).map(|s| family(s, h08)).collect();
    v.extend(pages::families(t, "", 8, h08));
    v.retain(|f| f.size > 0);
    v
}
#[allow(dead_code)]
pub fn body_html(d: &Document) -> String {
    d.to_body_html()
}
