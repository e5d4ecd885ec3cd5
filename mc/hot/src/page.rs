//! H09-H13: the document itself - serialization, parsing, building, editing.

use crate::parse;
use crate::spaces;
use crate::tree::*;
use hotmeal::{Document, NodeId, NodeKind, StrTendril, Stem};
use html5ever::script::{self, Item, Op, Text};
use mc_core::trees::words;
use mc_core::{Fail, Family, Obs, Outcome, Tier, ensure};
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

fn documents(name: &str, bound: &str, list: Vec<D>, f: fn(&D, &mut Obs) -> Outcome) -> Family {
    let list = Arc::new(list);
    let l2 = list.clone();
    Family::new(
        name,
        format!("{bound}: all {} documents", list.len()),
        list.len() as u64,
        move |i| show_doc(&l2[i as usize]),
        move |i, obs| f(&list[i as usize], obs),
    )
}

// ------------------------------------------------------------------ H09

/// What is written reads back as the same document.
/// The content of every element, written alone, reads as that content there.
fn inner_forms(doc: &Document, id: NodeId, f: &[T], obs: &mut Obs) -> Outcome {
    for (c, t) in id.children(&doc.arena).zip(f) {
        let T::El(e) = t else { continue };
        if parse::content(e, &markup_in(Some(e), &e.kids)) == e.kids {
            let inner = doc.serialize_inner_html(c);
            let got = parse::content(e, &inner);
            obs.step(1);
            ensure!(got == e.kids, "the content of <{}> is written as {inner}, which reads as {} there", e.tag, show(&got));
        }
        inner_forms(doc, c, &e.kids, obs)?;
    }
    Ok(())
}
fn h09(d: &D, obs: &mut Obs) -> Outcome {
    let Some(f) = &d.body else { return Ok(()) };
    if !parse::writable(d) {
        return Ok(());
    }
    obs.nontrivial();
    let doc = build(d);
    let html = doc.to_html();
    obs.state(html.as_bytes());
    let t = StrTendril::from(html.as_str());
    let back = hotmeal::parse(&t);
    obs.step(1);
    let got = read(&back);
    ensure!(&got == d, "{html} reads as {}", show_doc(&got));
    ensure!(back.to_html() == html, "{html} is written as {} after reading", back.to_html());
    // The partial forms agree with the whole.
    let bare = doc.to_html_without_doctype();
    match &d.doctype {
        None => ensure!(bare == html, "without doctype: {bare} instead of {html}"),
        Some(n) => ensure!(format!("<!DOCTYPE {n}>{bare}") == html, "without doctype: {bare}, with: {html}"),
    }
    let inner = doc.to_body_html();
    let body = doc.body().unwrap();
    ensure!(doc.serialize_inner_html(body) == inner, "inner html of the body: {} instead of {inner}", doc.serialize_inner_html(body));
    ensure!(bare.ends_with(&format!(">{inner}</body></html>")), "body html {inner} is not the end of {bare}");
    // Markup of the body alone, as the browser client and the events carry it.
    let t = StrTendril::from(inner.as_str());
    let frag = hotmeal::parse_body_fragment(&t);
    obs.step(1);
    let kids: Vec<T> = frag.root.children(&frag.arena).filter_map(|c| read_node(&frag, c)).collect();
    ensure!(&kids == f, "the fragment {inner} reads as {}", show(&kids));
    inner_forms(&doc, body, f, obs)?;
    obs.trace();
    Ok(())
}
const BITS: &[&str] = &["a", "<", ">", "&", "\"", "'", ";", "amp", "lt", "#38", "!", "-", "/b", " ", "\u{a0}", "\u{e9}", "\n", "<!--", "]]>", "=`"];
fn strings(len: usize) -> Vec<String> {
    let mut v: Vec<String> = (1..=len).flat_map(|n| words(n, BITS.len())).map(|w| w.iter().map(|i| BITS[*i]).collect()).collect();
    v.sort();
    v.dedup();
    v
}
/// Every place a string can stand in a document.
fn strings_everywhere(len: usize) -> Vec<D> {
    let mut out = vec![];
    for s in strings(len) {
        let t = || vec![tx(&s)];
        let svg = |k: Vec<T>| foreign(Ns::Svg, "svg", &[], k);
        let math = |k: Vec<T>| foreign(Ns::Math, "math", &[], k);
        for tag in ["p", "b", "textarea", "option", "pre", "title"] {
            if tag == "title" {
                out.push(D { doctype: Some("html".into()), head: vec![el("title", t())], ..doc(vec![el("p", vec![])]) });
                continue;
            }
            out.push(doc(vec![el(tag, t()), el("i", vec![])]));
        }
        for tag in ["title", "style", "script", "desc", "text", "iframe"] {
            out.push(doc(vec![svg(vec![foreign(Ns::Svg, tag, &[], t())]), tx("x")]));
        }
        for tag in ["mi", "style", "annotation-xml"] {
            out.push(doc(vec![math(vec![foreign(Ns::Math, tag, &[], t())]), tx("x")]));
        }
        if !s.contains("</") && !s.contains("<!--") {
            for tag in ["script", "style", "noscript", "iframe", "xmp", "noembed", "noframes"] {
                out.push(doc(vec![el(tag, t()), el("i", vec![])]));
            }
            for tag in ["script", "style"] {
                out.push(D { doctype: Some("html".into()), head: vec![el(tag, t())], ..doc(vec![tx("b")]) });
            }
        }
        if !s.contains("--") && !s.starts_with(['>', '-']) && !s.ends_with('-') && !s.contains("<!-") {
            out.push(doc(vec![cm(&s), el("i", vec![])]));
            out.push(doc(vec![el("p", vec![cm(&s), tx("x")])]));
        }
        for el_ in ["p", "br", "script"] {
            out.push(doc(vec![ela(el_, &[("title", &s), ("id", "1")], vec![]), el("i", vec![])]));
        }
        out.push(doc(vec![svg(vec![foreign(Ns::Svg, "a", &[("xlink:href", &s), ("x", "1")], vec![])])]));
        out.push(D { body_attrs: vec![("class".into(), s.clone())], ..doc(vec![]) });
    }
    out
}
/// Every element name: void or not, and its namesake in foreign content.
fn every_tag() -> Vec<D> {
    let mut out = vec![];
    let void = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];
    for tag in void {
        for attrs in [&[][..], &[("id", "1")][..]] {
            out.push(doc(vec![ela(tag, attrs, vec![]), tx("after"), el("i", vec![])]));
            out.push(doc(vec![el("span", vec![tx("before"), ela(tag, attrs, vec![]), ela(tag, attrs, vec![])])]));
        }
        if !matches!(tag, "br" | "embed" | "hr" | "img" | "meta") {
            for kids in [vec![], vec![tx("a<b")], vec![foreign(Ns::Svg, "g", &[], vec![])]] {
                out.push(doc(vec![foreign(Ns::Svg, "svg", &[], vec![foreign(Ns::Svg, tag, &[], kids.clone()), tx("after")])]));
                out.push(doc(vec![foreign(Ns::Math, "math", &[], vec![foreign(Ns::Math, tag, &[], vec![tx("q")]), foreign(Ns::Math, "mo", &[], vec![])])]));
            }
        }
    }
    for tag in [
        "a", "abbr", "article", "audio", "b", "blockquote", "button", "canvas", "code", "custom-element", "details", "div", "em",
        "fieldset", "footer", "h1", "h6", "i", "label", "main", "nav", "object", "output", "q", "section", "select", "small", "span", "strong", "sub",
        "u", "ul", "var", "video", "script", "style", "noscript", "iframe", "xmp", "noembed", "noframes", "textarea",
    ] {
        out.push(doc(vec![el(tag, vec![]), tx("after")]));
        out.push(doc(vec![ela(tag, &[("id", "1"), ("data-x", "")], vec![tx("t")]), el("i", vec![])]));
        out.push(doc(vec![el("span", vec![el(tag, vec![tx("t")])]), tx("z")]));
    }
    out
}
pub fn h09_families(t: Tier) -> Vec<Family> {
    let of = |s: spaces::Space| -> Vec<D> {
        let mut v: Vec<D> = (0..s.size).map(|i| (s.get)(i).1).collect();
        v.sort();
        v.dedup();
        v
    };
    let forest = |n: usize, els: &[T], leaves: &[T]| forests(n, els, leaves).into_iter().map(doc).collect::<Vec<_>>();
    vec![
        documents("strings", "strings of up to n pieces of markup-like text in every kind of place", strings_everywhere(t.pick(2, 3)), h09),
        documents("tags", "every void and many other elements, and their namesakes in SVG and MathML", every_tag(), h09),
        documents(
            "forests",
            "bodies over nesting elements, a void element, texts with special characters and a comment",
            forest(t.pick(4, 5), &[el("div", vec![]), ela("b", &[("title", "\"<&>'")], vec![])], &[tx("a<&"), el("br", vec![]), cm("c")]),
            h09,
        ),
        documents("islands", "SVG and MathML islands", of(spaces::islands()), h09),
        documents("names", "names only the parser accepts, namespaced attributes", of(spaces::exotics()).into_iter().chain(of(spaces::svgattrs(t.pick(3, 4)))).collect(), h09),
        documents("frames", "documents with and without doctype, head, body attributes", of(spaces::frames()), h09),
        documents(
            "soup",
            "what a parser makes of strings of up to n tags of misnested tables, formatting, lists, foreign content, templates",
            {
                let mut v: Vec<D> = spaces::soup(t.pick(3, 4)).iter().map(|m| parse::document(&format!("<!DOCTYPE html><body>{m}"))).collect();
                v.sort();
                v.dedup();
                v
            },
            h09,
        ),
        documents("pages", "real pages", crate::pages::documents().to_vec(), h09),
        documents("edited", "every single edit of the base documents", of(spaces::edit1("edit1", spaces::bases())), h09),
        documents("large", "long and deep documents, large tables, many attributes, opaque regions", {
            let mut v = of(spaces::wide(&[8, 33, 65]));
            v.extend(of(spaces::deep(&[7, 18, 40, 100])));
            v.extend(of(spaces::many_attrs(&[9, 33, 130])));
            v.extend(of(spaces::huge(260, 60)));
            v.extend(of(spaces::opaque_big(&[9])));
            v
        }, h09),
    ]
}

// ------------------------------------------------------------------ H10

#[derive(Clone, Debug, PartialEq)]
enum RK {
    Doc,
    El(String, Vec<(String, String)>),
    Text(String),
    Comment(String),
}
/// A DOM as the parser's instructions describe it.
#[derive(Clone, Debug)]
struct Ref {
    nodes: Vec<(RK, Option<usize>, Vec<usize>)>,
    /// handle -> node (texts have no handle)
    handles: Vec<usize>,
    doctype: Option<String>,
    input: String,
}
impl Ref {
    fn new_node(&mut self, k: RK) -> usize {
        self.nodes.push((k, None, vec![]));
        self.nodes.len() - 1
    }
    fn text(&self, t: &Text) -> String {
        match t {
            Text::In(o, l) => self.input[*o as usize..(*o + *l) as usize].to_string(),
            Text::Own(s) => s.clone(),
        }
    }
    fn detach(&mut self, n: usize) {
        if let Some(p) = self.nodes[n].1.take() {
            self.nodes[p].2.retain(|c| *c != n);
        }
    }
    fn put(&mut self, parent: usize, at: usize, i: &Item) {
        match i {
            Item::Text(t) => {
                let s = self.text(t);
                if at > 0 {
                    let prev = self.nodes[parent].2[at - 1];
                    if let RK::Text(x) = &mut self.nodes[prev].0 {
                        x.push_str(&s);
                        return;
                    }
                }
                let n = self.new_node(RK::Text(s));
                self.nodes[n].1 = Some(parent);
                self.nodes[parent].2.insert(at, n);
            }
            Item::Node(h) => {
                let n = self.handles[*h];
                self.nodes[n].1 = Some(parent);
                self.nodes[parent].2.insert(at, n);
            }
        }
    }
    fn before(&mut self, s: usize, i: &Item) {
        if let Item::Node(h) = i {
            let n = self.handles[*h];
            self.detach(n);
        }
        let p = self.nodes[s].1.unwrap();
        let at = self.nodes[p].2.iter().position(|c| *c == s).unwrap();
        self.put(p, at, i);
    }
    fn within(&self, mut n: usize, anc: usize) -> bool {
        loop {
            if n == anc {
                return true;
            }
            match self.nodes[n].1 {
                Some(p) => n = p,
                None => return false,
            }
        }
    }
    fn name(n: &script::Name) -> String {
        match &n.0 {
            Some(p) => format!("{p}:{}", n.2),
            None => n.2.clone(),
        }
    }
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Element(n, a) => {
                let attrs = a.iter().map(|(k, v)| (Self::name(k), self.text(v))).collect();
                let x = self.new_node(RK::El(n.2.clone(), attrs));
                self.handles.push(x);
            }
            Op::Comment(t) => {
                let s = self.text(t);
                let x = self.new_node(RK::Comment(s));
                self.handles.push(x);
            }
            Op::Append(p, i) => {
                let p = self.handles[*p];
                if let Item::Node(h) = i {
                    let n = self.handles[*h];
                    self.detach(n);
                }
                self.put(p, self.nodes[p].2.len(), i);
            }
            Op::Before(s, i) => {
                let s = self.handles[*s];
                self.before(s, i);
            }
            Op::BasedOnParent(e, p, i) => {
                let n = self.handles[*e];
                if self.nodes[n].1.is_some() {
                    self.before(n, i);
                } else {
                    self.apply(&Op::Append(*p, i.clone()));
                }
            }
            Op::Doctype(t) => self.doctype = Some(self.text(t)),
            Op::AddAttrs(h, a) => {
                let add: Vec<(String, String)> = a.iter().map(|(k, v)| (Self::name(k), self.text(v))).collect();
                let n = self.handles[*h];
                if let RK::El(_, at) = &mut self.nodes[n].0 {
                    for (k, v) in add {
                        if !at.iter().any(|(x, _)| *x == k) {
                            at.push((k, v));
                        }
                    }
                }
            }
            Op::Remove(h) => {
                let n = self.handles[*h];
                self.detach(n);
            }
            Op::Reparent(a, b) => {
                let (a, b) = (self.handles[*a], self.handles[*b]);
                for c in std::mem::take(&mut self.nodes[a].2) {
                    self.nodes[c].1 = Some(b);
                    self.nodes[b].2.push(c);
                }
            }
            _ => {}
        }
    }
    fn tree(&self, n: usize) -> T {
        let kids = self.nodes[n].2.iter().map(|c| self.tree(*c)).collect();
        match &self.nodes[n].0 {
            RK::Doc => unreachable!(),
            RK::El(tag, a) => T::El(E { tag: tag.clone(), attrs: a.clone(), kids, ..E::default() }),
            RK::Text(s) => tx(s),
            RK::Comment(s) => cm(s),
        }
    }
    fn root(&self) -> Option<usize> {
        self.nodes[0].2.iter().copied().find(|c| matches!(self.nodes[*c].0, RK::El(..)))
    }
}
const HTML_NS: &str = "http://www.w3.org/1999/xhtml";
fn hname(tag: &str) -> script::Name {
    (None, HTML_NS.into(), tag.into())
}
fn aname(k: &str) -> script::Name {
    match k.split_once(':') {
        Some((p, l)) => (Some(p.into()), "http://www.w3.org/1999/xlink".into(), l.into()),
        None => (None, String::new(), k.into()),
    }
}
const INPUT: &str = "<!DOCTYPE html>abcdef";
/// The instructions a parser may give next.
fn menu(r: &Ref, max: usize) -> Vec<Op> {
    let mut v = vec![];
    let texts = [Text::In(15, 1), Text::In(17, 2), Text::Own("z".into())];
    if r.handles.len() < max {
        v.push(Op::Element(hname("i"), vec![(aname("id"), Text::In(16, 1)), (aname("xlink:href"), Text::Own("o".into()))]));
        v.push(Op::Comment(Text::In(18, 3)));
    }
    let is_el = |n: usize| matches!(r.nodes[n].0, RK::El(..));
    for (h, n) in r.handles.iter().enumerate().skip(1) {
        let detached = r.nodes[*n].1.is_none();
        if !detached {
            v.push(Op::Remove(h));
            if r.nodes[*n].1 != Some(0) {
                v.extend(texts[1..].iter().map(|t| Op::Before(h, Item::Text(t.clone()))));
            }
            for (h2, m) in r.handles.iter().enumerate().skip(1) {
                if !r.within(*n, *m) && r.nodes[*n].1 != Some(0) {
                    v.push(Op::Before(h, Item::Node(h2)));
                }
            }
        }
        if is_el(*n) {
            v.extend(texts.iter().map(|t| Op::Append(h, Item::Text(t.clone()))));
            v.push(Op::AddAttrs(h, vec![(aname("id"), Text::In(19, 1)), (aname("class"), Text::In(15, 2)), (aname("href"), Text::Own("h".into()))]));
            for (h2, m) in r.handles.iter().enumerate().skip(1) {
                if r.nodes[*m].1.is_none() && !r.within(*n, *m) {
                    v.push(Op::Append(h, Item::Node(h2)));
                }
                if is_el(*m) && h != h2 && !r.within(*m, *n) {
                    v.push(Op::Reparent(h, h2));
                }
                // foster parenting around element h with h2 the previous element
                if is_el(*m) && r.nodes[*n].1 != Some(0) {
                    v.push(Op::BasedOnParent(h, h2, Item::Text(texts[0].clone())));
                    for (h3, k) in r.handles.iter().enumerate().skip(1) {
                        if r.nodes[*k].1.is_none() && !r.within(*n, *k) && !r.within(*m, *k) {
                            v.push(Op::BasedOnParent(h, h2, Item::Node(h3)));
                        }
                    }
                }
            }
        }
    }
    v
}
fn sink_start(which: usize) -> (Ref, Vec<Op>) {
    let mut r = Ref { nodes: vec![(RK::Doc, None, vec![])], handles: vec![0], doctype: None, input: INPUT.into() };
    let mut ops = vec![
        Op::Doctype(Text::In(10, 4)),
        Op::Element(hname("html"), vec![]),
        Op::Append(0, Item::Node(1)),
        Op::Element(hname("body"), vec![]),
        Op::Append(1, Item::Node(2)),
    ];
    match which {
        0 => {
            ops.push(Op::Element(hname("table"), vec![]));
            ops.push(Op::Append(2, Item::Node(3)));
        }
        1 => {
            ops.push(Op::Element(hname("p"), vec![(aname("id"), Text::In(15, 6))]));
            ops.push(Op::Append(2, Item::Text(Text::In(15, 2))));
            ops.push(Op::Append(2, Item::Node(3)));
            ops.push(Op::Append(3, Item::Text(Text::In(17, 1))));
            ops.push(Op::Append(2, Item::Text(Text::Own("w".into()))));
        }
        _ => {
            ops.insert(1, Op::Comment(Text::In(16, 3)));
            // the comment takes the first handle
            ops = vec![
                Op::Comment(Text::In(16, 3)),
                Op::Append(0, Item::Node(1)),
                Op::Element(hname("html"), vec![]),
                Op::Append(0, Item::Node(2)),
                Op::Element(hname("body"), vec![]),
                Op::Append(2, Item::Node(3)),
            ];
        }
    }
    for op in &ops {
        r.apply(op);
    }
    (r, ops)
}
fn sink_case(r: &Ref, ops: &[Op], obs: &mut Obs) -> Outcome {
    let say = |m: String| Fail::from(format!("{m}\n  after {ops:?}"));
    let t = StrTendril::from(INPUT);
    // probes at the end: what the sink says about its nodes
    let mut all = ops.to_vec();
    for h in 1..r.handles.len() {
        all.push(Op::ElemName(h));
        all.push(Op::Same(h, h));
        all.push(Op::Same(h, h - 1));
    }
    all.push(Op::Error("oops".into()));
    all.push(Op::Quirks);
    let (doc, log, input) = script::run(all, || hotmeal::parse(&t));
    obs.step(ops.len() as u64);
    obs.trace();
    if input.as_deref() != Some(INPUT) {
        return Err(say(format!("the parser was given {input:?}")));
    }
    for h in 1..r.handles.len() {
        let want = match &r.nodes[r.handles[h]].0 {
            RK::El(t, _) => format!("{HTML_NS}|{t}"),
            _ => format!("{HTML_NS}|"),
        };
        let got = &log[(h - 1) * 3..h * 3];
        if matches!(r.nodes[r.handles[h]].0, RK::El(..)) && got[0] != want || got[1] != "true" || got[2] != "false" {
            return Err(say(format!("the sink says {got:?} about node {h}, expected {want}")));
        }
    }
    let Some(root) = r.root() else { return Ok(()) };
    obs.nontrivial();
    let got = read_node(&doc, doc.root);
    let want = r.tree(root);
    obs.state(format!("{want:?}").as_bytes());
    if got.as_ref() != Some(&want) {
        return Err(say(format!("the document is {} instead of {}", got.map_or("nothing".into(), |g| show(&[g])), show(&[want]))));
    }
    let body = r.nodes[root].2.iter().copied().find(|c| matches!(&r.nodes[*c].0, RK::El(t, _) if t == "body"));
    let gb = doc.body().and_then(|b| read_node(&doc, b));
    if gb != body.map(|b| r.tree(b)) {
        return Err(say(format!("the body is {gb:?}")));
    }
    if doc.doctype.as_ref().map(|s| s.to_string()) != r.doctype {
        return Err(say(format!("the doctype is {:?} instead of {:?}", doc.doctype, r.doctype)));
    }
    if doc.errors.len() != 1 {
        return Err(say(format!("errors {:?}", doc.errors)));
    }
    borrowed_inside(&doc, t.as_ref()).map_err(|e| say(e.msg))?;
    Ok(())
}
/// No string of the document borrows from anywhere but the input.
fn borrowed_inside(doc: &Document, input: &str) -> Outcome {
    let lo = input.as_ptr() as usize;
    let hi = lo + input.len();
    let ok = |s: &Stem| match s {
        Stem::Borrowed(b) => (b.as_ptr() as usize >= lo && b.as_ptr() as usize + b.len() <= hi) || b.is_empty(),
        Stem::Owned(_) => true,
    };
    for n in doc.arena.iter() {
        let good = match &n.get().kind {
            NodeKind::Document => true,
            NodeKind::Text(s) | NodeKind::Comment(s) => ok(s),
            NodeKind::Element(e) => e.attrs.iter().all(|(_, v)| ok(v)),
        };
        ensure!(good, "a string borrows from outside the input: {:?}", n.get());
    }
    Ok(())
}
fn sink_explore(r: &Ref, ops: &mut Vec<Op>, depth: usize, max: usize, obs: &mut Obs) -> Outcome {
    sink_case(r, ops, obs)?;
    if depth == 0 {
        return Ok(());
    }
    for op in menu(r, max) {
        let mut r2 = r.clone();
        r2.apply(&op);
        ops.push(op);
        sink_explore(&r2, ops, depth - 1, max, obs)?;
        ops.pop();
    }
    Ok(())
}
fn sink_family(name: &str, which: usize, depth: usize, max: usize) -> Family {
    // One case per valid first two instructions; each explores what follows.
    let mut prefixes: Vec<(Ref, Vec<Op>)> = vec![];
    let (r, ops) = sink_start(which);
    for a in menu(&r, max) {
        let mut r1 = r.clone();
        r1.apply(&a);
        for b in menu(&r1, max) {
            let mut r2 = r1.clone();
            r2.apply(&b);
            let mut o = ops.clone();
            o.push(a.clone());
            o.push(b);
            prefixes.push((r2, o));
        }
    }
    let list = Arc::new(prefixes);
    let l2 = list.clone();
    Family::new(
        name,
        format!("all sequences of {depth} parser instructions on {max} nodes after {ops:?}"),
        list.len() as u64,
        move |i| format!("{:?} and every continuation", l2[i as usize].1),
        move |i, obs| {
            let (r, o) = &list[i as usize];
            sink_explore(r, &mut o.clone(), depth - 2, max, obs)
        },
    )
}
pub fn h10_families(t: Tier) -> Vec<Family> {
    vec![
        sink_family("sink-table", 0, t.pick(4, 5), 6),
        sink_family("sink-texts", 1, t.pick(4, 5), 5),
        sink_family("sink-comment-first", 2, t.pick(3, 4), 6),
    ]
}

// ------------------------------------------------------------------ H11

const PIECES: &[&str] = &[
    " ", "\n", "a", "<p>", "</p>", "<!--c-->", "<b id=\"1\">", "</b>", "&lt;", "<br>", "<li>", "<svg>", "</svg>", "&amp;x", "<", "<textarea>",
    "</textarea>", "<!--", "-->",
];
fn body_of(html: &str) -> (D, String) {
    let t = StrTendril::from(html);
    let d = hotmeal::parse(&t);
    (read(&d), d.to_body_html())
}
/// Whether the document ends outside of a tag, a comment and raw text.
fn whole(full: &str) -> bool {
    let t = StrTendril::from(format!("{full}<x-end>"));
    let d = hotmeal::parse(&t);
    d.arena.iter().any(|n| matches!(&n.get().kind, NodeKind::Element(e) if e.tag.as_ref() == "x-end"))
}
fn input_case(w: &str, obs: &mut Obs) -> Outcome {
    obs.trace();
    obs.step(5);
    obs.nontrivial();
    // Explicit document: what it says is the body.
    let full = format!("<!DOCTYPE html><html><head></head><body>{w}");
    let t = StrTendril::from(full.as_str());
    let doc = hotmeal::parse(&t);
    borrowed_inside(&doc, t.as_ref())?;
    let want = read(&doc);
    obs.state(format!("{want:?}").as_bytes());
    let told = parse::document(&full);
    ensure!(want == told, "{} is made of it, not {}", show_doc(&want), show_doc(&told));
    ensure!(want.doctype.as_deref() == Some("html"), "doctype {:?}", want.doctype);
    // The closing tags add nothing to what is complete.
    if whole(&full) {
        let (d, _) = body_of(&format!("{full}</body></html>"));
        ensure!(d == want, "with closing tags: {}", show_doc(&d));
    }
    // The same without a doctype: parsed alike, but none is made up.
    let (d, _) = body_of(&full["<!DOCTYPE html>".len()..]);
    ensure!(d == D { doctype: None, ..want.clone() }, "without doctype: {}", show_doc(&d));
    // Lower case and leading blanks make no difference to the doctype.
    let (d, _) = body_of(&format!(" \n{}", full.replace("DOCTYPE", "doctype")));
    ensure!(d == want, "with blanks before the doctype: {}", show_doc(&d));
    // A bare piece of body content: all of it, leading blanks included.
    let (d, inner) = body_of(w);
    ensure!(d.body == want.body && d.doctype.is_none() && d.body_attrs.is_empty(), "bare content: {}, as a document: {}", show_doc(&d), show_doc(&want));
    // ... and as a fragment, like innerHTML.
    let t = StrTendril::from(w);
    let f = hotmeal::parse_body_fragment(&t);
    borrowed_inside(&f, t.as_ref())?;
    let kids: Vec<T> = f.root.children(&f.arena).filter_map(|c| read_node(&f, c)).collect();
    ensure!(Some(&kids) == want.body.as_ref(), "as a fragment: {}, in a document: {}", show(&kids), show(want.body.as_deref().unwrap()));
    // Reading again what was written changes nothing, where any markup gives this body.
    if parse::writable(&want) {
        let (d2, inner2) = body_of(&inner);
        ensure!(inner2 == inner && d2.body == d.body, "{inner} is read and written as {inner2}");
    }
    // The body's own attributes.
    let (d, _) = body_of(&format!("<html lang=\"x\"><body class=\"k\" id=\"b\">{w}"));
    ensure!(d.body == want.body && d.body_attrs == [("class".to_string(), "k".to_string()), ("id".to_string(), "b".to_string())], "with body attributes: {}", show_doc(&d));
    // A comment before the document.
    for c in [format!("<!-- x -->{full}"), full.replace("<html>", "<!-- x --><html>")] {
        let (d, _) = body_of(&c);
        ensure!(d.body == want.body && d.head == want.head, "with a leading comment: {}", show_doc(&d));
    }
    Ok(())
}
/// A document's own strings are not copied when they stand literally in it.
fn zero_copy(w: &str, obs: &mut Obs) -> Outcome {
    let full = format!("<!DOCTYPE html><html><body><p title=\"{w}\">{w}</p><!--{w}--></body></html>");
    let t = StrTendril::from(full.as_str());
    let doc = hotmeal::parse(&t);
    obs.trace();
    obs.step(1);
    obs.nontrivial();
    let (lo, hi) = (t.as_ptr() as usize, t.as_ptr() as usize + t.len());
    let mut n = 0;
    for x in doc.arena.iter() {
        let mut one = |s: &Stem, literal: bool| -> Outcome {
            if literal {
                n += 1;
                ensure!(matches!(s, Stem::Borrowed(b) if b.as_ptr() as usize >= lo && b.as_ptr() as usize + b.len() <= hi), "{s:?} is a copy");
            }
            Ok(())
        };
        let literal = !w.contains(['&', '\r', '\0']) && !w.is_empty();
        match &x.get().kind {
            NodeKind::Text(s) => one(s, literal)?,
            NodeKind::Comment(s) => one(s, literal)?,
            NodeKind::Element(e) => {
                for (_, v) in &e.attrs {
                    one(v, literal)?;
                }
            }
            NodeKind::Document => {}
        }
    }
    obs.seen_n("borrowed strings", n);
    let d = read(&doc);
    let (b, _) = body_of(&full["<!DOCTYPE html>".len()..]);
    ensure!(d.body == b.body, "borrowed: {}, copied: {}", show_doc(&d), show_doc(&b));
    Ok(())
}
fn texts(name: &str, bound: &str, list: Vec<String>, f: fn(&str, &mut Obs) -> Outcome) -> Family {
    let list = Arc::new(list);
    let l2 = list.clone();
    Family::new(
        name,
        format!("{bound}: all {}", list.len()),
        list.len() as u64,
        move |i| format!("{:?}", l2[i as usize]),
        move |i, obs| f(&list[i as usize], obs),
    )
}
/// A whole document, which may be incomplete.
fn page_case(w: &str, obs: &mut Obs) -> Outcome {
    obs.trace();
    obs.nontrivial();
    let t = StrTendril::from(w);
    let doc = hotmeal::parse(&t);
    borrowed_inside(&doc, t.as_ref())?;
    let got = read(&doc);
    obs.state(w.as_bytes());
    // a document without a doctype is read in standards mode, too
    let told = if got.doctype.is_some() { parse::document(w) } else { D { doctype: None, ..parse::document(&format!("<!DOCTYPE html>{w}")) } };
    ensure!(got == told, "{} is made of it, not {}", show_doc(&got).chars().take(1500).collect::<String>(), show_doc(&told).chars().take(1500).collect::<String>());
    Ok(())
}
fn cut_pages() -> Vec<String> {
    let f = crate::pages::files();
    let mut v: Vec<String> = f.iter().map(|(_, s)| s.clone()).collect();
    for (_, s) in f.iter().take(4) {
        let from = s.find("<body").unwrap_or(0);
        v.extend(s.match_indices('>').filter(|(i, _)| *i > from).map(|(i, _)| s[..=i].to_string()));
    }
    v
}
pub fn h11_families(t: Tier) -> Vec<Family> {
    let concat = |len: usize, a: &[&str]| -> Vec<String> {
        let mut v: Vec<String> = (0..=len).flat_map(|n| words(n, a.len())).map(|w| w.iter().map(|i| a[*i]).collect()).collect();
        v.sort();
        v.dedup();
        v
    };
    vec![
        texts("inputs", "inputs of up to n pieces of markup", concat(t.pick(4, 5), PIECES), input_case),
        texts("bare", "inputs of up to n blanks and tags that look like the structure of a document", concat(t.pick(5, 6), &[" ", "\n", "x", "<head>", "</head>", "<header>", "</header>", "<HEAD>", "<bod>"]), input_case),
        texts("soup", "all strings of up to n tags of misnested tables, formatting, lists, foreign content, templates", spaces::soup(t.pick(3, 4)), input_case),
        texts("pages", "real pages, and the smallest four of them cut off after every tag", cut_pages(), page_case),
        texts("strings", "strings in a text, an attribute and a comment", concat(t.pick(3, 4), &["a", "&amp;", "\u{e9}", "b c", "&", "'", "\u{1f600}", ";", "amp"]), zero_copy),
    ]
}

// ------------------------------------------------------------------ H12

#[derive(Clone, Debug)]
enum Dom {
    Element,
    Text,
    Comment,
    Append(usize, usize),
    Before(usize, usize),
    After(usize, usize),
    Remove(usize),
    SetAttr(usize, usize, usize),
    RemoveAttr(usize, usize),
    SetText(usize, usize),
}
const KEYS: &[&str] = &["id", "xlink:href", "href"];
const VALS: &[&str] = &["", "v\"<"];
fn dom_menu(r: &Ref, max: usize) -> Vec<Dom> {
    let mut v = vec![];
    if r.handles.len() < max {
        v.extend([Dom::Element, Dom::Text, Dom::Comment]);
    }
    for (h, n) in r.handles.iter().enumerate() {
        let n = *n;
        let el = matches!(r.nodes[n].0, RK::El(..));
        if h > 0 {
            v.push(Dom::Remove(h));
        }
        v.push(Dom::SetText(h, 0));
        for k in 0..KEYS.len() {
            v.push(Dom::SetAttr(h, k, k % 2));
            if k < 2 {
                v.push(Dom::RemoveAttr(h, k));
            }
        }
        v.push(Dom::SetAttr(h, 0, 1));
        for (h2, m) in r.handles.iter().enumerate().skip(1) {
            // h2 goes under or next to h
            if r.within(n, *m) {
                continue;
            }
            if el {
                v.push(Dom::Append(h, h2));
            }
            if r.nodes[n].1.is_some() {
                v.push(Dom::Before(h, h2));
                v.push(Dom::After(h, h2));
            }
        }
    }
    v
}
fn dom_apply(r: &mut Ref, op: &Dom) {
    match op {
        Dom::Element => {
            let n = r.new_node(RK::El("b".into(), vec![]));
            r.handles.push(n);
        }
        Dom::Text => {
            let n = r.new_node(RK::Text("t".into()));
            r.handles.push(n);
        }
        Dom::Comment => {
            let n = r.new_node(RK::Comment("c".into()));
            r.handles.push(n);
        }
        Dom::Append(p, c) => r.apply(&Op::Append(*p, Item::Node(*c))),
        Dom::Before(s, c) => r.apply(&Op::Before(*s, Item::Node(*c))),
        Dom::After(s, c) => {
            let (s, c) = (r.handles[*s], r.handles[*c]);
            r.detach(c);
            let p = r.nodes[s].1.unwrap();
            let at = r.nodes[p].2.iter().position(|x| *x == s).unwrap() + 1;
            r.nodes[p].2.insert(at, c);
            r.nodes[c].1 = Some(p);
        }
        Dom::Remove(n) => {
            let n = r.handles[*n];
            r.detach(n);
        }
        Dom::SetAttr(n, k, v) => {
            let n = r.handles[*n];
            if let RK::El(_, a) = &mut r.nodes[n].0 {
                match a.iter_mut().find(|(x, _)| x == KEYS[*k]) {
                    Some(x) => x.1 = VALS[*v].into(),
                    None => a.push((KEYS[*k].into(), VALS[*v].into())),
                }
            }
        }
        Dom::RemoveAttr(n, k) => {
            let n = r.handles[*n];
            if let RK::El(_, a) = &mut r.nodes[n].0 {
                a.retain(|(x, _)| x != KEYS[*k]);
            }
        }
        Dom::SetText(n, v) => {
            let n = r.handles[*n];
            if let RK::Text(s) = &mut r.nodes[n].0 {
                *s = format!("set{}", VALS[*v]);
            }
        }
    }
}
fn dom_real(doc: &mut Document<'static>, h: &mut Vec<NodeId>, op: &Dom) {
    match op {
        Dom::Element => h.push(doc.create_element("b")),
        Dom::Text => h.push(doc.create_text("t")),
        Dom::Comment => h.push(doc.create_comment("c")),
        Dom::Append(p, c) => doc.append_child(h[*p], h[*c]),
        Dom::Before(s, c) => doc.insert_before(h[*s], h[*c]),
        Dom::After(s, c) => doc.insert_after(h[*s], h[*c]),
        Dom::Remove(n) => doc.remove(h[*n]),
        Dom::SetAttr(n, k, v) => doc.set_attr(h[*n], qual(KEYS[*k]), VALS[*v]),
        Dom::RemoveAttr(n, k) => doc.remove_attr(h[*n], &qual(KEYS[*k])),
        Dom::SetText(n, v) => doc.set_text(h[*n], format!("set{}", VALS[*v])),
    }
}
fn dom_case(r: &Ref, ops: &[Dom], base: &Base, obs: &mut Obs) -> Outcome {
    let say = |m: String| Fail::from(format!("{m}\n  after {ops:?}"));
    let (mut doc, mut h) = base();
    for op in ops {
        mc_core::guarded(|| dom_real(&mut doc, &mut h, op)).map_err(|e| say(format!("panic: {e}")))?;
    }
    obs.step(ops.len() as u64);
    obs.trace();
    obs.nontrivial();
    // Handles and node ids correspond; every question has the reference's answer.
    let id = |n: usize| h[r.handles.iter().position(|x| *x == n).unwrap()];
    for (i, n) in r.handles.iter().enumerate() {
        let (_, parent, kids) = &r.nodes[*n];
        let x = h[i];
        let kid_ids: Vec<NodeId> = kids.iter().map(|k| id(*k)).collect();
        if i > 0 {
            let (want, at) = match parent {
                Some(p) => (Some(id(*p)), r.nodes[*p].2.iter().position(|c| c == n)),
                None => (None, None),
            };
            let sib = |k: Option<usize>| k.and_then(|k| parent.and_then(|p| r.nodes[p].2.get(k).map(|c| id(*c))));
            if doc.parent(x) != want {
                return Err(say(format!("parent of {i}")));
            }
            if doc.next_sibling(x) != sib(at.map(|a| a + 1)) || doc.prev_sibling(x) != sib(at.and_then(|a| a.checked_sub(1))) {
                return Err(say(format!("siblings of {i}")));
            }
        }
        if doc.children(x).collect::<Vec<_>>() != kid_ids || doc.child_count(x) != kids.len() {
            return Err(say(format!("children of {i}: {}", show(&[read_node(&doc, x).unwrap()]))));
        }
        if doc.first_child(x) != kid_ids.first().copied() || doc.last_child(x) != kid_ids.last().copied() {
            return Err(say(format!("first and last child of {i}")));
        }
        let got = read_node(&doc, x).unwrap();
        if got != r.tree(*n) {
            return Err(say(format!("node {i} is {} instead of {}", show(&[got]), show(&[r.tree(*n)]))));
        }
        obs.state(format!("{got:?}").as_bytes());
    }
    // The document as a whole is untouched.
    if doc.head().is_none() || doc.body() != Some(h[0]) || doc.doctype.is_some() {
        return Err(say("head, body or doctype".into()));
    }
    if doc.to_body_html() != doc.serialize_inner_html(h[0]) {
        return Err(say("body html".into()));
    }
    // A copy is independent.
    let before = doc.to_html();
    let mut copy = doc.clone();
    for x in copy.children(h[0]).collect::<Vec<_>>() {
        copy.remove(x);
    }
    copy.set_attr(h[0], qual("id"), "copy");
    if doc.to_html() != before {
        return Err(say("changing a copy changes the document".into()));
    }
    Ok(())
}
type Base = dyn Fn() -> (Document<'static>, Vec<NodeId>) + Send + Sync;
fn dom_base(which: usize) -> (Ref, Box<Base>) {
    let li = |i: usize| ela("li", &[("id", &format!("i{i}"))], vec![tx(&format!("t{i}"))]);
    let f = match which {
        0 => vec![],
        1 => vec![ela("p", &[("id", "0")], vec![tx("x")]), cm("y")],
        // a list, a nested one, a long one, a deep document
        2 => vec![ela("ul", &[], (0..5).map(li).collect()), tx("x")],
        3 => vec![ela("div", &[], vec![ela("ul", &[("id", "u")], vec![li(0), cm("c"), li(1)]), tx("x")]), ela("p", &[], vec![])],
        4 => vec![ela("ul", &[], (0..35).map(li).collect())],
        _ => (0..40).fold(vec![tx("end")], |k, i| vec![ela(if i % 2 == 0 { "div" } else { "b" }, &[], k), cm(&format!("c{i}"))]),
    };
    let mut r = Ref { nodes: vec![(RK::El("body".into(), vec![]), None, vec![])], handles: vec![0], doctype: None, input: String::new() };
    fn load(r: &mut Ref, p: usize, t: &T) {
        let n = match t {
            T::Text(s) => r.new_node(RK::Text(s.clone())),
            T::Comment(s) => r.new_node(RK::Comment(s.clone())),
            T::El(e) => r.new_node(RK::El(e.tag.clone(), e.attrs.clone())),
        };
        r.handles.push(n);
        r.nodes[n].1 = Some(p);
        r.nodes[p].2.push(n);
        for k in t.kids() {
            load(r, n, k);
        }
    }
    for t in &f {
        load(&mut r, 0, t);
    }
    let base = Box::new(move || {
        let d = build(&doc(f.clone()));
        let body = d.body().unwrap();
        let h: Vec<NodeId> = body.descendants(&d.arena).collect();
        (d, h)
    });
    (r, base)
}
fn dom_explore(r: &Ref, ops: &mut Vec<Dom>, base: &Base, depth: usize, max: usize, obs: &mut Obs) -> Outcome {
    dom_case(r, ops, base, obs)?;
    if depth == 0 {
        return Ok(());
    }
    for op in dom_menu(r, max) {
        let mut r2 = r.clone();
        dom_apply(&mut r2, &op);
        ops.push(op);
        dom_explore(&r2, ops, base, depth - 1, max, obs)?;
        ops.pop();
    }
    Ok(())
}
fn dom_family(name: &str, which: usize, depth: usize, max: usize) -> Family {
    let (r, base) = dom_base(which);
    let mut prefixes: Vec<(Ref, Vec<Dom>)> = vec![];
    for a in dom_menu(&r, max) {
        let mut r1 = r.clone();
        dom_apply(&mut r1, &a);
        for b in dom_menu(&r1, max) {
            let mut r2 = r1.clone();
            dom_apply(&mut r2, &b);
            prefixes.push((r2, vec![a.clone(), b]));
        }
    }
    let list = Arc::new(prefixes);
    let l2 = list.clone();
    Family::new(
        name,
        format!("all sequences of {depth} document operations on up to {max} nodes"),
        list.len() as u64,
        move |i| format!("{:?} and every continuation", l2[i as usize].1),
        move |i, obs| {
            let (r, o) = &list[i as usize];
            dom_explore(r, &mut o.clone(), &*base, depth - 2, max, obs)
        },
    )
}
/// Every single operation on a larger document, and what may follow it.
fn dom_large(name: &str, which: usize, depth: usize, what: &str) -> Family {
    let (r, base) = dom_base(which);
    let max = r.handles.len() + 1;
    let list = Arc::new(dom_menu(&r, max));
    let l2 = list.clone();
    Family::new(
        name,
        format!("all sequences of {depth} document operations on {what}"),
        list.len() as u64,
        move |i| format!("{:?} and every continuation", l2[i as usize]),
        move |i, obs| {
            let mut r = r.clone();
            dom_apply(&mut r, &list[i as usize]);
            dom_explore(&r, &mut vec![list[i as usize].clone()], &*base, depth - 1, max, obs)
        },
    )
}
/// Elements with n attributes: every two changes of attributes, in two namespaces.
fn dom_attrs(name: &str, sizes: &'static [usize], depth: usize) -> Family {
    // (number of attributes, changes); change 2k sets the k-th name, 2k + 1 removes it
    let mut list: Vec<(usize, Vec<usize>)> = vec![];
    for n in sizes {
        for w in words(depth, 2 * (n + 2)) {
            list.push((*n, w));
        }
    }
    let list = Arc::new(list);
    let l2 = list.clone();
    let key = |k: usize| if k % 3 == 2 { format!("xlink:a{}", k - 1) } else { format!("a{k}") };
    Family::new(
        name,
        format!("an element with n attributes (n of {sizes:?}), every sequence of {depth} changes of any of them or of new ones, in two namespaces"),
        list.len() as u64,
        move |i| format!("{:?}", l2[i as usize]),
        move |i, obs| {
            let (n, w) = &list[i as usize];
            let mut want: Vec<(String, String)> = (0..*n).map(|k| (key(k), format!("v{k}"))).collect();
            let pairs: Vec<(&str, &str)> = want.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
            let mut d = build(&doc(vec![ela("p", &pairs, vec![tx("x")]), ela("p", &pairs, vec![])]));
            let body = d.body().unwrap();
            let (p, other) = (d.first_child(body).unwrap(), d.last_child(body).unwrap());
            let untouched = read_node(&d, other);
            for (step, c) in w.iter().enumerate() {
                let k = key(c / 2);
                if c % 2 == 0 {
                    let v = format!("new{step}");
                    d.set_attr(p, qual(&k), v.clone());
                    match want.iter_mut().find(|x| x.0 == k) {
                        Some(x) => x.1 = v,
                        None => want.push((k, v)),
                    }
                } else {
                    d.remove_attr(p, &qual(&k));
                    want.retain(|x| x.0 != k);
                }
                let T::El(e) = read_node(&d, p).unwrap() else { return Err(Fail::from("not an element".to_string())) };
                ensure!(e.attrs == want, "after {step} more: attributes {:?} instead of {want:?}", e.attrs);
                obs.step(1);
            }
            ensure!(read_node(&d, other) == untouched && d.child_count(p) == 1, "something else changed: {}", d.to_html());
            obs.state(format!("{want:?}").as_bytes());
            obs.trace();
            obs.nontrivial();
            Ok(())
        },
    )
}
pub fn h12_families(t: Tier) -> Vec<Family> {
    vec![
        dom_family("dom-empty", 0, t.pick(5, 6), 4),
        dom_family("dom-small", 1, 4, 5),
        dom_large("dom-list", 2, 2, "a list of five items"),
        dom_large("dom-nested", 3, t.pick(2, 3), "a nested document"),
        dom_large("dom-long", 4, 1, "a list of 35 items"),
        dom_large("dom-deep", 5, 1, "a document of 40 levels"),
        dom_attrs("dom-attrs", &[0, 1, 2, 7, 8, 9, 16, 17, 33], 2),
        dom_attrs("dom-attrs-3", &[0, 1, 2, 5], t.pick(3, 4)),
    ]
}

// ------------------------------------------------------------------ H13

fn hash_of<X: Hash + ?Sized>(x: &X) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn stem_agrees(s: &Stem, want: &str) -> Outcome {
    ensure!(s.as_str() == want && s.as_ref() == want && &**s == want, "holds {:?} instead of {want:?}", s.as_str());
    ensure!(s.len() == want.len() && s.is_empty() == want.is_empty(), "length {} of {want:?}", s.len());
    ensure!(s.to_string() == want && format!("{s:?}") == format!("{want:?}"), "shown as {s} / {s:?}");
    let b: &str = s.borrow();
    ensure!(b == want && hash_of(s) == hash_of(want), "as a key: {b:?}");
    ensure!(*s == *want && *s == want, "not equal to {want:?}");
    Ok(())
}
fn stem_case(list: &[String], w: &[usize], obs: &mut Obs) -> Outcome {
    let first = &list[w[0]];
    let mut want = first.clone();
    let t = StrTendril::from(first.as_str());
    let mut all: Vec<Stem> = vec![
        Stem::from(first.as_str()),
        Stem::from(first.clone()),
        Stem::from(t.clone()),
        Stem::from(&t),
        Stem::from(first.as_str()).into_owned(),
        {
            let mut s = Stem::new();
            s.push_str(first);
            s
        },
        {
            let mut s = Stem::default();
            s.push_tendril(&t);
            s
        },
    ];
    for i in 0..w.len() {
        if i > 0 {
            let keep = all.clone();
            let old = want.clone();
            want.push_str(&list[w[i]]);
            for (j, s) in all.iter_mut().enumerate() {
                if j % 2 == 0 { s.push_str(&list[w[i]]) } else { s.push_tendril(&StrTendril::from(list[w[i]].as_str())) }
            }
            for s in &keep {
                stem_agrees(s, &old)?; // copies made before are not affected
            }
        }
        for s in &all {
            stem_agrees(s, &want)?;
            stem_agrees(&s.clone().into_owned(), &want)?;
            obs.step(1);
        }
        for (a, x) in all.iter().enumerate() {
            for y in &all[a..] {
                ensure!(x == y && hash_of(x) == hash_of(y), "equal strings differ: {x:?}, {y:?}");
            }
        }
        let map: std::collections::HashMap<Stem, usize> = all.iter().cloned().enumerate().map(|(i, s)| (s, i)).collect();
        ensure!(map.len() == 1 && map.contains_key(want.as_str()), "as map keys: {} entries", map.len());
        for o in list {
            ensure!(all.iter().all(|s| (*s == **o) == (want == *o)), "compared with {o:?}");
        }
    }
    // Owned strings outlive what they came from.
    let kept: Stem<'static> = {
        let short = want.clone();
        Stem::from(short.as_str()).into_owned()
    };
    stem_agrees(&kept, &want)?;
    obs.state(want.as_bytes());
    obs.trace();
    obs.nontrivial();
    Ok(())
}
/// Long strings, which cross the sizes where representations change.
fn long_stems() -> Family {
    let sizes = [0usize, 1, 2, 3, 8, 23, 254, 255, 256, 257, 1023, 4095, 65534, 65535, 65536, 65537, 100_000];
    let list: Vec<String> = sizes.iter().enumerate().map(|(i, n)| ["a", "\u{e9}"][i % 2].chars().cycle().take(*n).collect()).collect();
    let ws = words(2, list.len());
    let (l, l2) = (list.clone(), ws.clone());
    Family::new(
        "long-stems",
        format!("all chains of two strings of {sizes:?} characters from every kind of start"),
        ws.len() as u64,
        move |i| format!("{:?}", l2[i as usize].iter().map(|k| sizes[*k]).collect::<Vec<_>>()),
        move |i, obs| stem_case(&l, &ws[i as usize], obs),
    )
}
pub fn h13_families(t: Tier) -> Vec<Family> {
    let mut list: Vec<String> = [0, 1, 7, 22, 23, 24, 25, 64].iter().map(|n| "abcdefgh".chars().cycle().take(*n).collect()).collect();
    list.extend(["\u{e9}".to_string(), "\u{1f600}".to_string(), "\u{e9}".repeat(12), "\0".to_string(), " ".repeat(24)]);
    if t == Tier::Thorough {
        list.extend(["z".repeat(255), "y".repeat(257)]);
    }
    let len = t.pick(3, 4);
    let ws = words(len, list.len());
    let (a, b) = (Arc::new((list, ws)), 0);
    let _ = b;
    let a2 = a.clone();
    vec![Family::new(
        "stems",
        format!("all chains of {len} strings (lengths around the inline limit, multi-byte, NUL) from every kind of start"),
        a.1.len() as u64,
        move |i| format!("{:?}", a2.1[i as usize].iter().map(|k| &a2.0[*k]).collect::<Vec<_>>()),
        move |i, obs| stem_case(&a.0, &a.1[i as usize], obs),
    ), long_stems()]
}
