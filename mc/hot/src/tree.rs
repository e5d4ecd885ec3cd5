//! Reference documents: plain trees, conversions to and from `hotmeal::Document`
//! and the browser DOM, and the enumerations the checks run over.

use hotmeal::{Document, Namespace, NodeId, NodeKind, QualName};
use html5ever::{LocalName, Prefix};
use mc_core::trees::shapes;
use wasm_bindgen::JsCast;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub enum Ns {
    #[default]
    Html,
    Svg,
    Math,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    El(E),
    Text(String),
    Comment(String),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct E {
    pub tag: String,
    pub ns: Ns,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<T>,
}
/// A document: optional doctype, head content, optional body.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct D {
    pub doctype: Option<String>,
    pub head: Vec<T>,
    pub body_attrs: Vec<(String, String)>,
    pub body: Option<Vec<T>>,
}

pub const OPAQUE: &str = "data-hotmeal-opaque";

pub fn el(tag: &str, kids: Vec<T>) -> T {
    T::El(E { tag: tag.into(), kids, ..E::default() })
}
pub fn ela(tag: &str, attrs: &[(&str, &str)], kids: Vec<T>) -> T {
    T::El(E {
        tag: tag.into(),
        ns: Ns::Html,
        attrs: attrs.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
        kids,
    })
}
pub fn foreign(ns: Ns, tag: &str, attrs: &[(&str, &str)], kids: Vec<T>) -> T {
    let T::El(mut e) = ela(tag, attrs, kids) else { unreachable!() };
    e.ns = ns;
    T::El(e)
}
pub fn tx(s: &str) -> T {
    T::Text(s.into())
}
pub fn cm(s: &str) -> T {
    T::Comment(s.into())
}
pub fn doc(body: Vec<T>) -> D {
    D { body: Some(body), ..D::default() }
}

impl T {
    pub fn kids(&self) -> &[T] {
        match self {
            T::El(e) => &e.kids,
            _ => &[],
        }
    }
    pub fn is_opaque(&self) -> bool {
        matches!(self, T::El(e) if e.attrs.iter().any(|(k, _)| k == OPAQUE))
    }
}

/// The same forest without empty text nodes (placeholders are invisible).
pub fn strip(f: &[T]) -> Vec<T> {
    f.iter()
        .filter(|t| !matches!(t, T::Text(s) if s.is_empty()))
        .map(|t| match t {
            T::El(e) => T::El(E { kids: strip(&e.kids), ..e.clone() }),
            o => o.clone(),
        })
        .collect()
}
/// The same forest with every element in the HTML namespace.
pub fn flatten_ns(f: &[T]) -> Vec<T> {
    f.iter()
        .map(|t| match t {
            T::El(e) => T::El(E { ns: Ns::Html, kids: flatten_ns(&e.kids), ..e.clone() }),
            o => o.clone(),
        })
        .collect()
}
/// Browsers keep attributes by name: order is not part of the comparison.
pub fn sort_attrs(f: &[T]) -> Vec<T> {
    f.iter()
        .map(|t| match t {
            T::El(e) => {
                let mut e = e.clone();
                e.attrs.sort();
                e.kids = sort_attrs(&e.kids);
                T::El(e)
            }
            o => o.clone(),
        })
        .collect()
}

pub fn show(f: &[T]) -> String {
    let mut o = String::new();
    for t in f {
        match t {
            T::Text(s) if s.is_empty() => o.push('·'),
            T::Text(s) => {
                o.push('"');
                o.push_str(s);
                o.push('"');
            }
            T::Comment(s) => {
                o.push_str("<!--");
                o.push_str(s);
                o.push_str("-->");
            }
            T::El(e) => {
                o.push('<');
                match e.ns {
                    Ns::Html => {}
                    Ns::Svg => o.push_str("svg|"),
                    Ns::Math => o.push_str("math|"),
                }
                o.push_str(&e.tag);
                for (k, v) in &e.attrs {
                    o.push_str(&format!(" {k}={v:?}"));
                }
                o.push('>');
                o.push_str(&show(&e.kids));
                o.push_str("</>");
            }
        }
    }
    o
}
pub fn show_doc(d: &D) -> String {
    let mut o = String::new();
    if let Some(t) = &d.doctype {
        o.push_str(&format!("<!doctype {t}>"));
    }
    if !d.head.is_empty() {
        o.push_str(&format!("<head>{}</head>", show(&d.head)));
    }
    if !d.body_attrs.is_empty() {
        o.push_str(&format!("<body {:?}>", d.body_attrs));
    }
    match &d.body {
        None => o.push_str("(no body)"),
        Some(b) => o.push_str(&show(b)),
    }
    o
}

// ---------------------------------------------------------------- hotmeal

/// The namespace an attribute name suggests.
fn attr_ns(name: &str) -> &'static str {
    match name.split_once(':') {
        Some(("xlink", _)) => "http://www.w3.org/1999/xlink",
        Some(("xml", _)) => "http://www.w3.org/XML/1998/namespace",
        Some(("xmlns", _)) => XMLNS,
        None if name == "xmlns" => XMLNS,
        _ => "",
    }
}
const XMLNS: &str = "http://www.w3.org/2000/xmlns/";
/// Attribute names: `xlink:href`, `xmlns` and the like are in the namespaces
/// they suggest; `|xlink:href` is not.
pub fn qual(name: &str) -> QualName {
    let ns = |u: &str| html5ever::Namespace::from(u);
    if let Some(n) = name.strip_prefix('|') {
        return QualName::new(None, ns(""), LocalName::from(n));
    }
    match (attr_ns(name), name.split_once(':')) {
        ("", _) | (_, None) => QualName::new(None, ns(attr_ns(name)), LocalName::from(name)),
        (u, Some((p, l))) => QualName::new(Some(Prefix::from(p)), ns(u), LocalName::from(l)),
    }
}
pub fn name_of(q: &QualName) -> String {
    let n = match q.prefix.as_ref() {
        Some(p) => format!("{}:{}", &**p, &*q.local),
        None => q.local.to_string(),
    };
    match &*q.ns {
        u if u == attr_ns(&n) => n,
        "" => format!("|{n}"),
        u => format!("{{{u}}}{n}"),
    }
}
fn ns_to(n: Ns) -> Namespace {
    match n {
        Ns::Html => Namespace::Html,
        Ns::Svg => Namespace::Svg,
        Ns::Math => Namespace::MathMl,
    }
}

pub fn add(doc: &mut Document<'static>, parent: NodeId, t: &T) -> NodeId {
    let id = create(doc, t);
    doc.append_child(parent, id);
    id
}
pub fn create(doc: &mut Document<'static>, t: &T) -> NodeId {
    match t {
        T::Text(s) => doc.create_text(s.clone()),
        T::Comment(s) => doc.create_comment(s.clone()),
        T::El(e) => {
            let id = doc.create_element(e.tag.as_str());
            doc.get_mut(id).ns = ns_to(e.ns);
            for (k, v) in &e.attrs {
                doc.set_attr(id, qual(k), v.clone());
            }
            for k in &e.kids {
                add(doc, id, k);
            }
            id
        }
    }
}
pub fn build(d: &D) -> Document<'static> {
    let mut doc = Document::new();
    doc.doctype = d.doctype.clone().map(|s| s.into());
    let head = doc.head().expect("new document has a head");
    for t in &d.head {
        add(&mut doc, head, t);
    }
    let body = doc.body().expect("new document has a body");
    match &d.body {
        None => doc.remove(body),
        Some(f) => {
            for (k, v) in &d.body_attrs {
                doc.set_attr(body, qual(k), v.clone());
            }
            for t in f {
                add(&mut doc, body, t);
            }
        }
    }
    doc
}
pub fn read_node(doc: &Document, id: NodeId) -> Option<T> {
    let n = doc.get(id);
    Some(match &n.kind {
        NodeKind::Document => return None,
        NodeKind::Text(s) => T::Text(s.as_ref().to_string()),
        NodeKind::Comment(s) => T::Comment(s.as_ref().to_string()),
        NodeKind::Element(e) => T::El(E {
            tag: e.tag.to_string(),
            ns: match n.ns {
                Namespace::Html => Ns::Html,
                Namespace::Svg => Ns::Svg,
                Namespace::MathMl => Ns::Math,
            },
            attrs: e.attrs.iter().map(|(k, v)| (name_of(k), v.as_ref().to_string())).collect(),
            kids: id.children(&doc.arena).filter_map(|c| read_node(doc, c)).collect(),
        }),
    })
}
pub fn read(doc: &Document) -> D {
    let kids = |id: NodeId| id.children(&doc.arena).filter_map(|c| read_node(doc, c)).collect::<Vec<_>>();
    let body = doc.body();
    D {
        doctype: doc.doctype.as_ref().map(|s| s.as_ref().to_string()),
        head: doc.head().map(kids).unwrap_or_default(),
        body_attrs: match body.map(|b| &doc.get(b).kind) {
            Some(NodeKind::Element(e)) => {
                e.attrs.iter().map(|(k, v)| (name_of(k), v.as_ref().to_string())).collect()
            }
            _ => vec![],
        },
        body: body.map(kids),
    }
}

// ---------------------------------------------------------------- browser

pub fn ns_url(n: Ns) -> &'static str {
    match n {
        Ns::Html => "http://www.w3.org/1999/xhtml",
        Ns::Svg => "http://www.w3.org/2000/svg",
        Ns::Math => "http://www.w3.org/1998/Math/MathML",
    }
}
fn web_attr(n: &web_sys::Element, k: &str, v: &str) {
    let q = qual(k);
    web_sys::raw_attr(n, &q.ns, q.prefix.as_deref(), &q.local, v);
}
pub fn web_create(doc: &web_sys::Document, t: &T) -> web_sys::Node {
    match t {
        T::Text(s) => doc.create_text_node(s).into(),
        T::Comment(s) => doc.create_comment(s).into(),
        T::El(e) => {
            let n = web_sys::raw_element(ns_url(e.ns), &e.tag);
            for (k, v) in &e.attrs {
                web_attr(&n, k, v);
            }
            let holder: web_sys::Node = match n.dyn_ref::<web_sys::HtmlTemplateElement>() {
                Some(t) => t.content().into(),
                None => n.clone().into(),
            };
            for k in &e.kids {
                holder.append_child(&web_create(doc, k)).expect("append");
            }
            n.into()
        }
    }
}
/// Loads the document into this thread's browser DOM (fresh page).
pub fn web_load(d: &D) {
    web_sys::reset();
    let w = web_sys::window().unwrap().document().unwrap();
    let body = w.body().unwrap();
    for (k, v) in &d.body_attrs {
        web_attr(&body, k, v);
    }
    let head = w.head().unwrap();
    for t in &d.head {
        head.append_child(&web_create(&w, t)).unwrap();
    }
    for t in d.body.iter().flatten() {
        body.append_child(&web_create(&w, t)).unwrap();
    }
}
pub fn from_snap(s: &web_sys::Snap) -> T {
    match s {
        web_sys::Snap::Text(t) => T::Text(t.clone()),
        web_sys::Snap::Comment(t) => T::Comment(t.clone()),
        web_sys::Snap::Other(t) => panic!("unexpected node {t}"),
        web_sys::Snap::Element { ns, name, attrs, children } => T::El(E {
            tag: name.clone(),
            ns: if ns == ns_url(Ns::Svg) {
                Ns::Svg
            } else if ns == ns_url(Ns::Math) {
                Ns::Math
            } else {
                Ns::Html
            },
            attrs: attrs.clone(),
            kids: children.iter().map(from_snap).collect(),
        }),
    }
}
/// (head content, body attributes, body content) of this thread's browser DOM.
pub fn web_read() -> D {
    let w = web_sys::window().unwrap().document().unwrap();
    let snap = |n: &web_sys::Node| match from_snap(&web_sys::snapshot_of(n)) {
        T::El(e) => e,
        _ => unreachable!(),
    };
    let body = w.body().map(|b| snap(&b));
    D {
        doctype: None,
        head: w.head().map(|h| snap(&h).kids).unwrap_or_default(),
        body_attrs: body.as_ref().map(|b| b.attrs.clone()).unwrap_or_default(),
        body: body.map(|b| b.kids),
    }
}

// ---------------------------------------------------------------- enumeration

/// All forests of at most `n` nodes: element labels (attributes and tag, no
/// kids) anywhere, leaf labels only without children.
pub fn forests(n: usize, els: &[T], leaves: &[T]) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    let mut all: Vec<T> = els.to_vec();
    all.extend_from_slice(leaves);
    for k in 1..=n {
        for parent in shapes(k + 1) {
            let mut isleaf = vec![true; k + 1];
            for i in 1..=k {
                isleaf[parent[i]] = false;
            }
            let choices: Vec<&[T]> =
                (0..=k).map(|i| if i == 0 { &all[..1] } else if isleaf[i] { &all[..] } else { els }).collect();
            if choices.iter().any(|c| c.is_empty()) {
                continue;
            }
            let mut idx = vec![0usize; k + 1];
            'l: loop {
                out.push(assemble(&parent, &idx, &choices));
                let mut d = k + 1;
                loop {
                    if d == 0 {
                        break 'l;
                    }
                    d -= 1;
                    idx[d] += 1;
                    if idx[d] < choices[d].len() {
                        break;
                    }
                    idx[d] = 0;
                }
            }
        }
    }
    out
}
fn assemble(parent: &[usize], idx: &[usize], choices: &[&[T]]) -> Vec<T> {
    let k = parent.len();
    let mut kids: Vec<Vec<T>> = vec![vec![]; k];
    for i in (1..k).rev() {
        let mut t = choices[i][idx[i]].clone();
        let mut ks = std::mem::take(&mut kids[i]);
        ks.reverse();
        if let T::El(e) = &mut t {
            e.kids.extend(ks);
        }
        kids[parent[i]].push(t);
    }
    let mut f = std::mem::take(&mut kids[0]);
    f.reverse();
    f
}
/// Namespaces as the HTML parser assigns them.
pub fn natural_ns(f: &[T]) -> bool {
    fn go(f: &[T], ns: Ns, parent: &E) -> bool {
        let html = match ns {
            Ns::Html => true,
            Ns::Svg => matches!(parent.tag.as_str(), "foreignObject" | "desc" | "title"),
            Ns::Math => matches!(parent.tag.as_str(), "mi" | "mo" | "mn" | "ms" | "mtext"),
        };
        f.iter().all(|t| match t {
            T::El(e) => {
                let want = match e.tag.as_str() {
                    _ if !html => ns,
                    "svg" => Ns::Svg,
                    "math" => Ns::Math,
                    _ => Ns::Html,
                };
                e.ns == want && go(&e.kids, e.ns, e)
            }
            _ => true,
        })
    }
    go(f, Ns::Html, &E::default())
}
/// Text runs inside opaque regions travel as markup: adjacent texts merge there.
pub fn merge_opaque(f: &[T]) -> Vec<T> {
    fn go(f: &[T], inside: bool) -> Vec<T> {
        let mut out: Vec<T> = vec![];
        for t in f {
            match (t, out.last_mut()) {
                (T::Text(s), Some(T::Text(p))) if inside => p.push_str(s),
                (T::El(e), _) => out.push(T::El(E { kids: go(&e.kids, inside || t.is_opaque()), ..e.clone() })),
                (o, _) => out.push(o.clone()),
            }
        }
        out
    }
    go(f, false)
}
// ---------------------------------------------------------------- edits

fn get_mut<'t>(f: &'t mut Vec<T>, path: &[usize]) -> &'t mut Vec<T> {
    let mut cur = f;
    for i in path {
        cur = match &mut cur[*i] {
            T::El(e) => &mut e.kids,
            _ => unreachable!(),
        };
    }
    cur
}
/// Paths of all nodes (element kids lists are addressed by the parent path).
pub fn paths(f: &[T]) -> Vec<Vec<usize>> {
    fn go(f: &[T], at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        for (i, t) in f.iter().enumerate() {
            at.push(i);
            out.push(at.clone());
            go(t.kids(), at, out);
            at.pop();
        }
    }
    let mut out = vec![];
    go(f, &mut vec![], &mut out);
    out
}
/// Paths of all child lists (the forest itself is the empty path).
pub fn lists(f: &[T]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for p in paths(f) {
        if matches!(get(f, &p), Some(T::El(_))) {
            out.push(p);
        }
    }
    out
}
pub fn get<'t>(f: &'t [T], path: &[usize]) -> Option<&'t T> {
    let (first, rest) = path.split_first()?;
    let mut cur = f.get(*first)?;
    for i in rest {
        cur = cur.kids().get(*i)?;
    }
    Some(cur)
}
fn list_len(f: &[T], l: &[usize]) -> usize {
    if l.is_empty() { f.len() } else { get(f, l).unwrap().kids().len() }
}

/// Every forest one edit away: delete a subtree, insert each of `news` at every
/// place, move a subtree anywhere, replace a node by its children, wrap a node,
/// change a text, change attributes.
pub fn edits(f: &[T], news: &[T]) -> Vec<Vec<T>> {
    let mut out = vec![];
    let base = f.to_vec();
    for l in lists(f) {
        for i in 0..=list_len(f, &l) {
            for n in news {
                let mut g = base.clone();
                get_mut(&mut g, &l).insert(i, n.clone());
                out.push(g);
            }
        }
    }
    for p in paths(f) {
        let (last, parent) = p.split_last().unwrap();
        let node = get(f, &p).unwrap().clone();
        // delete
        let mut without = base.clone();
        get_mut(&mut without, parent).remove(*last);
        out.push(without.clone());
        // move anywhere in what remains
        for l in lists(&without) {
            for i in 0..=list_len(&without, &l) {
                let mut g = without.clone();
                get_mut(&mut g, &l).insert(i, node.clone());
                if g != base {
                    out.push(g);
                }
            }
        }
        // wrap
        let mut g = base.clone();
        get_mut(&mut g, parent)[*last] = el("section", vec![node.clone()]);
        out.push(g);
        // swap with the next sibling's place of the parent list reversed
        let mut g = base.clone();
        get_mut(&mut g, parent).reverse();
        out.push(g);
        match &node {
            T::El(e) => {
                // unwrap
                let mut g = base.clone();
                let l = get_mut(&mut g, parent);
                l.splice(*last..=*last, e.kids.iter().cloned());
                out.push(g);
                // attributes
                let mut variants: Vec<Vec<(String, String)>> = vec![vec![]];
                if !e.attrs.iter().any(|(k, _)| k == "title") {
                    let mut v = e.attrs.clone();
                    v.push(("title".into(), "t".into()));
                    variants.push(v);
                }
                if !e.attrs.iter().any(|(k, _)| k == "lang") {
                    let mut v = e.attrs.clone();
                    v.insert(0, ("lang".into(), "l".into()));
                    variants.push(v);
                }
                let mut v = e.attrs.clone();
                v.reverse();
                variants.push(v);
                if !e.attrs.is_empty() {
                    let mut v = e.attrs.clone();
                    v[0].1.push('2');
                    variants.push(v);
                    let mut v = e.attrs.clone();
                    v.remove(0);
                    variants.push(v);
                }
                for a in variants {
                    if a != e.attrs {
                        let mut g = base.clone();
                        let mut ne = e.clone();
                        ne.attrs = a;
                        get_mut(&mut g, parent)[*last] = T::El(ne);
                        out.push(g);
                    }
                }
                // rename
                let mut g = base.clone();
                let mut ne = e.clone();
                ne.tag = "h1".into();
                get_mut(&mut g, parent)[*last] = T::El(ne);
                out.push(g);
            }
            T::Text(s) => {
                for n in [T::Text(format!("{s}!")), T::Text("other".into()), T::Comment(s.clone()), T::Text(String::new())] {
                    let mut g = base.clone();
                    get_mut(&mut g, parent)[*last] = n;
                    out.push(g);
                }
            }
            T::Comment(s) => {
                for n in [T::Comment(format!("{s}!")), T::Text(s.clone())] {
                    let mut g = base.clone();
                    get_mut(&mut g, parent)[*last] = n;
                    out.push(g);
                }
            }
        }
    }
    out.retain(|g| *g != base);
    out.sort();
    out.dedup();
    out
}

/// Markup for a forest, for parsers (all text escaped; raw-text elements raw).
pub fn markup(f: &[T]) -> String {
    markup_in(None, f)
}
/// The same for the content of an element.
pub fn markup_in(parent: Option<&E>, f: &[T]) -> String {
    fn is_raw(e: &E) -> bool {
        e.ns == Ns::Html && matches!(e.tag.as_str(), "script" | "style" | "noscript" | "iframe" | "xmp" | "noembed" | "noframes" | "plaintext")
    }
    let mut o = String::new();
    fn esc(s: &str) -> String {
        s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
    }
    fn go(f: &[T], raw: bool, o: &mut String) {
        for t in f {
            match t {
                T::Text(s) => o.push_str(&if raw { s.clone() } else { esc(s) }),
                T::Comment(s) => o.push_str(&format!("<!--{s}-->")),
                T::El(e) => {
                    o.push_str(&format!("<{}", e.tag));
                    for (k, v) in &e.attrs {
                        o.push_str(&format!(" {}=\"{}\"", k.trim_start_matches('|'), esc(v)));
                    }
                    o.push('>');
                    if e.ns == Ns::Html && html5ever::parser::is_void(&e.tag) {
                        continue;
                    }
                    // The parser drops a newline at the start of these.
                    if e.ns == Ns::Html
                        && matches!(e.tag.as_str(), "pre" | "listing" | "textarea")
                        && matches!(e.kids.first(), Some(T::Text(s)) if s.starts_with('\n'))
                    {
                        o.push('\n');
                    }
                    go(&e.kids, is_raw(e), o);
                    o.push_str(&format!("</{}>", e.tag));
                }
            }
        }
    }
    go(f, parent.is_some_and(is_raw), &mut o);
    o
}
