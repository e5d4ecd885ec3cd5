//! The DOM behind the handles: one document per thread.
use html5ever::tendril::{StrTendril, TendrilSink};
use html5ever::tree_builder::{ElemName, ElementFlags, NodeOrText, QuirksMode, TreeSink};
use html5ever::{Attribute, LocalName, Namespace, QualName};
use std::borrow::Cow;
use std::cell::RefCell;
use wasm_bindgen::JsValue;

pub const HTML: &str = "http://www.w3.org/1999/xhtml";
pub const XLINK: &str = "http://www.w3.org/1999/xlink";
pub const XML: &str = "http://www.w3.org/XML/1998/namespace";
pub const XMLNS: &str = "http://www.w3.org/2000/xmlns/";

/// An attribute: namespace (empty: none), qualified name, value.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct At {
    pub ns: String,
    pub name: String,
    pub value: String,
    /// Length of the prefix and its colon.
    pub skip: usize,
}
impl At {
    pub fn local(&self) -> &str {
        &self.name[self.skip..]
    }
    /// The name, marked when it is not in the namespace the name suggests.
    fn shown(&self) -> String {
        let usual = match self.name.split_once(':') {
            Some(("xlink", _)) => XLINK,
            Some(("xml", _)) => XML,
            Some(("xmlns", _)) => XMLNS,
            None if self.name == "xmlns" => XMLNS,
            _ => "",
        };
        match self.ns.as_str() {
            n if n == usual => self.name.clone(),
            "" => format!("|{}", self.name),
            n => format!("{{{n}}}{}", self.name),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    Document,
    Fragment,
    Doctype(String),
    Element {
        ns: String,
        html: bool,
        name: String,
        attrs: Vec<At>,
        template: Option<u32>,
    },
    Text(String),
    Comment(String),
}
struct Data {
    kind: Kind,
    parent: Option<u32>,
    children: Vec<u32>,
}
/// One dispatched event.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EventRecord {
    pub ty: String,
    pub target: u32,
    /// Child indices from the tree root to the target.
    pub path: Vec<usize>,
    pub bubbles: bool,
    pub content: Option<String>,
    pub key: Option<String>,
    pub element: Option<u32>,
}
#[derive(Default)]
pub struct Dom {
    nodes: Vec<Data>,
    pub events: Vec<EventRecord>,
    pub logged: usize,
    /// `/` when not set
    pub path: Option<String>,
    pub reloads: usize,
    ops: usize,
}
/// A copied-out subtree.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Snap {
    Element { ns: String, name: String, attrs: Vec<(String, String)>, children: Vec<Snap> },
    Text(String),
    Comment(String),
    Other(String),
}

thread_local! {
    static DOM: RefCell<Dom> = RefCell::new(Dom::new());
}
pub fn with<R>(f: impl FnOnce(&mut Dom) -> R) -> R {
    DOM.with(|d| f(&mut d.borrow_mut()))
}

/// Fresh document `<html><head></head><body></body></html>`; forgets all nodes,
/// events and counters.
pub fn reset() {
    with(|d| *d = Dom::new());
}
/// Replace the document by the parse of `html`.
pub fn load(html: &str) {
    with(|d| *d = Dom { nodes: vec![Data { kind: Kind::Document, parent: None, children: vec![] }], ..Dom::default() });
    let p = html5ever::parse_document(Sink { doc: 0 }, Default::default());
    p.one(StrTendril::from(html));
}
/// Replace the content of the body of a fresh document.
pub fn load_fragment(html: &str) {
    reset();
    let b = with(|d| d.body()).unwrap();
    set_inner_html(b, html);
}
pub fn events() -> Vec<EventRecord> {
    with(|d| d.events.clone())
}
/// Sets `location.pathname`.
pub fn navigate(path: &str) {
    with(|d| d.path = Some(path.into()));
}
pub fn reloads() -> usize {
    with(|d| d.reloads)
}
pub fn console_log() -> usize {
    with(|d| d.logged)
}
/// (nodes allocated, tree mutations)
pub fn stats() -> (usize, usize) {
    with(|d| (d.nodes.len(), d.ops))
}
pub fn snapshot() -> Option<Snap> {
    with(|d| d.html().map(|h| d.snap(h)))
}
pub fn snapshot_of(n: &crate::Node) -> Snap {
    let id = crate::node_id(n);
    with(|d| d.snap(id))
}

fn err<T>(name: &'static str, m: &str) -> Result<T, JsValue> {
    Err(JsValue::error(name, m))
}
fn name_start(c: char) -> bool {
    matches!(c, ':' | '_' | 'A'..='Z' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
        | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
        | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
        | '\u{10000}'..='\u{EFFFF}')
}
pub fn check_name(n: &str) -> Result<(), JsValue> {
    if is_name(n) { Ok(()) } else { err("InvalidCharacterError", &format!("'{n}' is not a valid name.")) }
}
fn is_name(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(name_start)
        && c.all(|c| {
            name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
        })
}

impl Dom {
    fn new() -> Self {
        let mut d = Dom { nodes: vec![Data { kind: Kind::Document, parent: None, children: vec![] }], ..Dom::default() };
        let html = d.create_element(HTML, "html").unwrap();
        d.insert(0, html, None).unwrap();
        for n in ["head", "body"] {
            let e = d.create_element(HTML, n).unwrap();
            d.insert(html, e, None).unwrap();
        }
        d
    }
    pub fn kind(&self, i: u32) -> &Kind {
        &self.nodes[i as usize].kind
    }
    pub fn parent(&self, i: u32) -> Option<u32> {
        self.nodes[i as usize].parent
    }
    pub fn children(&self, i: u32) -> &[u32] {
        &self.nodes[i as usize].children
    }
    pub fn sibling(&self, i: u32, by: isize) -> Option<u32> {
        let p = self.parent(i)?;
        let at = self.index(p, i) as isize + by;
        if at < 0 { None } else { self.children(p).get(at as usize).copied() }
    }
    fn index(&self, p: u32, c: u32) -> usize {
        self.children(p).iter().position(|x| *x == c).expect("child of its parent")
    }
    pub fn root_of(&self, mut i: u32) -> u32 {
        while let Some(p) = self.parent(i) {
            i = p;
        }
        i
    }
    pub fn path(&self, mut i: u32) -> Vec<usize> {
        let mut v = vec![];
        while let Some(p) = self.parent(i) {
            v.push(self.index(p, i));
            i = p;
        }
        v.reverse();
        v
    }
    pub fn is_inclusive_ancestor(&self, a: u32, mut i: u32) -> bool {
        loop {
            if a == i {
                return true;
            }
            match self.parent(i) {
                Some(p) => i = p,
                None => return false,
            }
        }
    }
    pub fn push(&mut self, kind: Kind) -> u32 {
        self.nodes.push(Data { kind, parent: None, children: vec![] });
        (self.nodes.len() - 1) as u32
    }
    pub fn detach(&mut self, i: u32) {
        if let Some(p) = self.parent(i) {
            self.ops += 1;
            let at = self.index(p, i);
            self.nodes[p as usize].children.remove(at);
            self.nodes[i as usize].parent = None;
        }
    }
    fn check(&self, parent: u32, node: u32, child: Option<u32>) -> Result<(), JsValue> {
        if !matches!(self.kind(parent), Kind::Document | Kind::Fragment | Kind::Element { .. }) {
            return err("HierarchyRequestError", "This node type does not support this method.");
        }
        if self.is_inclusive_ancestor(node, parent) {
            return err("HierarchyRequestError", "The new child element contains the parent.");
        }
        if let Some(c) = child
            && self.parent(c) != Some(parent)
        {
            return err("NotFoundError", "The node before which the new node is to be inserted is not a child of this node.");
        }
        if matches!(self.kind(node), Kind::Document | Kind::Doctype(_)) {
            return err("HierarchyRequestError", "Nodes of this type may not be inserted here.");
        }
        Ok(())
    }
    fn place(&mut self, parent: u32, node: u32, before: Option<u32>) {
        self.ops += 1;
        if matches!(self.kind(node), Kind::Fragment) {
            let kids = std::mem::take(&mut self.nodes[node as usize].children);
            for k in kids {
                self.nodes[k as usize].parent = None;
                self.place(parent, k, before);
            }
            return;
        }
        self.detach(node);
        let at = before.map_or(self.children(parent).len(), |b| self.index(parent, b));
        self.nodes[parent as usize].children.insert(at, node);
        self.nodes[node as usize].parent = Some(parent);
    }
    pub fn insert(&mut self, parent: u32, node: u32, before: Option<u32>) -> Result<(), JsValue> {
        self.check(parent, node, before)?;
        let before = if before == Some(node) { self.sibling(node, 1) } else { before };
        self.place(parent, node, before);
        Ok(())
    }
    pub fn replace(&mut self, parent: u32, node: u32, child: u32) -> Result<(), JsValue> {
        self.check(parent, node, Some(child))?;
        let mut next = self.sibling(child, 1);
        if next == Some(node) {
            next = self.sibling(node, 1);
        }
        self.detach(child);
        self.place(parent, node, next);
        Ok(())
    }
    pub fn text_content(&self, i: u32) -> Option<String> {
        match self.kind(i) {
            Kind::Document | Kind::Doctype(_) => None,
            Kind::Text(s) | Kind::Comment(s) => Some(s.clone()),
            _ => {
                let mut o = String::new();
                self.collect(i, &mut o);
                Some(o)
            }
        }
    }
    fn collect(&self, i: u32, o: &mut String) {
        for c in self.children(i) {
            match self.kind(*c) {
                Kind::Text(s) => o.push_str(s),
                Kind::Element { .. } => self.collect(*c, o),
                _ => {}
            }
        }
    }
    pub fn set_text_content(&mut self, i: u32, v: &str) {
        self.ops += 1;
        match &mut self.nodes[i as usize].kind {
            Kind::Text(s) | Kind::Comment(s) => *s = v.into(),
            Kind::Document | Kind::Doctype(_) => {}
            _ => {
                for c in self.children(i).to_vec() {
                    self.detach(c);
                }
                if !v.is_empty() {
                    let t = self.push(Kind::Text(v.into()));
                    self.place(i, t, None);
                }
            }
        }
    }
    pub fn create_element(&mut self, ns: &str, name: &str) -> Result<u32, JsValue> {
        if !is_name(name) {
            return err("InvalidCharacterError", "The tag name provided is not a valid name.");
        }
        Ok(self.element(ns, name, vec![]))
    }
    pub fn element(&mut self, ns: &str, name: &str, attrs: Vec<At>) -> u32 {
        let html = ns == HTML;
        let template = (html && name == "template").then(|| self.push(Kind::Fragment));
        self.push(Kind::Element { ns: ns.into(), html, name: name.into(), attrs, template })
    }
    pub fn tag_name(&self, i: u32) -> String {
        match self.kind(i) {
            Kind::Element { html: true, name, .. } => name.to_ascii_uppercase(),
            Kind::Element { name, .. } => name.clone(),
            _ => unreachable!("not an element"),
        }
    }
    pub fn attrs(&self, i: u32) -> &[At] {
        match self.kind(i) {
            Kind::Element { attrs, .. } => attrs,
            _ => &[],
        }
    }
    pub fn attrs_mut(&mut self, i: u32) -> &mut Vec<At> {
        match &mut self.nodes[i as usize].kind {
            Kind::Element { attrs, .. } => attrs,
            k => panic!("attributes of {k:?}"),
        }
    }
    pub fn fold(&self, i: u32, n: &str) -> String {
        match self.kind(i) {
            Kind::Element { html: true, .. } => n.to_ascii_lowercase(),
            _ => n.to_string(),
        }
    }
    pub fn find_attr(&self, i: u32, n: &str) -> Option<At> {
        let n = self.fold(i, n);
        self.attrs(i).iter().find(|a| a.name == n).cloned()
    }
    pub fn find_attr_ns(&self, i: u32, ns: &str, local: &str) -> Option<At> {
        self.attrs(i).iter().find(|a| a.ns == ns && a.local() == local).cloned()
    }
    pub fn get_attr(&self, i: u32, n: &str) -> Option<String> {
        self.find_attr(i, n).map(|a| a.value)
    }
    pub fn set_attr(&mut self, i: u32, n: &str, v: &str) -> Result<(), JsValue> {
        if !is_name(n) {
            return err("InvalidCharacterError", &format!("'{n}' is not a valid attribute name."));
        }
        self.ops += 1;
        let n = self.fold(i, n);
        let attrs = self.attrs_mut(i);
        match attrs.iter_mut().find(|a| a.name == n) {
            Some(a) => a.value = v.into(),
            None => attrs.push(At { ns: String::new(), name: n, value: v.into(), skip: 0 }),
        }
        Ok(())
    }
    pub fn set_attr_ns(&mut self, i: u32, ns: &str, n: &str, v: &str) -> Result<(), JsValue> {
        if !is_name(n) || n.starts_with(':') || n.ends_with(':') || n.matches(':').count() > 1 {
            return err("InvalidCharacterError", &format!("'{n}' is not a valid qualified name."));
        }
        let prefix = n.split_once(':').map(|(p, _)| p);
        let xmlns = n == "xmlns" || prefix == Some("xmlns");
        if prefix.is_some() && ns.is_empty() || prefix == Some("xml") && ns != XML || xmlns != (ns == XMLNS) {
            return err("NamespaceError", &format!("'{n}' cannot be in the namespace '{ns}'."));
        }
        self.put_attr(i, At { ns: ns.into(), name: n.into(), value: v.into(), skip: prefix.map_or(0, |p| p.len() + 1) }, false);
        Ok(())
    }
    /// Adds an attribute or, if there is one with the same namespace and local
    /// name, replaces it (or only its value).
    pub fn put_attr(&mut self, i: u32, at: At, whole: bool) {
        self.ops += 1;
        let attrs = self.attrs_mut(i);
        match attrs.iter_mut().find(|a| a.ns == at.ns && a.local() == at.local()) {
            Some(a) if whole => *a = at,
            Some(a) => a.value = at.value,
            None => attrs.push(at),
        }
    }
    pub fn remove_attr(&mut self, i: u32, n: &str) {
        let n = self.fold(i, n);
        self.ops += 1;
        if let Some(k) = self.attrs(i).iter().position(|a| a.name == n) {
            self.attrs_mut(i).remove(k);
        }
    }
    pub fn remove_attr_ns(&mut self, i: u32, ns: &str, local: &str) -> Option<At> {
        self.ops += 1;
        let k = self.attrs(i).iter().position(|a| a.ns == ns && a.local() == local)?;
        Some(self.attrs_mut(i).remove(k))
    }
    pub fn clone_node(&mut self, i: u32, deep: bool) -> u32 {
        let kind = match self.kind(i).clone() {
            Kind::Element { ns, name, attrs, template, .. } => {
                let e = self.element(&ns, &name, attrs);
                if let (true, Some(t)) = (deep, template) {
                    let copy = self.clone_node(t, true);
                    if let Kind::Element { template, .. } = &mut self.nodes[e as usize].kind {
                        *template = Some(copy);
                    }
                }
                e
            }
            k => self.push(k),
        };
        if deep {
            for c in self.children(i).to_vec() {
                let k = self.clone_node(c, true);
                self.place(kind, k, None);
            }
        }
        kind
    }
    pub fn html(&self) -> Option<u32> {
        self.children(0).iter().copied().find(|c| matches!(self.kind(*c), Kind::Element { .. }))
    }
    pub fn html_child(&self, n: &str) -> Option<u32> {
        let h = self.html()?;
        self.children(h)
            .iter()
            .copied()
            .find(|c| matches!(self.kind(*c), Kind::Element { html: true, name, .. } if name == n))
    }
    pub fn body(&self) -> Option<u32> {
        self.html_child("body")
    }
    pub fn by_id(&self, id: &str) -> Option<u32> {
        self.walk(0, &mut |d, n| d.get_attr(n, "id").as_deref() == Some(id))
    }
    fn walk(&self, i: u32, f: &mut dyn FnMut(&Dom, u32) -> bool) -> Option<u32> {
        for c in self.children(i) {
            if matches!(self.kind(*c), Kind::Element { .. }) {
                if f(self, *c) {
                    return Some(*c);
                }
                if let Some(r) = self.walk(*c, f) {
                    return Some(r);
                }
            }
        }
        None
    }
    pub fn query(&self, i: u32, sel: &str) -> Result<Option<u32>, JsValue> {
        let sels = selectors(sel)?;
        Ok(self.walk(i, &mut |d, n| sels.iter().any(|s| d.simple(n, s))))
    }
    pub fn query_all(&self, i: u32, sel: &str) -> Result<Vec<u32>, JsValue> {
        let sels = selectors(sel)?;
        let mut out = vec![];
        self.walk(i, &mut |d, n| {
            if sels.iter().any(|s| d.simple(n, s)) {
                out.push(n);
            }
            false
        });
        Ok(out)
    }
    pub fn child_elements(&self, i: u32) -> Vec<u32> {
        self.children(i).iter().copied().filter(|c| matches!(self.kind(*c), Kind::Element { .. })).collect()
    }
    pub fn normalize(&mut self, i: u32) {
        let mut prev: Option<u32> = None;
        for c in self.children(i).to_vec() {
            match (self.kind(c).clone(), prev) {
                (Kind::Text(s), _) if s.is_empty() => self.detach(c),
                (Kind::Text(s), Some(p)) => {
                    if let Kind::Text(q) = &mut self.nodes[p as usize].kind {
                        q.push_str(&s);
                    }
                    self.detach(c);
                }
                (Kind::Text(_), None) => prev = Some(c),
                _ => {
                    self.normalize(c);
                    prev = None;
                }
            }
        }
    }
    pub fn matches(&self, i: u32, sel: &str) -> Result<bool, JsValue> {
        Ok(selectors(sel)?.iter().any(|s| self.simple(i, s)))
    }
    fn simple(&self, i: u32, s: &[Sel]) -> bool {
        s.iter().all(|x| match x {
            Sel::Any => true,
            Sel::Tag(t) => matches!(self.kind(i), Kind::Element { name, .. } if name.eq_ignore_ascii_case(t)),
            Sel::Id(v) => self.get_attr(i, "id").as_deref() == Some(v),
            Sel::Class(v) => self.get_attr(i, "class").is_some_and(|c| c.split_ascii_whitespace().any(|w| w == v)),
            Sel::Attr(n, None) => self.get_attr(i, n).is_some(),
            Sel::Attr(n, Some(v)) => self.get_attr(i, n).as_deref() == Some(v),
        })
    }
    pub fn snap(&self, i: u32) -> Snap {
        match self.kind(i) {
            Kind::Element { ns, name, attrs, template, .. } => Snap::Element {
                ns: ns.clone(),
                name: name.clone(),
                attrs: attrs.iter().map(|a| (a.shown(), a.value.clone())).collect(),
                // a template shows its contents, whatever is below it
                children: self.children(template.unwrap_or(i)).iter().map(|c| self.snap(*c)).collect(),
            },
            Kind::Text(t) => Snap::Text(t.clone()),
            Kind::Comment(t) => Snap::Comment(t.clone()),
            k => Snap::Other(format!("{k:?}")),
        }
    }
    pub fn inner_html(&self, i: u32) -> String {
        let mut o = String::new();
        let src = match self.kind(i) {
            Kind::Element { template: Some(t), .. } => *t,
            _ => i,
        };
        for c in self.children(src) {
            self.serialize(*c, &mut o);
        }
        o
    }
    pub fn outer_html(&self, i: u32) -> String {
        let mut o = String::new();
        self.serialize(i, &mut o);
        o
    }
    fn serialize(&self, i: u32, o: &mut String) {
        let esc = |s: &str, attr: bool| {
            let s = s.replace('&', "&amp;").replace('\u{a0}', "&nbsp;");
            if attr { s.replace('"', "&quot;") } else { s.replace('<', "&lt;").replace('>', "&gt;") }
        };
        match self.kind(i) {
            Kind::Element { name, attrs, html, .. } => {
                o.push('<');
                o.push_str(name);
                for a in attrs {
                    o.push_str(&format!(" {}=\"{}\"", a.name, esc(&a.value, true)));
                }
                o.push('>');
                if *html && html5ever::parser::is_void(name) {
                    return;
                }
                o.push_str(&self.inner_html(i));
                o.push_str(&format!("</{name}>"));
            }
            Kind::Text(t) => {
                let raw = self.parent(i).is_some_and(|p| {
                    matches!(self.kind(p), Kind::Element { html: true, name, .. }
                        if matches!(name.as_str(), "script" | "style" | "xmp" | "iframe" | "noembed" | "noframes"))
                });
                o.push_str(&if raw { t.clone() } else { esc(t, false) });
            }
            Kind::Comment(t) => o.push_str(&format!("<!--{t}-->")),
            Kind::Doctype(n) => o.push_str(&format!("<!DOCTYPE {n}>")),
            _ => {}
        }
    }
}

enum Sel {
    Any,
    Tag(String),
    Id(String),
    Class(String),
    Attr(String, Option<String>),
}
/// Comma-separated compound selectors (no combinators).
fn selectors(s: &str) -> Result<Vec<Vec<Sel>>, JsValue> {
    let bad = || JsValue::error("SyntaxError", &format!("'{s}' is not a valid selector."));
    let mut out = vec![];
    for part in s.split(',') {
        let mut r = part.trim();
        if r.is_empty() {
            return Err(bad());
        }
        let mut v = vec![];
        while let Some(c) = r.chars().next() {
            let word = |t: &str| t.find(['.', '#', '[', '*', ' ', '>']).unwrap_or(t.len());
            match c {
                '*' => {
                    v.push(Sel::Any);
                    r = &r[1..];
                }
                '#' | '.' => {
                    let n = word(&r[1..]);
                    if n == 0 {
                        return Err(bad());
                    }
                    let w = r[1..1 + n].to_string();
                    if w.starts_with(|c: char| c.is_ascii_digit()) {
                        return Err(bad());
                    }
                    v.push(if c == '#' { Sel::Id(w) } else { Sel::Class(w) });
                    r = &r[1 + n..];
                }
                '[' => {
                    let e = r.find(']').ok_or_else(bad)?;
                    let body = &r[1..e];
                    v.push(match body.split_once('=') {
                        Some((k, x)) => Sel::Attr(k.trim().into(), Some(x.trim().trim_matches(['"', '\'']).into())),
                        None if body.is_empty() => return Err(bad()),
                        None => Sel::Attr(body.trim().into(), None),
                    });
                    r = &r[e + 1..];
                }
                c if c.is_ascii_alphabetic() => {
                    let n = word(r);
                    v.push(Sel::Tag(r[..n].into()));
                    r = &r[n..];
                }
                _ => return Err(bad()),
            }
        }
        out.push(v);
    }
    Ok(out)
}

/// Parser sink: the tree builder writes straight into this thread's DOM.
struct Sink {
    doc: u32,
}
#[derive(Debug)]
struct Nm(Namespace, LocalName);
impl ElemName for Nm {
    fn ns(&self) -> &Namespace {
        &self.0
    }
    fn local_name(&self) -> &LocalName {
        &self.1
    }
}
fn at(n: &QualName, value: &str) -> At {
    let (name, skip) = match n.prefix.as_ref().filter(|p| !p.is_empty()) {
        Some(p) => (format!("{}:{}", &**p, &*n.local), p.len() + 1),
        None => (n.local.to_string(), 0),
    };
    At { ns: n.ns.to_string(), name, value: value.into(), skip }
}
impl Sink {
    fn place(&self, parent: u32, child: NodeOrText<u32>, before: Option<u32>) {
        with(|d| {
            let parent = match d.kind(parent) {
                Kind::Element { template: Some(t), .. } => *t,
                _ => parent,
            };
            match child {
                NodeOrText::AppendNode(n) => d.place(parent, n, before),
                NodeOrText::AppendText(t) => {
                    let prev = match before {
                        Some(b) => d.sibling(b, -1),
                        None => d.children(parent).last().copied(),
                    };
                    if let Some(p) = prev
                        && let Kind::Text(s) = &mut d.nodes[p as usize].kind
                    {
                        s.push_str(&t);
                        return;
                    }
                    let n = d.push(Kind::Text(t.to_string()));
                    d.place(parent, n, before);
                }
            }
        })
    }
}
impl TreeSink for Sink {
    type Handle = u32;
    type Output = ();
    type ElemName<'a> = Nm;
    fn finish(self) {}
    fn parse_error(&self, _m: Cow<'static, str>) {}
    fn get_document(&self) -> u32 {
        self.doc
    }
    fn elem_name<'a>(&'a self, t: &'a u32) -> Nm {
        with(|d| match d.kind(*t) {
            Kind::Element { ns, name, .. } => Nm(Namespace::from(ns.as_str()), LocalName::from(name.as_str())),
            _ => panic!("not an element"),
        })
    }
    fn create_element(&self, name: QualName, attrs: Vec<Attribute>, _f: ElementFlags) -> u32 {
        let attrs = attrs.into_iter().map(|a| at(&a.name, &a.value)).collect();
        with(|d| d.element(&name.ns, &name.local, attrs))
    }
    fn create_comment(&self, t: StrTendril) -> u32 {
        with(|d| d.push(Kind::Comment(t.to_string())))
    }
    fn create_pi(&self, _t: StrTendril, data: StrTendril) -> u32 {
        with(|d| d.push(Kind::Comment(data.to_string())))
    }
    fn append(&self, p: &u32, c: NodeOrText<u32>) {
        self.place(*p, c, None)
    }
    fn append_based_on_parent_node(&self, e: &u32, prev: &u32, c: NodeOrText<u32>) {
        if with(|d| d.parent(*e)).is_some() {
            self.append_before_sibling(e, c)
        } else {
            self.append(prev, c)
        }
    }
    fn append_doctype_to_document(&self, name: StrTendril, _p: StrTendril, _s: StrTendril) {
        with(|d| {
            let n = d.push(Kind::Doctype(name.to_string()));
            d.place(0, n, None);
        })
    }
    fn get_template_contents(&self, t: &u32) -> u32 {
        with(|d| match d.kind(*t) {
            Kind::Element { template: Some(c), .. } => *c,
            _ => *t,
        })
    }
    fn same_node(&self, a: &u32, b: &u32) -> bool {
        a == b
    }
    fn set_quirks_mode(&self, _m: QuirksMode) {}
    fn is_mathml_annotation_xml_integration_point(&self, t: &u32) -> bool {
        with(|d| {
            d.find_attr_ns(*t, "", "encoding").is_some_and(|a| {
                a.value.eq_ignore_ascii_case("text/html") || a.value.eq_ignore_ascii_case("application/xhtml+xml")
            })
        })
    }
    fn append_before_sibling(&self, s: &u32, c: NodeOrText<u32>) {
        let p = with(|d| d.parent(*s)).expect("sibling has a parent");
        self.place(p, c, Some(*s))
    }
    fn add_attrs_if_missing(&self, t: &u32, attrs: Vec<Attribute>) {
        with(|d| {
            for a in attrs {
                let a = at(&a.name, &a.value);
                if d.find_attr_ns(*t, &a.ns, a.local()).is_none() {
                    d.attrs_mut(*t).push(a);
                }
            }
        })
    }
    fn remove_from_parent(&self, t: &u32) {
        with(|d| d.detach(*t))
    }
    fn reparent_children(&self, n: &u32, p: &u32) {
        with(|d| {
            for c in d.children(*n).to_vec() {
                d.place(*p, c, None);
            }
        })
    }
}

pub fn set_inner_html(target: u32, html: &str) {
    let frag = with(|d| d.push(Kind::Fragment));
    let ctx = with(|d| match d.kind(target) {
        Kind::Element { ns, name, .. } => {
            QualName::new(None, Namespace::from(ns.as_str()), LocalName::from(name.as_str()))
        }
        _ => panic!("innerHTML of a non-element"),
    });
    let encoding = with(|d| d.find_attr_ns(target, "", "encoding")).into_iter();
    let attrs = encoding.map(|a| Attribute { name: QualName::new(None, "".into(), "encoding".into()), value: (*a.value).into() }).collect();
    let p = html5ever::parse_fragment(Sink { doc: frag }, Default::default(), ctx, attrs, true);
    p.one(StrTendril::from(html));
    with(|d| {
        let dest = match d.kind(target) {
            Kind::Element { template: Some(t), .. } => *t,
            _ => target,
        };
        for c in d.children(dest).to_vec() {
            d.detach(c);
        }
        let root = d.children(frag).first().copied();
        if let Some(r) = root {
            for c in d.children(r).to_vec() {
                d.place(dest, c, None);
            }
        }
    })
}
