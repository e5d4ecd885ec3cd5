//! The trees the html5ever stand-in builds, in a tree of the checks' own (no
//! code of hotmeal's): the reference for what a parser makes of markup.
//! `mc-hot parse` prints them: the trees the html5ever stand-in builds for NUL-separated
//! inputs on stdin, as `tools/realparse/real.rs` prints those of a real one.
use crate::tree::{D, E, Ns, T, markup, name_of};
use html5ever::tendril::{StrTendril, TendrilSink};
use html5ever::tree_builder::{ElemName, ElementFlags, NodeOrText, QuirksMode, TreeSink};
use html5ever::{Attribute, LocalName, Namespace, QualName, ns};
use std::borrow::Cow;
use std::cell::RefCell;
use std::io::Read;

enum K {
    Doc,
    Doctype(String),
    El(QualName, Vec<Attribute>, Option<usize>, bool),
    Text(String),
    Comment(String),
}
struct Nd {
    k: K,
    p: Option<usize>,
    c: Vec<usize>,
}
#[derive(Default)]
struct Tree {
    n: Vec<Nd>,
}
impl Tree {
    fn mk(&mut self, k: K) -> usize {
        self.n.push(Nd { k, p: None, c: vec![] });
        self.n.len() - 1
    }
    fn detach(&mut self, h: usize) {
        if let Some(p) = self.n[h].p.take() {
            self.n[p].c.retain(|x| *x != h);
        }
    }
    fn put(&mut self, p: usize, before: Option<usize>, c: NodeOrText<usize>) {
        if let NodeOrText::AppendNode(h) = &c {
            self.detach(*h);
        }
        let at = match before {
            Some(s) => self.n[p].c.iter().position(|x| *x == s).unwrap(),
            None => self.n[p].c.len(),
        };
        let h = match c {
            NodeOrText::AppendText(t) => {
                if at > 0 {
                    let q = self.n[p].c[at - 1];
                    if let K::Text(s) = &mut self.n[q].k {
                        s.push_str(&t);
                        return;
                    }
                }
                self.mk(K::Text(t.to_string()))
            }
            NodeOrText::AppendNode(h) => h,
        };
        self.n[h].p = Some(p);
        self.n[p].c.insert(at, h);
    }
    fn show(&self, h: usize, o: &mut String) {
        match &self.n[h].k {
            K::Doc => {}
            K::Doctype(s) => o.push_str(&format!("<!{s}>")),
            K::Text(s) => o.push_str(&format!("{s:?}")),
            K::Comment(s) => o.push_str(&format!("<!--{s:?}-->")),
            K::El(q, a, t, _) => {
                let ns = q.ns.rsplit('/').next().unwrap();
                o.push_str(&format!("<{}{}", if ns == "xhtml" { String::new() } else { format!("{ns}|") }, &*q.local));
                for a in a {
                    o.push_str(&format!(
                        " [{:?}|{}|{}]={:?}",
                        a.name.prefix.as_ref().map(|p| p.to_string()),
                        &*a.name.ns,
                        &*a.name.local,
                        &*a.value
                    ));
                }
                o.push('>');
                if let Some(t) = t {
                    o.push_str("#content:");
                    for c in &self.n[*t].c {
                        self.show(*c, o);
                    }
                }
            }
        }
        for c in &self.n[h].c {
            self.show(*c, o);
        }
        if let K::El(..) = self.n[h].k {
            o.push_str("</>");
        }
    }
}
struct Sink(RefCell<Tree>);
impl Sink {
    fn new() -> Self {
        let mut t = Tree::default();
        t.mk(K::Doc);
        Sink(RefCell::new(t))
    }
}
#[derive(Debug)]
struct Name(QualName);
impl ElemName for Name {
    fn ns(&self) -> &Namespace {
        &self.0.ns
    }
    fn local_name(&self) -> &LocalName {
        &self.0.local
    }
}
impl TreeSink for Sink {
    type Handle = usize;
    type Output = Tree;
    type ElemName<'a> = Name;
    fn finish(self) -> Tree {
        self.0.into_inner()
    }
    fn parse_error(&self, _: Cow<'static, str>) {}
    fn get_document(&self) -> usize {
        0
    }
    fn elem_name<'a>(&'a self, h: &'a usize) -> Name {
        match &self.0.borrow().n[*h].k {
            K::El(q, ..) => Name(q.clone()),
            _ => panic!("not an element"),
        }
    }
    fn create_element(&self, name: QualName, attrs: Vec<Attribute>, f: ElementFlags) -> usize {
        let mut t = self.0.borrow_mut();
        let content = (name.ns == ns!(html) && &*name.local == "template").then(|| t.mk(K::Doc));
        t.mk(K::El(name, attrs, content, f.mathml_annotation_xml_integration_point))
    }
    fn create_comment(&self, s: StrTendril) -> usize {
        self.0.borrow_mut().mk(K::Comment(s.to_string()))
    }
    fn create_pi(&self, _: StrTendril, _: StrTendril) -> usize {
        panic!("no processing instructions in HTML")
    }
    fn append(&self, p: &usize, c: NodeOrText<usize>) {
        self.0.borrow_mut().put(*p, None, c)
    }
    fn append_based_on_parent_node(&self, e: &usize, prev: &usize, c: NodeOrText<usize>) {
        let up = self.0.borrow().n[*e].p;
        match up {
            Some(p) => self.0.borrow_mut().put(p, Some(*e), c),
            None => self.append(prev, c),
        }
    }
    fn append_doctype_to_document(&self, n: StrTendril, _: StrTendril, _: StrTendril) {
        let mut t = self.0.borrow_mut();
        let h = t.mk(K::Doctype(n.to_string()));
        t.put(0, None, NodeOrText::AppendNode(h));
    }
    fn get_template_contents(&self, h: &usize) -> usize {
        match &self.0.borrow().n[*h].k {
            K::El(_, _, Some(t), _) => *t,
            _ => panic!("not a template"),
        }
    }
    fn same_node(&self, a: &usize, b: &usize) -> bool {
        a == b
    }
    fn set_quirks_mode(&self, _: QuirksMode) {}
    fn append_before_sibling(&self, s: &usize, c: NodeOrText<usize>) {
        let p = self.0.borrow().n[*s].p.expect("sibling has a parent");
        self.0.borrow_mut().put(p, Some(*s), c)
    }
    fn add_attrs_if_missing(&self, h: &usize, attrs: Vec<Attribute>) {
        if let K::El(_, a, ..) = &mut self.0.borrow_mut().n[*h].k {
            for x in attrs {
                if !a.iter().any(|y| y.name == x.name) {
                    a.push(x);
                }
            }
        }
    }
    fn remove_from_parent(&self, h: &usize) {
        self.0.borrow_mut().detach(*h)
    }
    fn reparent_children(&self, n: &usize, p: &usize) {
        let mut t = self.0.borrow_mut();
        for h in std::mem::take(&mut t.n[*n].c) {
            t.n[h].p = Some(*p);
            t.n[*p].c.push(h);
        }
    }
    fn is_mathml_annotation_xml_integration_point(&self, h: &usize) -> bool {
        matches!(self.0.borrow().n[*h].k, K::El(_, _, _, true))
    }
}

fn to_ref(t: &Tree, h: usize) -> Option<T> {
    Some(match &t.n[h].k {
        K::Doc | K::Doctype(_) => return None,
        K::Text(s) => T::Text(s.clone()),
        K::Comment(s) => T::Comment(s.clone()),
        K::El(q, a, content, _) => T::El(E {
            tag: q.local.to_string(),
            ns: match q.ns.rsplit('/').next().unwrap() {
                "svg" => Ns::Svg,
                "MathML" => Ns::Math,
                _ => Ns::Html,
            },
            attrs: a
                .iter()
                .map(|a| {
                    let mut q = a.name.clone();
                    q.prefix = q.prefix.filter(|p| !p.is_empty());
                    (name_of(&q), a.value.to_string())
                })
                .collect(),
            // Template contents count as children, as they do in hotmeal.
            kids: t.n[content.unwrap_or(h)].c.iter().filter_map(|c| to_ref(t, *c)).collect(),
        }),
    })
}
/// What a parser makes of a whole document.
pub fn document(m: &str) -> D {
    let t = html5ever::parse_document(Sink::new(), Default::default()).one(StrTendril::from(m));
    let mut d = D::default();
    for h in &t.n[0].c {
        match (&t.n[*h].k, to_ref(&t, *h)) {
            (K::Doctype(n), _) => d.doctype = Some(n.clone()),
            (_, Some(T::El(html))) => {
                for k in html.kids {
                    match k {
                        T::El(e) if e.tag == "head" && e.ns == Ns::Html => d.head = e.kids,
                        T::El(e) if e.tag == "body" && e.ns == Ns::Html => {
                            d.body_attrs = e.attrs;
                            d.body = Some(e.kids);
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    d
}
/// What a parser makes of body content.
pub fn fragment(m: &str) -> Vec<T> {
    let ctx = QualName::new(None, ns!(html), LocalName::from("body"));
    let t = html5ever::parse_fragment(Sink::new(), Default::default(), ctx, vec![], true).one(StrTendril::from(m));
    let Some(T::El(root)) = t.n[0].c.first().and_then(|h| to_ref(&t, *h)) else { return vec![] };
    root.kids
}
/// What a parser makes of the content of an element.
pub fn content(e: &E, m: &str) -> Vec<T> {
    let ctx = QualName::new(None, html5ever::Namespace::from(crate::tree::ns_url(e.ns)), LocalName::from(e.tag.as_str()));
    let attrs = e
        .attrs
        .iter()
        .map(|(k, v)| html5ever::Attribute { name: QualName::new(None, html5ever::Namespace::from(""), LocalName::from(k.as_str())), value: StrTendril::from(v.as_str()) })
        .collect();
    let t = html5ever::parse_fragment(Sink::new(), Default::default(), ctx, attrs, true).one(StrTendril::from(m));
    let Some(T::El(root)) = t.n[0].c.first().and_then(|h| to_ref(&t, *h)) else { return vec![] };
    root.kids
}
/// A document as markup.
pub fn written(d: &D) -> String {
    let doctype = d.doctype.as_ref().map(|n| format!("<!DOCTYPE {n}>")).unwrap_or_default();
    let body = match &d.body {
        None => String::new(),
        Some(f) => {
            let b = markup(&[T::El(E { tag: "body".into(), attrs: d.body_attrs.clone(), kids: f.clone(), ns: Ns::Html })]);
            b
        }
    };
    format!("{doctype}<html>{}{body}</html>", markup(&[T::El(E { tag: "head".into(), kids: d.head.clone(), ..E::default() })]))
}
/// Whether a document can be written so that it reads as the same document, and
/// its body so that it reads as the same body content.
pub fn writable(d: &D) -> bool {
    // hotmeal reads markup without a doctype in standards mode.
    let m = written(&D { doctype: Some("html".into()), ..d.clone() });
    let got = document(&m);
    got.head == d.head
        && got.body_attrs == d.body_attrs
        && got.body == d.body
        && d.body.as_ref().is_none_or(|f| fragment(&markup(f)) == *f)
}

pub fn main(context: &str) {
    html5ever::parser::OLD.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut all = String::new();
    for i in s.split('\0') {
        let d = html5ever::parse_document(Sink::new(), Default::default()).one(StrTendril::from(i));
        d.show(0, &mut all);
        let ctx = QualName::new(None, ns!(html), LocalName::from(context));
        let f = html5ever::parse_fragment(Sink::new(), Default::default(), ctx, vec![], true).one(StrTendril::from(i));
        all.push_str("   FRAGMENT   ");
        f.show(0, &mut all);
        all.push('\n');
    }
    print!("{all}");
}
