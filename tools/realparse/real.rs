//! Prints the tree the *real* html5ever (0.26, a leftover of the Verus build in
//! /opt/veriftools) builds for each NUL-separated input on stdin.
extern crate html5ever;
use html5ever::tendril::*;
use html5ever::tree_builder::{ElementFlags, NodeOrText, QuirksMode, TreeSink};
use html5ever::{Attribute, ExpandedName, QualName, parse_document, parse_fragment};
use html5ever::{local_name, namespace_url, ns};
use std::borrow::Cow;
use std::io::Read;
type H = usize;
enum K { Doc, Doctype(String), El(QualName, Vec<Attribute>, Option<H>, bool), Text(String), Comment(String) }
struct Nd { k: K, p: Option<H>, c: Vec<H> }
struct S { n: Vec<Nd>, context: bool }
impl S {
    fn new() -> S { S { n: vec![Nd { k: K::Doc, p: None, c: vec![] }], context: false } }
    fn mk(&mut self, k: K) -> H { self.n.push(Nd { k, p: None, c: vec![] }); self.n.len() - 1 }
    fn detach(&mut self, h: H) { if let Some(p) = self.n[h].p.take() { self.n[p].c.retain(|x| *x != h); } }
    fn put(&mut self, p: H, at: usize, c: NodeOrText<H>) {
        match c {
            NodeOrText::AppendText(t) => {
                if at > 0 { let q = self.n[p].c[at - 1]; if let K::Text(s) = &mut self.n[q].k { s.push_str(&t); return; } }
                let h = self.mk(K::Text(t.to_string())); self.n[h].p = Some(p); self.n[p].c.insert(at, h);
            }
            NodeOrText::AppendNode(h) => { self.detach(h); let at = at.min(self.n[p].c.len()); self.n[h].p = Some(p); self.n[p].c.insert(at, h); }
        }
    }
    fn show(&self, h: H, o: &mut String) {
        match &self.n[h].k {
            K::Doc => {}
            K::Doctype(s) => o.push_str(&format!("<!{s}>")),
            K::Text(s) => o.push_str(&format!("{s:?}")),
            K::Comment(s) => o.push_str(&format!("<!--{s:?}-->")),
            K::El(q, a, t, _) => {
                let ns: &str = &q.ns; let ns = ns.rsplit('/').next().unwrap();
                o.push_str(&format!("<{}{}", if ns == "xhtml" { String::new() } else { format!("{ns}|") }, &*q.local));
                for a in a { o.push_str(&format!(" [{:?}|{}|{}]={:?}", a.name.prefix.as_ref().map(|p| p.to_string()), &*a.name.ns, &*a.name.local, &*a.value)); }
                o.push('>');
                if let Some(t) = t { o.push_str("#content:"); for c in &self.n[*t].c { self.show(*c, o); } }
            }
        }
        for c in &self.n[h].c { self.show(*c, o); }
        if let K::El(..) = self.n[h].k { o.push_str("</>"); }
    }
}
impl TreeSink for S {
    type Handle = H; type Output = S;
    fn finish(self) -> S { self }
    fn parse_error(&mut self, _: Cow<'static, str>) {}
    fn get_document(&mut self) -> H { 0 }
    fn elem_name<'a>(&'a self, h: &'a H) -> ExpandedName<'a> { if let K::El(q, ..) = &self.n[*h].k { q.expanded() } else { panic!() } }
    fn create_element(&mut self, name: QualName, attrs: Vec<Attribute>, f: ElementFlags) -> H {
        let t = (name.expanded() == ExpandedName { ns: &ns!(html), local: &local_name!("template") }).then(|| self.mk(K::Doc));
        self.mk(K::El(name, attrs, t, f.mathml_annotation_xml_integration_point))
    }
    fn create_comment(&mut self, t: StrTendril) -> H { self.mk(K::Comment(t.to_string())) }
    fn create_pi(&mut self, _: StrTendril, _: StrTendril) -> H { panic!() }
    fn append(&mut self, p: &H, c: NodeOrText<H>) { let at = self.n[*p].c.len(); if let NodeOrText::AppendNode(h) = &c { self.detach(*h); } let at = at.min(self.n[*p].c.len()); self.put(*p, at, c) }
    fn append_based_on_parent_node(&mut self, e: &H, prev: &H, c: NodeOrText<H>) { if self.n[*e].p.is_some() { self.append_before_sibling(e, c) } else { self.append(prev, c) } }
    fn append_doctype_to_document(&mut self, n: StrTendril, _: StrTendril, _: StrTendril) { let h = self.mk(K::Doctype(n.to_string())); self.n[h].p = Some(0); self.n[0].c.push(h); }
    fn get_template_contents(&mut self, h: &H) -> H { if let K::El(_, _, Some(t), _) = &self.n[*h].k { *t } else { panic!() } }
    fn same_node(&self, x: &H, y: &H) -> bool { x == y }
    fn set_quirks_mode(&mut self, _: QuirksMode) {}
    fn append_before_sibling(&mut self, s: &H, c: NodeOrText<H>) {
        if let NodeOrText::AppendNode(h) = &c { self.detach(*h); }
        let p = self.n[*s].p.unwrap(); let at = self.n[p].c.iter().position(|x| x == s).unwrap(); self.put(p, at, c)
    }
    fn add_attrs_if_missing(&mut self, h: &H, attrs: Vec<Attribute>) { if let K::El(_, a, ..) = &mut self.n[*h].k { for x in attrs { if !a.iter().any(|y| y.name == x.name) { a.push(x); } } } }
    fn remove_from_parent(&mut self, h: &H) { self.detach(*h) }
    fn is_mathml_annotation_xml_integration_point(&self, h: &H) -> bool { matches!(self.n[*h].k, K::El(_, _, _, true)) }
    fn reparent_children(&mut self, n: &H, p: &H) { let c = std::mem::take(&mut self.n[*n].c); for h in c { self.n[h].p = Some(*p); self.n[*p].c.push(h); } }
}
fn main() {
    let mut s = String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
    let _ = S::new().context;
    let ctx = std::env::args().nth(1).unwrap_or("body".into());
    for i in s.split('\0') {
        let d = parse_document(S::new(), Default::default()).one(StrTendril::from(i));
        let mut o = String::new(); d.show(0, &mut o);
        let f = parse_fragment(S::new(), Default::default(), QualName::new(None, ns!(html), ctx.clone().into()), vec![]).one(StrTendril::from(i));
        o.push_str("   FRAGMENT   "); f.show(0, &mut o);
        println!("{}", o);
    }
}
