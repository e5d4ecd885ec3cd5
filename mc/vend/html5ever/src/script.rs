//! Scripted driving of a `TreeSink`: lets a checker enumerate every sequence of
//! sink operations against the real sink.
use crate::tree_builder::{ElementFlags, NodeOrText, TreeSink, ElemName, QuirksMode};
use crate::{Attribute, LocalName, Namespace, Prefix, QualName};
use std::cell::RefCell;
use tendril::StrTendril;

/// Text handed to the sink: a slice of the parser input (shares its buffer) or
/// a fresh buffer.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Text {
    In(u32, u32),
    Own(String),
}
/// Node or text operand; nodes are indices into the handle table
/// (0 is the document, later ones in creation order).
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Item {
    Node(usize),
    Text(Text),
}
pub type Name = (Option<String>, String, String);
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Op {
    Element(Name, Vec<(Name, Text)>),
    Comment(Text),
    Pi,
    Append(usize, Item),
    Before(usize, Item),
    BasedOnParent(usize, usize, Item),
    Doctype(Text),
    AddAttrs(usize, Vec<(Name, Text)>),
    Remove(usize),
    Reparent(usize, usize),
    Error(String),
    Quirks,
    /// Probes: their answers go to the log.
    ElemName(usize),
    Same(usize, usize),
    Template(usize),
}

thread_local! {
    static SCRIPT: RefCell<Option<Vec<Op>>> = const { RefCell::new(None) };
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static INPUT: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// The next parse on this thread plays `ops` instead of parsing its input.
/// Returns the closure's result, the probe log and the input the parser saw.
pub fn run<R>(ops: Vec<Op>, f: impl FnOnce() -> R) -> (R, Vec<String>, Option<String>) {
    SCRIPT.with(|s| *s.borrow_mut() = Some(ops));
    LOG.with(|l| l.borrow_mut().clear());
    INPUT.with(|i| *i.borrow_mut() = None);
    let r = f();
    SCRIPT.with(|s| *s.borrow_mut() = None);
    (r, LOG.with(|l| l.take()), INPUT.with(|i| i.take()))
}
pub(crate) fn take() -> Option<Vec<Op>> {
    SCRIPT.with(|s| s.borrow_mut().take())
}
pub(crate) fn note_input(t: &str) {
    INPUT.with(|i| *i.borrow_mut() = Some(t.to_string()));
}

fn text(t: &Text, input: &StrTendril) -> StrTendril {
    match t {
        Text::In(o, l) => input.subtendril(*o, *l),
        Text::Own(s) => StrTendril::from(s.as_str()),
    }
}
pub fn qual(n: &Name) -> QualName {
    QualName::new(
        n.0.as_deref().map(Prefix::from),
        Namespace::from(n.1.as_str()),
        LocalName::from(n.2.as_str()),
    )
}

pub(crate) fn drive<S: TreeSink>(sink: &S, input: &StrTendril, ops: &[Op]) {
    let mut h: Vec<S::Handle> = vec![sink.get_document()];
    let attrs = |v: &[(Name, Text)]| -> Vec<Attribute> {
        v.iter().map(|(n, t)| Attribute { name: qual(n), value: text(t, input) }).collect()
    };
    for op in ops {
        let item = |h: &[S::Handle], i: &Item| match i {
            Item::Node(n) => NodeOrText::AppendNode(h[*n].clone()),
            Item::Text(t) => NodeOrText::AppendText(text(t, input)),
        };
        match op {
            Op::Element(n, a) => {
                let e = sink.create_element(qual(n), attrs(a), ElementFlags::default());
                h.push(e);
            }
            Op::Comment(t) => {
                let e = sink.create_comment(text(t, input));
                h.push(e);
            }
            Op::Pi => {
                let e = sink.create_pi(StrTendril::from("pi"), StrTendril::from("data"));
                h.push(e);
            }
            Op::Append(p, i) => sink.append(&h[*p], item(&h, i)),
            Op::Before(s, i) => sink.append_before_sibling(&h[*s], item(&h, i)),
            Op::BasedOnParent(e, p, i) => sink.append_based_on_parent_node(&h[*e], &h[*p], item(&h, i)),
            Op::Doctype(t) => {
                sink.append_doctype_to_document(text(t, input), StrTendril::from("pub"), StrTendril::from("sys"))
            }
            Op::AddAttrs(t, a) => sink.add_attrs_if_missing(&h[*t], attrs(a)),
            Op::Remove(t) => sink.remove_from_parent(&h[*t]),
            Op::Reparent(a, b) => sink.reparent_children(&h[*a], &h[*b]),
            Op::Error(m) => sink.parse_error(m.clone().into()),
            Op::Quirks => sink.set_quirks_mode(QuirksMode::Quirks),
            Op::ElemName(n) => {
                let e = sink.elem_name(&h[*n]);
                let s = format!("{}|{}", &**e.ns(), &**e.local_name());
                drop(e);
                LOG.with(|l| l.borrow_mut().push(s));
            }
            Op::Same(a, b) => {
                let s = sink.same_node(&h[*a], &h[*b]).to_string();
                LOG.with(|l| l.borrow_mut().push(s));
            }
            Op::Template(n) => {
                let t = sink.get_template_contents(&h[*n]);
                let s = h.iter().position(|x| sink.same_node(x, &t)).map_or("?".into(), |i| i.to_string());
                LOG.with(|l| l.borrow_mut().push(s));
            }
        }
    }
}
