//! Stand-in for `html5ever` (and the parts of markup5ever it re-exports).
//!
//! * interned names (`LocalName`, `Namespace`, `Prefix`, `QualName`),
//! * the `TreeSink` interface,
//! * `parse_document` / `parse_fragment`, which drive a real `TreeSink` either
//!   with an HTML parser (see `parser`) or, when a
//!   script is installed with [`script::run`], with that exact list of sink
//!   operations.
mod entities;
pub mod parser;
pub mod script;
pub mod tokenizer;
pub mod tree_builder;

use std::borrow::{Borrow, Cow};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt;
use std::marker::PhantomData;
use std::ops::Deref;
use std::sync::Mutex;

pub use tendril;
use tendril::StrTendril;

static POOL: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
thread_local! {
    static LOCAL: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new());
}
fn intern(s: &str) -> &'static str {
    LOCAL.with(|l| {
        if let Some(x) = l.borrow().get(s) {
            return *x;
        }
        let mut g = POOL.lock().unwrap();
        let set = g.get_or_insert_with(HashSet::new);
        let x: &'static str = match set.get(s) {
            Some(x) => x,
            None => {
                let x: &'static str = Box::leak(s.to_string().into_boxed_str());
                set.insert(x);
                x
            }
        };
        l.borrow_mut().insert(x);
        x
    })
}

/// Interned string; the marker keeps the name kinds apart.
pub struct Atom<K>(&'static str, PhantomData<K>);
impl<K> Clone for Atom<K> {
    fn clone(&self) -> Self {
        Atom(self.0, PhantomData)
    }
}
impl<K> Atom<K> {
    pub fn new(s: &str) -> Self {
        Atom(intern(s), PhantomData)
    }
    pub fn to_ascii_lowercase(&self) -> Self {
        Self::new(&self.0.to_ascii_lowercase())
    }
    pub fn eq_str_ignore_ascii_case(&self, o: &str) -> bool {
        self.0.eq_ignore_ascii_case(o)
    }
}
impl<K> Default for Atom<K> {
    fn default() -> Self {
        Self::new("")
    }
}
impl<K> PartialEq for Atom<K> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K> Eq for Atom<K> {}
impl<K> PartialEq<str> for Atom<K> {
    fn eq(&self, o: &str) -> bool {
        self.0 == o
    }
}
impl<K> PartialEq<&str> for Atom<K> {
    fn eq(&self, o: &&str) -> bool {
        self.0 == *o
    }
}
impl<K> PartialEq<Atom<K>> for str {
    fn eq(&self, o: &Atom<K>) -> bool {
        self == o.0
    }
}
impl<K> PartialEq<String> for Atom<K> {
    fn eq(&self, o: &String) -> bool {
        self.0 == o
    }
}
impl<K> PartialOrd for Atom<K> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<K> Ord for Atom<K> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(o.0)
    }
}
impl<K> std::hash::Hash for Atom<K> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<K> Deref for Atom<K> {
    type Target = str;
    fn deref(&self) -> &str {
        self.0
    }
}
impl<K> AsRef<str> for Atom<K> {
    fn as_ref(&self) -> &str {
        self.0
    }
}
impl<K> Borrow<str> for Atom<K> {
    fn borrow(&self) -> &str {
        self.0
    }
}
impl<K> fmt::Debug for Atom<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Atom('{}')", self.0)
    }
}
impl<K> fmt::Display for Atom<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl<K> From<&str> for Atom<K> {
    fn from(s: &str) -> Self {
        Self::new(s)
    }
}
impl<K> From<String> for Atom<K> {
    fn from(s: String) -> Self {
        Self::new(&s)
    }
}
impl<K> From<&String> for Atom<K> {
    fn from(s: &String) -> Self {
        Self::new(s)
    }
}
impl<K> From<Cow<'_, str>> for Atom<K> {
    fn from(s: Cow<'_, str>) -> Self {
        Self::new(&s)
    }
}
impl<K> From<StrTendril> for Atom<K> {
    fn from(s: StrTendril) -> Self {
        Self::new(&s)
    }
}

macro_rules! kinds {
    ($($m:ident $n:ident),*) => {$(
        #[derive(Debug, Clone, Copy)]
        pub enum $m {}
        pub type $n = Atom<$m>;
    )*};
}
kinds!(LocalNameKind LocalName, NamespaceKind Namespace, PrefixKind Prefix);

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct QualName {
    pub prefix: Option<Prefix>,
    pub ns: Namespace,
    pub local: LocalName,
}
impl QualName {
    pub fn new(prefix: Option<Prefix>, ns: Namespace, local: LocalName) -> Self {
        Self { prefix, ns, local }
    }
    pub fn expanded(&self) -> ExpandedName<'_> {
        ExpandedName { ns: &self.ns, local: &self.local }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct ExpandedName<'a> {
    pub ns: &'a Namespace,
    pub local: &'a LocalName,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Attribute {
    pub name: QualName,
    pub value: StrTendril,
}

#[macro_export]
macro_rules! local_name {
    ($s:tt) => {
        $crate::LocalName::from($s)
    };
}
#[macro_export]
macro_rules! namespace_prefix {
    ($s:tt) => {
        $crate::Prefix::from($s)
    };
}
#[macro_export]
macro_rules! namespace_url {
    ($s:tt) => {
        $crate::Namespace::from($s)
    };
}
#[macro_export]
macro_rules! ns {
    () => {
        $crate::Namespace::from("")
    };
    (*) => {
        $crate::Namespace::from("*")
    };
    (html) => {
        $crate::Namespace::from("http://www.w3.org/1999/xhtml")
    };
    (xml) => {
        $crate::Namespace::from("http://www.w3.org/XML/1998/namespace")
    };
    (xmlns) => {
        $crate::Namespace::from("http://www.w3.org/2000/xmlns/")
    };
    (xlink) => {
        $crate::Namespace::from("http://www.w3.org/1999/xlink")
    };
    (svg) => {
        $crate::Namespace::from("http://www.w3.org/2000/svg")
    };
    (mathml) => {
        $crate::Namespace::from("http://www.w3.org/1998/Math/MathML")
    };
}

#[derive(Debug, Clone, Default)]
pub struct ParseOpts {}

pub struct Parser<S> {
    sink: S,
    input: StrTendril,
    fragment: Option<(QualName, Vec<Attribute>)>,
    scripting: bool,
}

pub fn parse_document<S: tree_builder::TreeSink>(sink: S, _opts: ParseOpts) -> Parser<S> {
    Parser { sink, input: StrTendril::new(), fragment: None, scripting: true }
}
pub fn parse_fragment<S: tree_builder::TreeSink>(
    sink: S,
    _opts: ParseOpts,
    context_name: QualName,
    context_attrs: Vec<Attribute>,
    scripting: bool,
) -> Parser<S> {
    Parser { sink, input: StrTendril::new(), fragment: Some((context_name, context_attrs)), scripting }
}

impl<S: tree_builder::TreeSink> tendril::TendrilSink for Parser<S> {
    type Output = S::Output;
    fn process(&mut self, t: StrTendril) {
        if self.input.is_empty() {
            self.input = t;
        } else {
            self.input.push_tendril(&t);
        }
    }
    fn finish(self) -> S::Output {
        if let Some(ops) = script::take() {
            script::note_input(&self.input);
            script::drive(&self.sink, &self.input, &ops);
        } else {
            parser::drive(&self.sink, &self.input, self.fragment, self.scripting);
        }
        self.sink.finish()
    }
}
