//! Stand-in for `tendril`: an immutable shared UTF-8 buffer with sub-slices.
use std::borrow::Borrow;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::Deref;
use std::sync::Arc;

#[derive(Clone)]
pub struct StrTendril {
    buf: Arc<str>,
    off: usize,
    len: usize,
}
impl StrTendril {
    pub fn new() -> Self {
        Self::from("")
    }
    pub fn from_slice(s: &str) -> Self {
        Self::from(s)
    }
    pub fn push_slice(&mut self, s: &str) {
        let mut o = String::with_capacity(self.len + s.len());
        o.push_str(self);
        o.push_str(s);
        *self = Self::from(o);
    }
    pub fn push_tendril(&mut self, t: &StrTendril) {
        self.push_slice(t)
    }
    pub fn push_char(&mut self, c: char) {
        self.push_slice(c.encode_utf8(&mut [0; 4]))
    }
    pub fn clear(&mut self) {
        *self = Self::new()
    }
    pub fn with_capacity(_n: u32) -> Self {
        Self::new()
    }
    pub fn reserve(&mut self, _n: u32) {}
    pub fn pop_front(&mut self, n: u32) {
        *self = self.subtendril(n, self.len as u32 - n)
    }
    pub fn pop_back(&mut self, n: u32) {
        *self = self.subtendril(0, self.len as u32 - n)
    }
    pub fn pop_front_char(&mut self) -> Option<char> {
        let c = self.chars().next()?;
        self.pop_front(c.len_utf8() as u32);
        Some(c)
    }
    pub fn is_shared(&self) -> bool {
        Arc::strong_count(&self.buf) > 1
    }
    pub fn len32(&self) -> u32 {
        self.len as u32
    }
    /// Shares the buffer, like the real one does for longer slices.
    pub fn subtendril(&self, off: u32, len: u32) -> Self {
        let (o, l) = (off as usize, len as usize);
        assert!(self.is_char_boundary(o) && self.is_char_boundary(o + l));
        Self { buf: self.buf.clone(), off: self.off + o, len: l }
    }
}
impl Default for StrTendril {
    fn default() -> Self {
        Self::new()
    }
}
impl Deref for StrTendril {
    type Target = str;
    fn deref(&self) -> &str {
        &self.buf[self.off..self.off + self.len]
    }
}
impl AsRef<str> for StrTendril {
    fn as_ref(&self) -> &str {
        self
    }
}
impl Borrow<str> for StrTendril {
    fn borrow(&self) -> &str {
        self
    }
}
impl From<&str> for StrTendril {
    fn from(s: &str) -> Self {
        Self { buf: Arc::from(s), off: 0, len: s.len() }
    }
}
impl From<String> for StrTendril {
    fn from(s: String) -> Self {
        Self::from(s.as_str())
    }
}
impl From<&String> for StrTendril {
    fn from(s: &String) -> Self {
        Self::from(s.as_str())
    }
}
impl From<char> for StrTendril {
    fn from(c: char) -> Self {
        Self::from(&*c.encode_utf8(&mut [0; 4]))
    }
}
impl From<StrTendril> for String {
    fn from(t: StrTendril) -> String {
        t.to_string()
    }
}
impl std::str::FromStr for StrTendril {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        Ok(Self::from(s))
    }
}
impl PartialEq for StrTendril {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl Eq for StrTendril {}
impl PartialEq<str> for StrTendril {
    fn eq(&self, o: &str) -> bool {
        &**self == o
    }
}
impl PartialOrd for StrTendril {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for StrTendril {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (**self).cmp(&**o)
    }
}
impl Hash for StrTendril {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (**self).hash(h)
    }
}
impl fmt::Debug for StrTendril {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl fmt::Display for StrTendril {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self)
    }
}

impl fmt::Write for StrTendril {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.push_slice(s);
        Ok(())
    }
}
impl Extend<char> for StrTendril {
    fn extend<I: IntoIterator<Item = char>>(&mut self, i: I) {
        self.push_slice(&i.into_iter().collect::<String>())
    }
}
impl<'a> Extend<&'a str> for StrTendril {
    fn extend<I: IntoIterator<Item = &'a str>>(&mut self, i: I) {
        self.push_slice(&i.into_iter().collect::<String>())
    }
}
impl FromIterator<char> for StrTendril {
    fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self {
        Self::from(i.into_iter().collect::<String>())
    }
}
impl<'a> FromIterator<&'a str> for StrTendril {
    fn from_iter<I: IntoIterator<Item = &'a str>>(i: I) -> Self {
        Self::from(i.into_iter().collect::<String>())
    }
}
pub trait SliceExt {
    fn to_tendril(&self) -> StrTendril;
}
impl SliceExt for str {
    fn to_tendril(&self) -> StrTendril {
        StrTendril::from(self)
    }
}
#[macro_export]
macro_rules! format_tendril {
    ($($t:tt)*) => { $crate::StrTendril::from(::std::format!($($t)*)) };
}

pub trait TendrilSink: Sized {
    type Output;
    fn process(&mut self, t: StrTendril);
    fn finish(self) -> Self::Output;
    fn one<T: Into<StrTendril>>(mut self, t: T) -> Self::Output {
        self.process(t.into());
        self.finish()
    }
    fn from_iter<I>(mut self, i: I) -> Self::Output
    where
        I: IntoIterator,
        I::Item: Into<StrTendril>,
    {
        for t in i {
            self.process(t.into());
        }
        self.finish()
    }
}
