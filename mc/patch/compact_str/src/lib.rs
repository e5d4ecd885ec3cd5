//! Stand-in for `compact_str` (only the representation differs from the real one).
use std::borrow::{Borrow, Cow};
use std::fmt;
use std::ops::Deref;

#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CompactString(String);

impl CompactString {
    pub fn new<T: AsRef<str>>(t: T) -> Self {
        Self(t.as_ref().to_string())
    }
    pub fn const_new(s: &'static str) -> Self {
        Self(s.to_string())
    }
    pub fn with_capacity(n: usize) -> Self {
        Self(String::with_capacity(n))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
    pub fn as_mut_str(&mut self) -> &mut str {
        &mut self.0
    }
    pub fn push_str(&mut self, s: &str) {
        self.0.push_str(s)
    }
    pub fn push(&mut self, c: char) {
        self.0.push(c)
    }
    pub fn pop(&mut self) -> Option<char> {
        self.0.pop()
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn truncate(&mut self, n: usize) {
        self.0.truncate(n)
    }
    pub fn insert_str(&mut self, i: usize, s: &str) {
        self.0.insert_str(i, s)
    }
    pub fn insert(&mut self, i: usize, c: char) {
        self.0.insert(i, c)
    }
    pub fn remove(&mut self, i: usize) -> char {
        self.0.remove(i)
    }
    pub fn retain(&mut self, f: impl FnMut(char) -> bool) {
        self.0.retain(f)
    }
    pub fn replace_range(&mut self, r: impl std::ops::RangeBounds<usize>, s: &str) {
        self.0.replace_range(r, s)
    }
    pub fn split_off(&mut self, i: usize) -> Self {
        Self(self.0.split_off(i))
    }
    pub fn shrink_to(&mut self, n: usize) {
        self.0.shrink_to(n)
    }
    pub fn shrink_to_fit(&mut self) {
        self.0.shrink_to_fit()
    }
    pub fn from_utf8<B: AsRef<[u8]>>(b: B) -> Result<Self, std::str::Utf8Error> {
        std::str::from_utf8(b.as_ref()).map(Self::from)
    }
    pub fn repeat(&self, n: usize) -> Self {
        Self(self.0.repeat(n))
    }
    pub fn from_string_buffer(s: String) -> Self {
        Self(s)
    }
    pub fn reserve(&mut self, n: usize) {
        self.0.reserve(n)
    }
    pub fn capacity(&self) -> usize {
        self.0.capacity()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn into_string(self) -> String {
        self.0
    }
    pub fn is_heap_allocated(&self) -> bool {
        self.0.len() > 24
    }
}
impl Deref for CompactString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl AsRef<str> for CompactString {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl Borrow<str> for CompactString {
    fn borrow(&self) -> &str {
        &self.0
    }
}
impl From<&str> for CompactString {
    fn from(s: &str) -> Self {
        Self(s.to_string())
    }
}
impl From<String> for CompactString {
    fn from(s: String) -> Self {
        Self(s)
    }
}
impl From<&String> for CompactString {
    fn from(s: &String) -> Self {
        Self(s.clone())
    }
}
impl From<Cow<'_, str>> for CompactString {
    fn from(s: Cow<'_, str>) -> Self {
        Self(s.into_owned())
    }
}
impl From<char> for CompactString {
    fn from(c: char) -> Self {
        Self(c.to_string())
    }
}
impl From<CompactString> for String {
    fn from(s: CompactString) -> String {
        s.0
    }
}
impl PartialEq<str> for CompactString {
    fn eq(&self, o: &str) -> bool {
        self.0 == o
    }
}
impl PartialEq<&str> for CompactString {
    fn eq(&self, o: &&str) -> bool {
        self.0 == *o
    }
}
impl fmt::Debug for CompactString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for CompactString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Write for CompactString {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push_str(s);
        Ok(())
    }
}
impl Extend<char> for CompactString {
    fn extend<I: IntoIterator<Item = char>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<'a> Extend<&'a str> for CompactString {
    fn extend<I: IntoIterator<Item = &'a str>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl FromIterator<char> for CompactString {
    fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl std::ops::AddAssign<&str> for CompactString {
    fn add_assign(&mut self, s: &str) {
        self.0.push_str(s)
    }
}
pub trait ToCompactString {
    fn to_compact_string(&self) -> CompactString;
}
impl<T: fmt::Display> ToCompactString for T {
    fn to_compact_string(&self) -> CompactString {
        CompactString(self.to_string())
    }
}
#[macro_export]
macro_rules! format_compact {
    ($($t:tt)*) => { $crate::CompactString::from(::std::format!($($t)*)) };
}

impl From<Box<str>> for CompactString {
    fn from(s: Box<str>) -> Self {
        Self(s.into())
    }
}
impl<'a> From<CompactString> for Cow<'a, str> {
    fn from(s: CompactString) -> Self {
        Cow::Owned(s.0)
    }
}
impl std::str::FromStr for CompactString {
    type Err = std::convert::Infallible;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(Self::from(s))
    }
}
impl PartialEq<String> for CompactString {
    fn eq(&self, o: &String) -> bool {
        self.0 == *o
    }
}
impl PartialEq<CompactString> for str {
    fn eq(&self, o: &CompactString) -> bool {
        *self == *o.0
    }
}
impl PartialEq<CompactString> for &str {
    fn eq(&self, o: &CompactString) -> bool {
        **self == *o.0
    }
}
impl PartialEq<CompactString> for String {
    fn eq(&self, o: &CompactString) -> bool {
        *self == o.0
    }
}
impl<'a> FromIterator<&'a str> for CompactString {
    fn from_iter<I: IntoIterator<Item = &'a str>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl FromIterator<String> for CompactString {
    fn from_iter<I: IntoIterator<Item = String>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl FromIterator<CompactString> for CompactString {
    fn from_iter<I: IntoIterator<Item = CompactString>>(i: I) -> Self {
        Self(i.into_iter().map(|c| c.0).collect())
    }
}
impl std::ops::Add<&str> for CompactString {
    type Output = Self;
    fn add(mut self, s: &str) -> Self {
        self.0.push_str(s);
        self
    }
}
