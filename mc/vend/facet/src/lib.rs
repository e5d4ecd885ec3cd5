//! Stand-in for the `facet` crate: `#[derive(Facet)]` generates a structural
//! encoder/decoder in the postcard layout (LEB128 varints, variant index,
//! length-prefixed sequences) that honours the `#[facet(..)]` attributes the
//! repository uses (transparent, opaque + proxy, cow, derive(Error)).
extern crate self as facet;
pub use facet_derive::Facet;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct WireError(pub String);
impl std::fmt::Display for WireError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for WireError {}

pub fn err<T>(m: &str) -> Result<T, WireError> {
    Err(WireError(m.to_string()))
}

/// Structural wire format.
pub trait Facet: Sized {
    fn enc(&self, out: &mut Vec<u8>);
    fn dec(inp: &mut &[u8]) -> Result<Self, WireError>;
    /// Sequences of bytes are the same as any other sequence in postcard.
    fn min_size() -> usize {
        1
    }
}

pub fn put_varint(mut v: u64, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
pub fn get_varint(inp: &mut &[u8]) -> Result<u64, WireError> {
    let mut v = 0u64;
    for i in 0..10 {
        let (&b, rest) = inp.split_first().ok_or(WireError("unexpected end".into()))?;
        *inp = rest;
        v |= ((b & 0x7f) as u64) << (7 * i);
        if b & 0x80 == 0 {
            return Ok(v);
        }
    }
    err("varint too long")
}
pub fn take<'b>(inp: &mut &'b [u8], n: usize) -> Result<&'b [u8], WireError> {
    if inp.len() < n {
        return err("unexpected end");
    }
    let (a, b) = inp.split_at(n);
    *inp = b;
    Ok(a)
}

macro_rules! uint {
    ($($t:ty),*) => {$(
        impl Facet for $t {
            fn enc(&self, out: &mut Vec<u8>) { put_varint(*self as u64, out) }
            fn dec(inp: &mut &[u8]) -> Result<Self, WireError> {
                let v = get_varint(inp)?;
                <$t>::try_from(v).map_err(|_| WireError("integer out of range".into()))
            }
        }
    )*};
}
uint!(u16, u32, u64, usize);

impl Facet for u8 {
    fn enc(&self, out: &mut Vec<u8>) {
        out.push(*self)
    }
    fn dec(inp: &mut &[u8]) -> Result<Self, WireError> {
        Ok(take(inp, 1)?[0])
    }
}
impl Facet for bool {
    fn enc(&self, out: &mut Vec<u8>) {
        out.push(*self as u8)
    }
    fn dec(inp: &mut &[u8]) -> Result<Self, WireError> {
        match take(inp, 1)?[0] {
            0 => Ok(false),
            1 => Ok(true),
            _ => err("bad bool"),
        }
    }
}
pub fn enc_str(s: &str, out: &mut Vec<u8>) {
    put_varint(s.len() as u64, out);
    out.extend_from_slice(s.as_bytes());
}
impl Facet for String {
    fn enc(&self, out: &mut Vec<u8>) {
        enc_str(self, out)
    }
    fn dec(inp: &mut &[u8]) -> Result<Self, WireError> {
        let n = get_varint(inp)? as usize;
        let b = take(inp, n)?;
        String::from_utf8(b.to_vec()).map_err(|_| WireError("bad utf-8".into()))
    }
}
impl Facet for compact_str::CompactString {
    fn enc(&self, out: &mut Vec<u8>) {
        enc_str(self, out)
    }
    fn dec(inp: &mut &[u8]) -> Result<Self, WireError> {
        Ok(compact_str::CompactString::from(String::dec(inp)?))
    }
}
impl<T: Facet> Facet for Option<T> {
    fn enc(&self, out: &mut Vec<u8>) {
        match self {
            None => out.push(0),
            Some(v) => {
                out.push(1);
                v.enc(out)
            }
        }
    }
    fn dec(inp: &mut &[u8]) -> Result<Self, WireError> {
        match take(inp, 1)?[0] {
            0 => Ok(None),
            1 => Ok(Some(T::dec(inp)?)),
            _ => err("bad option tag"),
        }
    }
}
impl<T: Facet> Facet for Box<T> {
    fn enc(&self, out: &mut Vec<u8>) {
        (**self).enc(out)
    }
    fn dec(inp: &mut &[u8]) -> Result<Self, WireError> {
        Ok(Box::new(T::dec(inp)?))
    }
}
impl<T: Facet> Facet for Vec<T> {
    fn enc(&self, out: &mut Vec<u8>) {
        put_varint(self.len() as u64, out);
        for v in self {
            v.enc(out);
        }
    }
    fn dec(inp: &mut &[u8]) -> Result<Self, WireError> {
        let n = get_varint(inp)? as usize;
        let mut v = Vec::with_capacity(n.min(inp.len()));
        for _ in 0..n {
            v.push(T::dec(inp)?);
        }
        Ok(v)
    }
}
impl<A: smallvec::Array> Facet for smallvec::SmallVec<A>
where
    A::Item: Facet,
{
    fn enc(&self, out: &mut Vec<u8>) {
        put_varint(self.len() as u64, out);
        for v in self {
            v.enc(out);
        }
    }
    fn dec(inp: &mut &[u8]) -> Result<Self, WireError> {
        let n = get_varint(inp)? as usize;
        let mut v = smallvec::SmallVec::new();
        for _ in 0..n {
            v.push(A::Item::dec(inp)?);
        }
        Ok(v)
    }
}
impl Facet for () {
    fn enc(&self, _: &mut Vec<u8>) {}
    fn dec(_: &mut &[u8]) -> Result<Self, WireError> {
        Ok(())
    }
}
impl<A: Facet, B: Facet> Facet for (A, B) {
    fn enc(&self, out: &mut Vec<u8>) {
        self.0.enc(out);
        self.1.enc(out);
    }
    fn dec(inp: &mut &[u8]) -> Result<Self, WireError> {
        Ok((A::dec(inp)?, B::dec(inp)?))
    }
}
macro_rules! int {
    ($($t:ty),*) => {$(
        impl Facet for $t {
            fn enc(&self, out: &mut Vec<u8>) {
                let v = *self as i64;
                put_varint(((v << 1) ^ (v >> 63)) as u64, out)
            }
            fn dec(inp: &mut &[u8]) -> Result<Self, WireError> {
                let v = get_varint(inp)?;
                <$t>::try_from((v >> 1) as i64 ^ -((v & 1) as i64)).map_err(|_| WireError("integer out of range".into()))
            }
        }
    )*};
}
int!(i16, i32, i64, isize);
impl Facet for char {
    fn enc(&self, out: &mut Vec<u8>) {
        enc_str(self.encode_utf8(&mut [0; 4]), out)
    }
    fn dec(inp: &mut &[u8]) -> Result<Self, WireError> {
        let s = String::dec(inp)?;
        let mut c = s.chars();
        match (c.next(), c.next()) {
            (Some(x), None) => Ok(x),
            _ => err("bad char"),
        }
    }
}
impl<A: Facet, B: Facet, C: Facet> Facet for (A, B, C) {
    fn enc(&self, out: &mut Vec<u8>) {
        self.0.enc(out);
        self.1.enc(out);
        self.2.enc(out);
    }
    fn dec(inp: &mut &[u8]) -> Result<Self, WireError> {
        Ok((A::dec(inp)?, B::dec(inp)?, C::dec(inp)?))
    }
}
macro_rules! map {
    ($($m:ident: $($b:ident)+),*) => {$(
        impl<K: Facet + Ord + std::hash::Hash, V: Facet> Facet for std::collections::$m<K, V> {
            fn enc(&self, out: &mut Vec<u8>) {
                put_varint(self.len() as u64, out);
                for (k, v) in self {
                    k.enc(out);
                    v.enc(out);
                }
            }
            fn dec(inp: &mut &[u8]) -> Result<Self, WireError> {
                let n = get_varint(inp)?;
                let mut m = Self::new();
                for _ in 0..n {
                    let k = K::dec(inp)?;
                    m.insert(k, V::dec(inp)?);
                }
                Ok(m)
            }
        }
    )*};
}
map!(BTreeMap: Ord, HashMap: Hash);
