//! Stand-in for facet-json: same shape of API, the text is the hex form of the
//! stand-in wire format (no JSON is produced; only the round trip matters here).
use facet::{Facet, WireError};
pub type SerializeError = WireError;
pub type DeserializeError = WireError;
pub fn to_string<T: Facet>(v: &T) -> Result<String, SerializeError> {
    let mut out = Vec::new();
    v.enc(&mut out);
    Ok(out.iter().map(|b| format!("{b:02x}")).collect())
}
pub fn from_str<T: Facet>(s: &str) -> Result<T, DeserializeError> {
    if !s.is_ascii() || s.len() % 2 != 0 {
        return Err(WireError("bad text".into()));
    }
    let mut b = Vec::new();
    for i in (0..s.len()).step_by(2) {
        b.push(u8::from_str_radix(&s[i..i + 2], 16).map_err(|_| WireError("bad text".into()))?);
    }
    T::dec(&mut &b[..])
}
