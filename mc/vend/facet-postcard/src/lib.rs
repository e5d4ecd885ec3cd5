//! Stand-in for facet-postcard over the stand-in wire format.
use facet::{Facet, WireError};
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SerializeError(pub String);
impl std::fmt::Display for SerializeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SerializeError {}
pub type DeserializeError = WireError;
pub fn to_vec<T: Facet>(v: &T) -> Result<Vec<u8>, SerializeError> {
    let mut out = Vec::new();
    v.enc(&mut out);
    Ok(out)
}
pub fn from_slice<T: Facet>(bytes: &[u8]) -> Result<T, DeserializeError> {
    let mut inp = bytes;
    T::dec(&mut inp)
}
