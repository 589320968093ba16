//! Stand-in for `md5` (used only to hash a host name for metrics that the checks disable).
pub struct Digest([u8; 16]);
impl std::fmt::LowerHex for Digest {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { for b in self.0 { write!(f, "{:02x}", b)?; } Ok(()) }
}
pub fn compute<T: AsRef<[u8]>>(d: T) -> Digest {
    let mut o = [0u8; 16];
    for (i, b) in d.as_ref().iter().enumerate() { o[i % 16] = o[i % 16].wrapping_mul(31).wrapping_add(*b); }
    Digest(o)
}
