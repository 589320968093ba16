//! Stand-in for `infer`: magic bytes of a few common formats.
pub struct Type(&'static str);
impl Type { pub fn mime_type(&self) -> &'static str { self.0 } }
pub fn get(d: &[u8]) -> Option<Type> {
    let t = if d.starts_with(&[0xff, 0xd8, 0xff]) { "image/jpeg" }
    else if d.starts_with(&[0x89, b'P', b'N', b'G']) { "image/png" }
    else if d.starts_with(b"GIF8") { "image/gif" }
    else if d.starts_with(b"%PDF") { "application/pdf" }
    else if d.starts_with(&[b'P', b'K', 3, 4]) { "application/zip" }
    else if d.starts_with(&[0x1f, 0x8b, 8]) { "application/gzip" }
    else { return None };
    Some(Type(t))
}
