//! Stand-in for `tree_magic_mini`.
pub fn from_u8(d: &[u8]) -> &'static str {
    if std::str::from_utf8(d).map(|s| !s.chars().any(|c| c.is_control() && !c.is_whitespace())).unwrap_or(false) { "text/plain" } else { "application/octet-stream" }
}
