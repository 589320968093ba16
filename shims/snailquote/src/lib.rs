//! Stand-in for `snailquote`: escape/unescape of printable strings; the two are inverse.
use std::borrow::Cow;
#[derive(Debug)]
pub struct UnescapeError(String);
impl std::fmt::Display for UnescapeError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) }
}
impl std::error::Error for UnescapeError {}

fn plain(c: char) -> bool { c.is_alphanumeric() || "-_=/,.+@%:".contains(c) }
fn printable(c: char) -> bool { !c.is_control() && (c == ' ' || !c.is_whitespace()) }

pub fn escape(s: &str) -> Cow<'_, str> {
    if !s.is_empty() && s.chars().all(plain) { return Cow::Borrowed(s) }
    if s.chars().all(|c| printable(c) && c != '\'' && c != '\\') { return Cow::Owned(format!("'{}'", s)) }
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' | '$' => { o.push('\\'); o.push(c) }
            '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if printable(c) => o.push(c),
            c => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
        }
    }
    o.push('"');
    Cow::Owned(o)
}

pub fn unescape(s: &str) -> Result<String, UnescapeError> {
    let mut o = String::new();
    let mut it = s.chars();
    let bad = |m: &str| UnescapeError(m.to_string());
    let (mut single, mut double) = (false, false);
    while let Some(c) = it.next() {
        if single { if c == '\'' { single = false } else { o.push(c) } continue }
        match c {
            '\'' if !double => single = true,
            '"' => double = !double,
            '\\' => match it.next().ok_or_else(|| bad("trailing backslash"))? {
                'n' => o.push('\n'), 'r' => o.push('\r'), 't' => o.push('\t'),
                'u' => {
                    if it.next() != Some('{') { return Err(bad("bad unicode escape")) }
                    let h: String = it.by_ref().take_while(|c| *c != '}').collect();
                    o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or_else(|| bad("bad unicode"))?);
                }
                c @ ('"' | '\\' | '$' | '\'' | '`' | ' ') => o.push(c),
                c => return Err(bad(&format!("invalid escape {}", c))),
            },
            c => o.push(c),
        }
    }
    if single || double { Err(bad("unterminated quote")) } else { Ok(o) }
}
