//! Stand-in for the `onig` crate (not available offline): the subset of its API that
//! pact-reference uses, backed by `fancy-regex` (a backtracking engine, like Oniguruma).
//! Semantics kept: `is_match` succeeds only if the whole text can be matched
//! (`ONIG_OPTION_MATCH_WHOLE_STRING`); `^`/`$` are line anchors (Ruby syntax).
use std::borrow::Cow;

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) }
}
impl std::error::Error for Error {}

#[derive(Debug)]
pub struct Regex { search: fancy_regex::Regex, anchored: fancy_regex::Regex }

pub struct Captures<'t> { caps: fancy_regex::Captures<'t> }
impl<'t> Captures<'t> {
    pub fn at(&self, n: usize) -> Option<&'t str> { self.caps.get(n).map(|m| m.as_str()) }
    pub fn pos(&self, n: usize) -> Option<(usize, usize)> { self.caps.get(n).map(|m| (m.start(), m.end())) }
    pub fn len(&self) -> usize { self.caps.len() }
    pub fn is_empty(&self) -> bool { self.caps.len() == 0 }
}

pub trait Replacer { fn reg_replace(&mut self, caps: &Captures) -> Cow<'_, str>; }
impl<F> Replacer for F where F: FnMut(&Captures) -> String {
    fn reg_replace(&mut self, caps: &Captures) -> Cow<'_, str> { Cow::Owned(self(caps)) }
}
impl Replacer for &str {
    fn reg_replace(&mut self, _: &Captures) -> Cow<'_, str> { Cow::Borrowed(self) }
}

impl Regex {
    pub fn new(p: &str) -> Result<Self, Error> {
        let e = |e: fancy_regex::Error| Error(e.to_string());
        Ok(Regex {
            search: fancy_regex::Regex::new(&format!("(?m:{})", p)).map_err(e)?,
            anchored: fancy_regex::Regex::new(&format!("\\A(?m:{})\\z", p)).map_err(e)?,
        })
    }
    pub fn is_match(&self, text: &str) -> bool {
        matches!(self.anchored.is_match(text), Ok(true))
    }
    pub fn find(&self, text: &str) -> Option<(usize, usize)> {
        self.search.find(text).ok().flatten().map(|m| (m.start(), m.end()))
    }
    pub fn captures<'t>(&self, text: &'t str) -> Option<Captures<'t>> {
        self.search.captures(text).ok().flatten().map(|caps| Captures { caps })
    }
    pub fn replace<R: Replacer>(&self, text: &str, r: R) -> String { self.replacen(text, 1, r) }
    pub fn replace_all<R: Replacer>(&self, text: &str, r: R) -> String { self.replacen(text, 0, r) }
    pub fn replacen<R: Replacer>(&self, text: &str, limit: usize, mut r: R) -> String {
        let mut out = String::new();
        let (mut last, mut n) = (0, 0);
        for c in self.search.captures_iter(text) {
            let Ok(caps) = c else { break };
            if limit > 0 && n >= limit { break }
            n += 1;
            let m = caps.get(0).unwrap();
            out.push_str(&text[last..m.start()]);
            last = m.end();
            out.push_str(&r.reg_replace(&Captures { caps }));
        }
        out.push_str(&text[last..]);
        out
    }
}

/// Only the name is used (an import).
pub trait EncodedChars {
    fn byte_len(&self) -> usize;
}
impl EncodedChars for &str { fn byte_len(&self) -> usize { str::len(self) } }
