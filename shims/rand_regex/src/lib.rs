//! Stand-in: samples strings that match a parsed regular expression.
use rand::Rng;
use rand::distributions::Distribution;
use regex_syntax::hir::{Class, Hir, HirKind, Literal, RepetitionKind, RepetitionRange};
#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
pub struct Regex { hir: Hir, max: u32 }
impl Regex {
  pub fn with_hir(hir: Hir, max_repeat: u32) -> Result<Regex, Error> { Ok(Regex { hir, max: max_repeat }) }
}
fn sample<R: Rng + ?Sized>(h: &Hir, max: u32, rng: &mut R, out: &mut String) {
  match h.kind() {
    HirKind::Empty | HirKind::Anchor(_) | HirKind::WordBoundary(_) => {},
    HirKind::Literal(Literal::Unicode(c)) => out.push(*c),
    HirKind::Literal(Literal::Byte(b)) => out.push(*b as char),
    HirKind::Class(Class::Unicode(c)) => {
      let r = c.ranges(); if r.is_empty() { return; }
      let x = r[rng.gen_range(0..r.len())];
      out.push(char::from_u32(rng.gen_range(x.start() as u32..=x.end() as u32)).unwrap_or(x.start()));
    },
    HirKind::Class(Class::Bytes(c)) => {
      let r = c.ranges(); if r.is_empty() { return; }
      let x = r[rng.gen_range(0..r.len())];
      out.push(rng.gen_range(x.start()..=x.end()) as char);
    },
    HirKind::Repetition(r) => {
      let (lo, hi) = match r.kind {
        RepetitionKind::ZeroOrOne => (0, 1), RepetitionKind::ZeroOrMore => (0, max), RepetitionKind::OneOrMore => (1, max + 1),
        RepetitionKind::Range(RepetitionRange::Exactly(n)) => (n, n),
        RepetitionKind::Range(RepetitionRange::AtLeast(n)) => (n, n + max),
        RepetitionKind::Range(RepetitionRange::Bounded(a, b)) => (a, b)
      };
      for _ in 0..rng.gen_range(lo..=hi) { sample(&r.hir, max, rng, out); }
    },
    HirKind::Group(g) => sample(&g.hir, max, rng, out),
    HirKind::Concat(v) => v.iter().for_each(|h| sample(h, max, rng, out)),
    HirKind::Alternation(v) => { let i = rng.gen_range(0..v.len()); sample(&v[i], max, rng, out) }
  }
}
impl Distribution<String> for Regex {
  fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> String { let mut s = String::new(); sample(&self.hir, self.max, rng, &mut s); s }
}
