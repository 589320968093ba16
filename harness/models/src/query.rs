//! Query strings: decoding against an independent encoder, and building/parsing round trips.
use std::collections::{BTreeMap, HashMap};
use moncore::*;
use pact_models::query_strings::*;
use pact_models::PactSpecification;

type Q = BTreeMap<String, Vec<Option<String>>>;

const CH: [char; 40] = ['a', 'b', 'Z', '0', '9', '-', '_', '.', '~', ' ', '+', '&', '=', '%', '#', '?', '/', ':', ';', ',', '"', '\'', '<', '>', '[', ']', '{', '}', '\\', '|', '^', '`', '@', '!', '$', '*', '(', ')', '\t', '\n'];
const UNI: [char; 10] = ['é', 'ÿ', '€', '❤', '日', '𝄞', '\u{7f}', '\u{80}', '\u{100}', '\u{fffd}'];

fn txt(r: &mut Rng, lo: usize, hi: usize, uni: bool) -> String {
  let n = r.range(lo as i64, hi as i64);
  (0..n).map(|_| if uni && r.chance(1, 3) { *r.pick(&UNI) } else if r.chance(1, 40) { (r.below(128) as u8) as char } else { *r.pick(&CH) }).collect()
}

/// A legal encoding of s, chosen at random among the many
fn enc(r: &mut Rng, s: &str, name: bool) -> String {
  let mut o = String::new();
  for c in s.chars() {
    let must = matches!(c, '%' | '&' | '+' | '#') || name && c == '=';
    if c == ' ' && r.bool() { o.push('+'); continue }
    if c == ' ' && r.bool() { o.push(' '); continue }
    if must || c == ' ' || r.chance(1, 3) {
      let mut b = [0; 4];
      for x in c.encode_utf8(&mut b).bytes() { if r.bool() { o.push_str(&format!("%{:02X}", x)) } else { o.push_str(&format!("%{:02x}", x)) } }
    } else { o.push(c) }
  }
  o
}

fn get(m: Option<HashMap<String, Vec<Option<String>>>>) -> Q { m.unwrap_or_default().into_iter().collect() }

fn parse_case(cx: &mut Cx) -> Verdict {
  let r = &mut cx.rng;
  let mut want: Q = BTreeMap::new();
  let mut parts = vec![];
  let names: Vec<String> = (0..r.range(1, 4)).map(|_| txt(r, 1, 6, true)).collect();
  for _ in 0..r.range(1, 7) {
    let n = r.pick(&names).clone();
    let v = if r.chance(1, 6) { None } else { Some(txt(r, 0, 10, true)) };
    parts.push(match &v { None => enc(r, &n, true), Some(v) => format!("{}={}", enc(r, &n, true), enc(r, v, false)) });
    want.entry(n).or_default().push(v);
    if r.chance(1, 8) { parts.push(String::new()); }
  }
  let q = parts.join("&");
  cx.note(format!("{:?}", q));
  let got = get(parse_query_string(&q));
  ensure!(got == want, "parse", "'{}' means {:?}, parsed as {:?}", q, want, got);
  let v2 = get(query_from_json(&json!(q), &PactSpecification::V2));
  ensure!(v2 == want, "from-json", "'{}' means {:?}, read as {:?}", q, want, v2);
  let v3 = get(v3_query_from_json(&json!(want), &PactSpecification::V3));
  ensure!(v3 == want, "v3-from-json", "{:?} read as {:?}", want, v3);
  cx.add("parameters decoded", want.values().map(|v| v.len() as u64).sum());
  cx.saw(q.clone());
  cx.sample(|| json!({"query": q, "meaning": want}));
  Ok(())
}

fn build_case(cx: &mut Cx) -> Verdict {
  let r = &mut cx.rng;
  let mut m: Q = BTreeMap::new();
  for _ in 0..r.range(1, 5) {
    let n = txt(r, 1, 6, true);
    let vs = (0..r.range(1, 4)).map(|_| if r.chance(1, 6) { None } else { Some(txt(r, 0, 10, false)) }).collect();
    m.insert(n, vs);
  }
  cx.note(format!("{:?}", m));
  let build = |m: &Q, rev: bool| {
    let mut h = HashMap::new();
    let mut v: Vec<_> = m.iter().collect();
    if rev { v.reverse() }
    for (k, x) in v { h.insert(k.clone(), x.clone()); }
    build_query_string(h)
  };
  let s = build(&m, false);
  let got = get(parse_query_string(&s));
  ensure!(got == m, "round-trip", "{:?} is written '{}' which reads {:?}", m, s, got);
  for _ in 0..3 { ensure!(build(&m, true) == s, "not-deterministic", "{:?}: '{}' and '{}'", m, s, build(&m, true)); }
  ensure!(s.bytes().all(|b| b != b' ' && b != b'#' && b != b'\n' || b == b'\n' && m.keys().any(|k| k.contains('\n'))), "unsafe", "'{}'", s);
  cx.add("parameters round tripped", m.values().map(|v| v.len() as u64).sum());
  cx.saw(s);
  Ok(())
}

fn total_case(cx: &mut Cx) -> Verdict {
  let r = &mut cx.rng;
  let q: String = match r.below(3) {
    0 => txt(r, 0, 30, true),
    1 => (0..r.range(0, 20)).map(|_| r.pick_s(&["%", "%%", "%4", "%zz", "%é", "%C3%A9", "%c3", "%ff", "=", "&", "+", "a", "%00", "%2", "❤"])).collect(),
    _ => { let c = gen_chars(r); c }
  };
  cx.note(format!("{:?}", q));
  for (what, f) in [("parse_query_string", 0), ("decode_query", 1), ("encode_query", 2)] {
    if let Err(p) = no_panic(|| match f { 0 => { parse_query_string(&q); } 1 => { let _ = decode_query(&q); } _ => { encode_query(&q); } }) { return violated("panic", format!("{}({:?}) panicked: {}", what, q, p)) }
  }
  // text that holds nothing encoded decodes to itself
  if !q.contains('%') && !q.contains('+') { ensure!(decode_query(&q).ok().as_deref() == Some(&q), "plain-text", "{:?} decoded as {:?}", q, decode_query(&q)); }
  // a malformed escape is kept as it is
  if q.contains('%') && !q.contains('+') {
    let b: Vec<char> = q.chars().collect();
    let any = b.windows(3).any(|w| w[0] == '%' && w[1].is_ascii_hexdigit() && w[2].is_ascii_hexdigit());
    if !any { ensure!(decode_query(&q).ok().as_deref() == Some(&q), "malformed-escape", "{:?} decoded as {:?}", q, decode_query(&q)); cx.tick("malformed escapes"); }
  }
  // no parameter invented or lost
  let n = q.split('&').filter(|p| !p.is_empty()).count();
  let got: usize = get(parse_query_string(&q)).values().map(|v| v.len()).sum();
  ensure!(n == got, "parameter-count", "{:?} has {} parameters, parsed {}", q, n, got);
  // each parameter is the one the text spells; one whose bytes are no text stays as it is written
  let mut want: HashMap<String, Vec<Option<String>>> = HashMap::new();
  for p in q.split('&').filter(|p| !p.is_empty()) {
    let (n, v) = match p.split_once('=') { Some((n, v)) => (n, Some(v)), None => (p, None) };
    match (bytes_of(n), v.map(bytes_of)) {
      (Some(n2), v2) if v2 != Some(None) => {
        let t = |b: Vec<u8>, raw: &str| String::from_utf8(b).unwrap_or_else(|_| raw.to_string());
        if let Some(Some(b)) = &v2 { if std::str::from_utf8(b).is_err() { cx.tick("values that are no text") } }
        want.entry(t(n2, n)).or_default().push(v2.flatten().map(|b| t(b, v.unwrap())));
      }
      _ => { want.clear(); break }
    }
  }
  if !want.is_empty() { let got = parse_query_string(&q).unwrap_or_default(); ensure!(got == want, "parameters", "{:?} is read as {:?}, expected {:?}", q, got, want); cx.tick("legal queries among any texts") }
  // ASCII text survives
  if q.is_ascii() { ensure!(decode_query(&encode_query(&q)).ok().as_deref() == Some(&q), "encode-decode", "{:?} -> {:?}", q, encode_query(&q)); cx.tick("encoded and decoded"); }
  cx.saw(q);
  Ok(())
}

/// The bytes a piece of a query spells, if all of its escapes are legal
fn bytes_of(s: &str) -> Option<Vec<u8>> {
  let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
  while i < b.len() {
    match b[i] {
      b'%' => { let h = |k: usize| b.get(i + k).and_then(|c| (*c as char).to_digit(16)); o.push((h(1)? * 16 + h(2)?) as u8); i += 3 }
      b'+' => { o.push(b' '); i += 1 }
      c => { o.push(c); i += 1 }
    }
  }
  Some(o)
}

fn gen_chars(r: &mut Rng) -> String { (0..r.range(0, 10)).map(|_| loop { if let Some(c) = char::from_u32(r.below(0x110000) as u32) { break c } }).collect() }

fn non_ascii_values() -> Verdict {
  for s in ["é", "❤", "日本", "𝄞"] {
    let q = encode_query(s);
    ensure!(decode_query(&q).ok().as_deref() == Some(s), "non-ascii-value", "{:?} is encoded '{}', which decodes to {:?}", s, q, decode_query(&q));
  }
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P07", level: "exploration",
    rule: "Seeded query strings written by an independent encoder (random legal encodings, repeated names, bare and empty values, empty segments) against their meaning; seeded maps built and parsed back; arbitrary text for totality. Non-trivial: each distinct query string.",
    assumptions: vec!["Parameters with an empty name are not written."],
    phases: vec![phase("parse", 12000, parse_case), phase("build", 12000, build_case), phase("total", 20000, total_case)],
    floors: vec![("parameters decoded", 10000), ("parameters round tripped", 10000), ("malformed escapes", 200), ("values that are no text", 20), ("legal queries among any texts", 5000), ("encoded and decoded", 2000)],
    probes: vec![("non-ascii-value", non_ascii_values)]
  }
}
