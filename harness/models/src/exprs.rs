//! Matching rule definition expressions: definitions built first, written second, read back third.
use moncore::*;
use pact_models::expression_parser::DataType;
use pact_models::generators::Generator;
use pact_models::matchingrules::expressions::{is_matcher_def, parse_matcher_def, MatchingRuleDefinition, ValueType};
use pact_models::matchingrules::MatchingRule;

#[derive(Clone, Debug)]
enum Rule { Plain(MatchingRule), EachKey(Box<Def>), EachValue(Box<Def>), Ref(String) }
#[derive(Clone, Debug)]
struct Def { value: String, vt: ValueType, rules: Vec<Rule>, gen: Option<Generator> }

const CH: &[char] = &['a', 'Z', '0', '9', ' ', '.', ',', '(', ')', '"', '$', '%', '#', '-', '_', '{', '}', '[', ']', '*', '+', '?', '|', '^', '/', ':', 'é', 'ß', '中', '😀', '\u{301}', '\'', '\\', '\n', '\t', '\r', '\u{8}', '\u{c}', '\u{0}', '\u{7f}'];

/// Writes a text as a string literal, picking among the spellings each character has
fn lit(r: &mut Rng, s: &str) -> String {
  let mut o = String::from("'");
  let cs: Vec<char> = s.chars().collect();
  let mut plain = false;
  for (i, c) in cs.iter().enumerate() {
    if std::mem::take(&mut plain) { o.push(*c); continue }
    let next = cs.get(i + 1).copied();
    match c {
      '\'' => match r.below(8) { 0..=2 => o.push_str("\\u0027"), 3..=5 => o.push_str("\\u{27}"), _ => o.push_str("\\'") },
      // an escape which does not mean anything stands for itself
      '\\' => if matches!(next, Some('w' | 'd' | '.' | '$' | '-' | '(' | '[' | ' ' | '0' | 'Z')) && r.bool() { o.push('\\'); plain = true } else { o.push_str("\\\\") },
      '\n' if r.chance(2, 3) => o.push_str("\\n"),
      '\t' if r.chance(2, 3) => o.push_str("\\t"),
      '\r' if r.chance(2, 3) => o.push_str("\\r"),
      '\u{8}' if r.chance(2, 3) => o.push_str("\\b"),
      '\u{c}' if r.chance(2, 3) => o.push_str("\\f"),
      c if r.chance(1, 12) => {
        let u = *c as u32;
        let h = if r.bool() { format!("{:x}", u) } else { format!("{:X}", u) };
        if u < 0x10000 && r.bool() { o.push_str(&format!("\\u{:0>4}", h)) } else { let w = h.len() + r.us(3); o.push_str(&format!("\\u{{{:0>1$}}}", h, w)) }
      }
      c => o.push(*c)
    }
  }
  o.push('\''); o
}

fn text(r: &mut Rng) -> String {
  match r.below(6) {
    0 => r.pick_s(&["", "Name", "100", "true", "null", "\\d+", "\\w{3}\\d+", "it's", "'", "''", "\\", "\\\\", "a\\", "C:\\dir\\", "'quoted'", "\\'", "a, b", "matching(type, 'x')"]),
    1 => r.string_from(&['\'', '\\', 'w', ','], 0, 6),
    _ => r.string_from(CH, 0, 12)
  }
}

fn integer(r: &mut Rng) -> String { match r.below(6) { 0 => "0".into(), 1 => r.range(-9, 9).to_string(), 2 => r.range(-99999, 99999).to_string(), 3 => r.pick(&[i64::MAX, i64::MIN, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64]).to_string(), _ => r.range(0, 1000).to_string() } }
fn decimal(r: &mut Rng) -> String { let d = r.range(1, 5) as usize; let i = match r.below(4) { 0 => r.range(0, 9), 1 => r.range(0, 100000), _ => r.range(0, 200) }; let f = r.string_from(&['0', '1', '5', '9'], d, d); format!("{}{}.{}", if r.chance(1, 3) { "-" } else { "" }, i, f) }

type T = Vec<String>;
fn t(ts: &mut T, xs: &[&str]) { for x in xs { ts.push(x.to_string()) } }

/// A value literal: tokens, the value and its type
fn prim(r: &mut Rng, ts: &mut T) -> (String, ValueType) {
  match r.below(6) {
    0 => { let n = integer(r); ts.push(n.clone()); (n, ValueType::Integer) }
    1 => { let n = decimal(r); ts.push(n.clone()); (n, ValueType::Decimal) }
    2 => { let b = r.pick_s(&["true", "false"]); ts.push(b.clone()); (b, ValueType::Boolean) }
    3 => { t(ts, &["null"]); (String::new(), ValueType::String) }
    _ => { let s = text(r); ts.push(lit(r, &s)); (s, ValueType::String) }
  }
}
fn data_type(v: ValueType) -> DataType { match v { ValueType::Unknown => DataType::RAW, ValueType::String => DataType::STRING, ValueType::Number | ValueType::Decimal => DataType::DECIMAL, ValueType::Integer => DataType::INTEGER, ValueType::Boolean => DataType::BOOLEAN } }
fn from_state(r: &mut Rng, ts: &mut T, f: impl FnOnce(&mut Rng, &mut T) -> (String, ValueType)) -> (String, ValueType, Option<Generator>) {
  let e = match r.below(3) { 0 => "${id}".to_string(), 1 => "id".to_string(), _ => text(r) };
  t(ts, &["fromProviderState", "("]); ts.push(lit(r, &e)); t(ts, &[","]);
  let (v, ty) = f(r, ts);
  t(ts, &[")"]);
  (v, ty, Some(Generator::ProviderStateGenerator(e, Some(data_type(ty)))))
}
fn value(r: &mut Rng, ts: &mut T) -> (String, ValueType, Option<Generator>) {
  if r.chance(1, 4) { from_state(r, ts, prim) } else { let (v, y) = prim(r, ts); (v, y, None) }
}

fn matching(r: &mut Rng, ts: &mut T) -> Def {
  t(ts, &["matching", "("]);
  let d = |value: String, vt, rule, gen| Def { value, vt, rules: vec![Rule::Plain(rule)], gen };
  let k = r.below(14);
  let out = match k {
    0 => { t(ts, &["equalTo", ","]); let (v, y, g) = value(r, ts); d(v, y, MatchingRule::Equality, g) }
    1 => { t(ts, &["type", ","]); let (v, y, g) = value(r, ts); d(v, y, MatchingRule::Type, g) }
    2 => { t(ts, &["number", ","]);
      if r.chance(1, 3) { let (v, y, g) = from_state(r, ts, |r, ts| { let i = r.bool(); let n = if i { integer(r) } else { decimal(r) }; ts.push(n.clone()); (n, if i { ValueType::Integer } else { ValueType::Decimal }) }); d(v, y, MatchingRule::Number, g) }
      else { let n = if r.bool() { integer(r) } else { decimal(r) }; ts.push(n.clone()); d(n, ValueType::Number, MatchingRule::Number, None) } }
    3 => { t(ts, &["integer", ","]);
      if r.chance(1, 3) { let (v, y, g) = from_state(r, ts, |r, ts| { let n = integer(r); ts.push(n.clone()); (n, ValueType::Integer) }); d(v, y, MatchingRule::Integer, g) }
      else { let n = integer(r); ts.push(n.clone()); d(n, ValueType::Integer, MatchingRule::Integer, None) } }
    4 => { t(ts, &["decimal", ","]);
      if r.chance(1, 3) { let (v, y, g) = from_state(r, ts, |r, ts| { let n = decimal(r); ts.push(n.clone()); (n, ValueType::Decimal) }); d(v, y, MatchingRule::Decimal, g) }
      else { let n = decimal(r); ts.push(n.clone()); d(n, ValueType::Decimal, MatchingRule::Decimal, None) } }
    5 | 6 | 7 => {
      let f = match r.below(3) { 0 => text(r), _ => r.pick_s(&["yyyy-MM-dd", "HH:mm:ss", "yyyy-MM-dd'T'HH:mm:ssZZZZZ", "HH 'o''clock'"]) };
      let (w, m, g) = match k { 5 => ("datetime", MatchingRule::Timestamp(f.clone()), Generator::DateTime(Some(f.clone()), None)), 6 => ("date", MatchingRule::Date(f.clone()), Generator::Date(Some(f.clone()), None)), _ => ("time", MatchingRule::Time(f.clone()), Generator::Time(Some(f.clone()), None)) };
      t(ts, &[w, ","]); ts.push(lit(r, &f)); t(ts, &[","]);
      if r.chance(1, 3) { let (v, y, g) = from_state(r, ts, |r, ts| { let s = text(r); ts.push(lit(r, &s)); (s, ValueType::String) }); d(v, y, m, g) }
      else { let s = text(r); ts.push(lit(r, &s)); d(s, ValueType::String, m, Some(g)) }
    }
    8 => { let (e, s) = (text(r), text(r)); t(ts, &["regex", ","]); ts.push(lit(r, &e)); t(ts, &[","]); ts.push(lit(r, &s)); d(s, ValueType::String, MatchingRule::Regex(e), None) }
    9 => { let s = text(r); t(ts, &["include", ","]); ts.push(lit(r, &s)); d(s.clone(), ValueType::String, MatchingRule::Include(s), None) }
    10 => { let b = r.pick_s(&["true", "false"]); t(ts, &["boolean", ","]); ts.push(b.clone()); d(b, ValueType::Boolean, MatchingRule::Boolean, None) }
    11 => { let s = format!("{}.{}.{}{}", r.range(0, 20), r.range(0, 300), r.range(0, 9), r.pick(&["", "-rc.1", "+build.5", "-alpha"])); t(ts, &["semver", ","]); ts.push(lit(r, &s)); d(s, ValueType::String, MatchingRule::Semver, None) }
    12 => { let c = r.pick_s(&["application/xml", "image/jpeg", "text/plain;charset=utf-8", ""]); let s = text(r); t(ts, &["contentType", ","]); ts.push(lit(r, &c)); t(ts, &[","]); ts.push(lit(r, &s)); d(s, ValueType::Unknown, MatchingRule::ContentType(c), None) }
    _ => { let s = text(r); t(ts, &["$"]); ts.push(lit(r, &s)); Def { value: s.clone(), vt: ValueType::Unknown, rules: vec![Rule::Ref(s)], gen: None } }
  };
  t(ts, &[")"]);
  out
}

fn single(r: &mut Rng, ts: &mut T, depth: u32) -> Def {
  let k = if depth == 0 { r.below(7) } else { r.below(11) };
  let plain = |x| Def { value: String::new(), vt: ValueType::Unknown, rules: vec![x], gen: None };
  match k {
    0..=3 => matching(r, ts),
    4 => { t(ts, &["notEmpty", "("]); let (v, vt, gen) = value(r, ts); t(ts, &[")"]); Def { value: v, vt, rules: vec![Rule::Plain(MatchingRule::NotEmpty)], gen } }
    5 | 6 => { let n = match r.below(4) { 0 => 0, 1 => *r.pick(&[u32::MAX as usize, i32::MAX as usize, i64::MAX as usize]), _ => r.us(50) }; t(ts, &[if k == 5 { "atLeast" } else { "atMost" }, "("]); ts.push(n.to_string()); t(ts, &[")"]); plain(Rule::Plain(if k == 5 { MatchingRule::MinType(n) } else { MatchingRule::MaxType(n) })) }
    7 | 8 => { t(ts, &["eachKey", "("]); let x = single(r, ts, depth - 1); t(ts, &[")"]); plain(Rule::EachKey(Box::new(x))) }
    _ => { t(ts, &["eachValue", "("]); let x = single(r, ts, depth - 1); t(ts, &[")"]); plain(Rule::EachValue(Box::new(x))) }
  }
}

fn rank(v: ValueType) -> u32 { match v { ValueType::Unknown => 0, ValueType::Boolean => 1, ValueType::Number => 2, ValueType::Integer => 3, ValueType::Decimal => 4, ValueType::String => 5 } }

fn join(mut a: Def, b: Def) -> Def {
  if a.value.is_empty() { a.value = b.value }
  if rank(b.vt) > rank(a.vt) { a.vt = b.vt }
  a.rules.extend(b.rules);
  a.gen = a.gen.or(b.gen);
  a
}

fn definition(r: &mut Rng) -> (T, Def) {
  let mut ts = vec![];
  let mut d = single(r, &mut ts, 3);
  let n = *r.pick(&[0, 0, 0, 1, 1, 2, 3]);
  for _ in 0..n { t(&mut ts, &[","]); let e = single(r, &mut ts, 2); d = join(d, e) }
  (ts, d)
}

fn word(s: &str) -> bool { s.chars().all(|c| c.is_ascii_alphanumeric() || c == '.' || c == '-') }
/// Tokens to text with arbitrary white space, which is needed only between two words
fn print(r: &mut Rng, ts: &[String]) -> String {
  let style = r.below(4);
  let mut o = String::new();
  for (i, x) in ts.iter().enumerate() {
    let need = i > 0 && (word(&ts[i - 1]) && word(x) || ts[i - 1].starts_with('\'') && x.starts_with('\''));
    match style {
      0 => if need { o.push(' ') },
      1 => if need || i > 0 && ts[i - 1] == "," { o.push(' ') },
      _ => { let n = r.us(3).max(need as usize); for _ in 0..n { o.push(*r.pick(&[' ', ' ', '\t', '\n'])) } }
    }
    o.push_str(x);
  }
  o
}

/// `\'` is read as both of its characters (known finding, with a probe of its own), so the two are not told apart
fn quotes(s: &str) -> String {
  let mut o = String::new();
  for c in s.chars() { if c == '\'' { while o.ends_with('\\') { o.pop(); } } o.push(c) }
  o
}
fn shown<X: std::fmt::Debug>(x: &X) -> String { quotes(&format!("{:?}", x)) }

fn same(d: &MatchingRuleDefinition, m: &Def) -> Result<(), String> {
  if quotes(&d.value) != quotes(&m.value) { return Err(format!("the value is {:?} and not {:?}", d.value, m.value)) }
  if d.value_type != m.vt { return Err(format!("the type of the value is {:?} and not {:?}", d.value_type, m.vt)) }
  if shown(&d.generator) != shown(&m.gen) { return Err(format!("the generator is {:?} and not {:?}", d.generator, m.gen)) }
  if d.rules.len() != m.rules.len() { return Err(format!("there are {} rules and not {}", d.rules.len(), m.rules.len())) }
  for (a, b) in d.rules.iter().zip(&m.rules) {
    let ok = match (a.as_ref().left(), a.as_ref().right(), b) {
      (Some(MatchingRule::EachKey(x)), _, Rule::EachKey(y)) => { same(x, y)?; true }
      (Some(MatchingRule::EachValue(x)), _, Rule::EachValue(y)) => { same(x, y)?; true }
      (Some(x), _, Rule::Plain(y)) => shown(x) == shown(y),
      (_, Some(x), Rule::Ref(y)) => quotes(&x.name) == quotes(y),
      _ => false
    };
    if !ok { return Err(format!("the rule is {:?} and not {:?}", a, b)) }
  }
  Ok(())
}

fn parse(s: &str) -> Result<Result<MatchingRuleDefinition, String>, Violation> { no_panic(|| parse_matcher_def(s).map_err(|e| e.to_string())).map_err(|e| Violation { sig: "crash".into(), detail: format!("{:?}: {}", s, e) }) }

fn accept_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let (ts, m) = definition(r);
  let s = print(r, &ts);
  let d = match parse(&s)? { Ok(d) => d, Err(e) => return violated("refused", format!("{:?} was refused: {}", s, e)) };
  cx.add("definitions read", 1); cx.add("rules read", m.rules.len() as u64);
  cx.saw(&s);
  if let Err(e) = same(&d, &m) { return violated("meaning", format!("{:?}: {}", s, e)) }
  ensure!(is_matcher_def(&s), "recognised", "{:?} is a definition, but is not recognised as one", s);
  ensure!(d.expression() == s, "expression", "{:?} remembers {:?} as the expression it was read from", s, d.expression());
  // the same with other white space
  let s2 = print(r, &ts);
  match parse(&s2)? { Ok(d2) => ensure!(same(&d2, &m).is_ok() && d2.rules.len() == d.rules.len(), "space", "{:?} and {:?} do not mean the same", s, s2), Err(e) => return violated("space", format!("{:?} was refused: {}", s2, e)) }
  // composing two definitions is joining them with a comma
  let (ts3, m3) = definition(r); let s3 = print(r, &ts3);
  let d3 = match parse(&s3)? { Ok(d) => d, Err(e) => return violated("refused", format!("{:?} was refused: {}", s3, e)) };
  let merged = d.merge(&d3);
  let both = join(m.clone(), m3);
  if let Err(e) = same(&merged, &both) { return violated("merge", format!("{:?} merged with {:?}: {}", s, s3, e)) }
  let joined = format!("{},{}", s, s3);
  match parse(&joined)? { Ok(d) => if let Err(e) = same(&d, &both) { return violated("compose", format!("{:?}: {}", joined, e)) }, Err(e) => return violated("refused", format!("{:?} was refused: {}", joined, e)) }
  cx.add("definitions composed", 1);
  Ok(())
}

fn reject_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let (mut ts, _) = definition(r);
  let what = match r.below(9) {
    0 | 1 => { let i = r.us(ts.len()); let x = ts.remove(i); if ts.is_empty() { return Ok(()) } format!("token {} ({}) taken out", i, x) }
    2 => { let i = r.us(ts.len() + 1); let x = r.pick_s(&["(", ")", ",", "'x'", "5", "-1", "1.5", "true", "null", "$", "type", "matching", "eachKey", "other"]); ts.insert(i, x.clone()); format!("token {} ({}) put in", i, x) }
    3 => { let i = r.us(ts.len() + 1); let x = r.pick_s(&["#", ";", "@", "é", "\"", "[", "]", "{", "}", "=", "'", "\\", "💥", ":", "&", "1.", ".", "-"]);
      // a lone quote swallows what follows it up to the next one
      if x == "'" && ts[i..].iter().any(|t| t.contains('\'')) { return Ok(()) }
      if x.ends_with('.') && ts.get(i).map(|t| t.starts_with(|c: char| c.is_ascii_digit())).unwrap_or(false) { return Ok(()) }
      ts.insert(i, x.clone()); format!("{} put in before token {}", x, i) }
    4 => { let Some(i) = ts.iter().position(|t| matches!(t.as_str(), "type" | "equalTo" | "regex" | "number" | "integer" | "decimal" | "datetime" | "date" | "time" | "include" | "boolean" | "semver" | "contentType")) else { return Ok(()) }; ts[i] = r.pick_s(&["Type", "types", "equal", "reg", "num", "int", "timestamp", "semvers", "min", "eachKey", "true", "'type'"]); "unknown matcher".to_string() }
    5 => { let Some(i) = ts.iter().position(|t| matches!(t.as_str(), "matching" | "notEmpty" | "eachKey" | "eachValue" | "atLeast" | "atMost")) else { return Ok(()) }; let x = r.pick_s(&["match", "Matching", "empty", "each", "atleast", "", "type"]); ts[i] = x; if ts[i].is_empty() { ts.remove(i); } "unknown definition".to_string() }
    6 => { let (w, bad): (&str, &[&str]) = *r.pick(&[("number", &["'1'", "true", "null", "abc", "1.", "1.'x'", "1.)", "1.5.5", "-", "--1", ".5", "-.5", "1.-5", "1. 5", "1 .5", "1.#"][..]), ("integer", &["'1'", "1.5", "true", "null", "-1.5"][..]), ("decimal", &["'1'", "true", "null", "1.", "100.", "1.x", "-1.", "1.é"][..]), ("boolean", &["'true'", "1", "null", "yes"][..]), ("semver", &["'1'", "1", "'1.2'", "'1.2.x'", "''", "'v1.2.3'", "'01.2.3'", "'1.2.3.4'", "'1.2.3-'", "'=1.2.3'"][..]), ("include", &["1", "true", "null"][..]), ("type", &["abc", "$", "type", "1.", "-1.", "1.,", "1.true", "12.'3'", "1.#"][..]), ("equalTo", &["abc", "matching"][..])]);
      ts = vec!["matching".into(), "(".into(), w.into(), ",".into(), r.pick_s(bad), ")".into()]; "example of the wrong kind".to_string() }
    7 => { let w = r.pick_s(&["atLeast", "atMost"]); ts = vec![w, "(".into(), r.pick_s(&["-1", "'1'", "1.5", "true", "99999999999999999999999", "x"]), ")".into()]; "length of the wrong kind".to_string() }
    _ => { let (w, c, e) = *r.pick(&[("regex", "5", "'x'"), ("date", "true", "'x'"), ("time", "'HH'", "5"), ("datetime", "yyyy", "'2000'"), ("contentType", "'text/plain'", "null"), ("contentType", "text", "'x'"), ("regex", "'\\d'", "1")]); ts = ["matching", "(", w, ",", c, ",", e, ")"].iter().map(|s| s.to_string()).collect(); "configuration or example of the wrong kind".to_string() }
  };
  let s = print(r, &ts);
  match parse(&s)? {
    Ok(d) => violated("accepted", format!("{:?} ({}) was accepted as {:?}", s, what, d)),
    Err(e) => { cx.add("damaged definitions refused", 1); cx.saw(&s); ensure!(!e.trim().is_empty(), "message", "{:?} was refused without a message", s); Ok(()) }
  }
}

fn escape_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let bad = r.pick_s(&["\\u", "\\u1", "\\u12", "\\u123", "\\uzzzz", "\\u{", "\\u{}", "\\u{xyz}", "\\u{110000000000}", "\\u12G4"]);
  let pre = lit(r, &r.clone().string_from(&['a', 'é', '\\', '\''], 0, 4));
  let body = format!("{}{}'", &pre[..pre.len() - 1], bad);
  let s = match r.below(4) { 0 => format!("matching(regex, {}, 'x')", body), 1 => format!("matching(type, {})", body), 2 => format!("notEmpty({})", body), _ => format!("matching($ {})", body) };
  match parse(&s)? { Ok(d) => violated("bad-escape", format!("{:?} was accepted as {:?}", s, d)), Err(_) => { cx.add("bad escapes refused", 1); cx.saw(&s); Ok(()) } }
}

fn total_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let s = match r.below(4) {
    0 => r.string_from(CH, 0, 30),
    1 => { let (ts, _) = definition(r); let s = print(r, &ts); let mut c: Vec<char> = s.chars().collect(); for _ in 0..r.range(1, 4) { if c.is_empty() { break } let i = r.us(c.len()); match r.below(3) { 0 => { c.remove(i); } 1 => c.insert(i, *r.pick(CH)), _ => c[i] = *r.pick(CH) } } c.into_iter().collect() }
    2 => { let n = r.us(14); let mut ts: T = vec![]; for _ in 0..n { ts.push(r.pick_s(&["matching", "notEmpty", "eachKey", "eachValue", "atLeast", "atMost", "(", ")", ",", "$", "'é'", "'a\\'", "5", "1.", ".5", "-", "100.00", "type", "number", "decimal", "fromProviderState", "true", "null", "#", "💥", "\r", "99999999999999999999", "-99999999999999999999"])) } print(r, &ts) }
    _ => { let (ts, _) = definition(r); let s = print(r, &ts); let k = r.us(s.chars().count() + 1); s.chars().take(k).collect() }
  };
  let a = parse(&s)?;
  let b = no_panic(|| is_matcher_def(&s)).map_err(|e| Violation { sig: "crash".into(), detail: format!("{:?}: {}", s, e) })?;
  cx.saw(&s);
  if !["matching", "notEmpty", "eachKey", "eachValue", "atLeast", "atMost"].iter().any(|k| s.trim_start().starts_with(k)) {
    cx.add("plain texts", 1);
    ensure!(!b, "plain-recognised", "{:?} does not start a definition, but is recognised as one", s);
  }
  match a { Ok(_) => { cx.add("texts accepted", 1); ensure!(b, "recognised", "{:?} is a definition, but is not recognised as one", s); ensure!(brackets(&s), "brackets", "{:?} was accepted although its brackets or quotes do not match", s) } Err(_) => cx.add("texts refused", 1) }
  Ok(())
}

/// Every accepted text has its brackets and quotes in balance
fn brackets(s: &str) -> bool {
  let (mut d, mut q, mut esc) = (0i64, false, false);
  for c in s.chars() {
    if q { if esc { esc = false } else if c == '\\' { esc = true } else if c == '\'' { q = false } }
    else { match c { '\'' => q = true, '(' => d += 1, ')' => { d -= 1; if d < 0 { return false } } _ => {} } }
  }
  d == 0 && !q
}

fn escaped_quote() -> Verdict {
  let d = parse(r"matching(type, 'it\'s')")?.map_err(|e| Violation { sig: "refused".into(), detail: e })?;
  ensure!(d.value == "it's", "escaped-quote", r"the value of matching(type, 'it\'s') is {:?}", d.value);
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P12", level: "exploration",
    rule: "Seeded definitions over the whole documented grammar, built as a model, written with every spelling of strings and white space and read back; the same token streams with one token taken out, put in or of the wrong kind; arbitrary text for totality. Non-trivial: each distinct text.",
    assumptions: vec!["A backslash before a character that is not an escape stands for itself, as the regular expressions in the documentation need."],
    phases: vec![phase("accept", 40000, accept_case), phase("reject", 40000, reject_case), phase("escapes", 4000, escape_case), phase("total", 40000, total_case)],
    floors: vec![("definitions read", 30000), ("definitions composed", 30000), ("damaged definitions refused", 20000), ("bad escapes refused", 3000), ("texts refused", 5000)],
    probes: vec![("escaped-quote", escaped_quote)]
  }
}
