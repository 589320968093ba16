//! Document path expressions: parsing, printing, matching; resolving against JSON and XML.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use moncore::*;
use moncore::pred::short;
use pact_models::path_exp::{DocPath, PathToken};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Tok { F(String), I(usize), S, SI }

pub fn real(t: &Tok) -> PathToken {
  match t { Tok::F(s) => PathToken::Field(s.clone()), Tok::I(i) => PathToken::Index(*i), Tok::S => PathToken::Star, Tok::SI => PathToken::StarIndex }
}
pub fn reals(t: &[Tok]) -> Vec<PathToken> { let mut v = vec![PathToken::Root]; v.extend(t.iter().map(real)); v }

const KEYS: [&str; 40] = ["a", "b", "c", "_x", "Ab9", "x-y", "a:b", "@id", "#text", "0", "12", "007", "a b", "a.b", "it's", "\\", "a\\'b", "\\\\", "'", "a/b", "~", "~1", "[0]", "*", "[*]", "$", "$.a", "é", "日本", "K", "a]", "['a']", "\"q\"", "\n", "-", " ", "a\nb", "\na", "a\n", "Ä"];

pub fn key(r: &mut Rng) -> String {
  match r.below(10) {
    0 => { let n = r.range(1, 6); (0..n).map(|_| if r.chance(1, 8) { *r.pick(&['é', '\u{0130}', '❤', '\u{7f}']) } else { (32 + r.below(95)) as u8 as char }).collect() }
    1..=4 => r.pick_s(&["a", "b", "c", "d"]),
    _ => r.pick_s(&KEYS)
  }
}
fn index(r: &mut Rng) -> usize { match r.below(12) { 0 => r.next() as usize, 1 => usize::MAX, 2 => 4294967296, _ => r.us(4) } }
fn toks(r: &mut Rng, lo: i64, hi: i64) -> Vec<Tok> {
  (0..r.range(lo, hi)).map(|_| match r.below(8) { 0 => Tok::S, 1 => Tok::SI, 2 | 3 => Tok::I(index(r)), _ => Tok::F(key(r)) }).collect()
}

fn ident(c: char) -> bool { c.is_alphanumeric() || matches!(c, '_' | '-' | ':' | '#' | '@') }
fn bare(s: &str) -> bool { !s.is_empty() && s.chars().all(ident) }

/// One of the legal spellings of a path
fn spell(r: &mut Rng, t: &[Tok]) -> String {
  let mut o = String::new();
  let mut rest = t;
  match t.first() {
    // a leading name can stand without the root marker
    Some(Tok::F(n)) if bare(n) && n.chars().next().unwrap().is_alphanumeric() && r.chance(1, 4) => { o.push_str(n); rest = &t[1..]; }
    _ => o.push('$')
  }
  for x in rest {
    match x {
      Tok::S => o.push_str(".*"), Tok::SI => o.push_str("[*]"),
      Tok::I(i) => if r.chance(1, 10) { o.push_str(&format!("[0{}]", i)) } else { o.push_str(&format!("[{}]", i)) },
      Tok::F(n) => if bare(n) && r.chance(2, 3) { o.push('.'); o.push_str(n) } else {
        o.push_str("['");
        let cs: Vec<char> = n.chars().collect();
        for (i, c) in cs.iter().enumerate() {
          match c {
            '\'' => o.push_str("\\'"),
            // a backslash only has to be escaped where it would be read as an escape itself
            '\\' => if i + 1 < cs.len() && cs[i + 1] != '\\' && cs[i + 1] != '\'' && r.bool() { o.push('\\') } else { o.push_str("\\\\") },
            c => o.push(*c)
          }
        }
        o.push_str("']");
      }
    }
  }
  o
}

fn h(p: &DocPath) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); p.hash(&mut s); s.finish() }

/// Everything that must hold of a path with the given tokens, however it was made
fn check_path(p: &DocPath, t: &[Tok], how: &str) -> Verdict {
  let want = reals(t);
  ensure!(p.tokens() == &want, "tokens", "{}: '{}' has tokens {:?}, not {:?}", how, p, p.tokens(), want);
  ensure!(p.len() == want.len(), "len", "{}: '{}' has length {}", how, p, p.len());
  ensure!(p.is_root() == t.is_empty(), "is-root", "{}: '{}'", how, p);
  ensure!(p.is_wildcard() == (t.last() == Some(&Tok::S)), "is-wildcard", "{}: '{}'", how, p);
  ensure!(p.last() == want.last().cloned(), "last", "{}: '{}' last {:?}", how, p, p.last());
  let ff: Vec<&str> = t.iter().filter_map(|t| if let Tok::F(s) = t { Some(s.as_str()) } else { None }).collect();
  ensure!(p.first_field() == ff.first().copied(), "first-field", "{}: '{}' {:?}", how, p, p.first_field());
  ensure!(p.last_field() == ff.last().copied(), "last-field", "{}: '{}' {:?}", how, p, p.last_field());
  let v: Vec<String> = std::iter::once("$".to_string()).chain(t.iter().map(|t| match t { Tok::F(s) => s.clone(), Tok::I(i) => i.to_string(), Tok::S => "*".into(), Tok::SI => "[*]".into() })).collect();
  ensure!(p.to_vec() == v, "to-vec", "{}: '{}' {:?}", how, p, p.to_vec());
  let s = p.to_string();
  ensure!(s == String::from(p) && s == String::from(p.clone()), "string-forms", "{}: '{}' vs '{}'", how, s, String::from(p));
  // what is written reads back
  for (w, q) in [("new", DocPath::new(s.clone()).ok()), ("try_from", DocPath::try_from(s.as_str()).ok()), ("json", serde_json::from_str(&serde_json::to_string(p).unwrap()).ok())] {
    let q = match q { Some(q) => q, None => return violated("print-parse", format!("{}: '{}' ({:?}) does not parse ({})", how, s, want, w)) };
    ensure!(q.tokens() == &want, "print-parse", "{}: '{}' reads as {:?}, not {:?}", how, s, q.tokens(), want);
    ensure!(&q == p && h(&q) == h(p) && q.cmp(p) == std::cmp::Ordering::Equal, "equality", "{}: '{}' is not equal to itself re-read", how, s);
  }
  Ok(())
}

fn build_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let t = toks(r, 0, 6);
  let s = spell(r, &t);
  cx.note(format!("{:?} {:?}", s, t));
  let p = match DocPath::new(s.clone()) { Ok(p) => p, Err(e) => return violated("parse", format!("'{}' ({:?}) does not parse: {}", s, t, e)) };
  ensure!(p.tokens() == &reals(&t), "parse", "'{}' parses as {:?}, not {:?}", s, p.tokens(), reals(&t));
  ensure!(p.to_string() == s, "spelling", "'{}' is shown as '{}'", s, p);
  check_path(&p, &t, "parsed")?;
  let c = DocPath::from_tokens(reals(&t));
  check_path(&c, &t, "from_tokens")?;
  // built up step by step, by every means
  let mut a = DocPath::root(); let mut b = DocPath::root(); let mut d = DocPath::root(); let mut dt: Vec<Tok> = vec![];
  for x in &t {
    a.push(real(x));
    match x { Tok::F(n) => { b.push_field(n.clone()); } Tok::I(i) => { b.push_index(*i); } Tok::S => { b.push_star(); } Tok::SI => { b.push_star_index(); } }
    d = d.join(match x { Tok::F(n) => n.clone(), Tok::I(i) => i.to_string(), Tok::S => "*".into(), Tok::SI => "[*]".into() });
    dt.push(match x { Tok::F(n) if n == "*" => Tok::S, Tok::F(n) if n == "[*]" => Tok::SI, Tok::F(n) if n.parse::<usize>().is_ok() => Tok::I(n.parse().unwrap()), x => x.clone() });
  }
  check_path(&a, &t, "push")?;
  check_path(&b, &t, "push_x")?;
  check_path(&d, &dt, "join")?;
  ensure!(a == b && b == c && h(&a) == h(&b) && h(&b) == h(&c), "canonical", "'{}' '{}' '{}'", a, b, c);
  // parts of it
  for n in 0..=t.len() {
    check_path(&c.drop(n), &t[..t.len() - n], "drop")?;
    let mut l = DocPath::from_tokens(reals(&t[..n]));
    l.push_path(&DocPath::from_tokens(reals(&t[n..])));
    check_path(&l, &t, "push_path")?;
    ensure!(l == c, "push_path-canonical", "'{}' vs '{}'", l, c);
  }
  ensure!(c.drop(t.len() + 3).is_root(), "drop-all", "'{}'", c.drop(t.len() + 3));
  match p.parent() { None => ensure!(t.is_empty(), "parent", "'{}' has no parent", p), Some(q) => { ensure!(!t.is_empty(), "parent", "root has a parent"); check_path(&q, &t[..t.len() - 1], "parent")?; ensure!(q == c.drop(1), "parent", "'{}'", q); } }
  let i = index(r); let f = key(r);
  let mut ti = t.clone(); if matches!(t.last(), Some(Tok::S) | Some(Tok::SI)) { ti.pop(); } ti.push(Tok::I(i));
  check_path(&c.join_index(i), &ti, "join_index")?;
  let mut tf = t.clone(); if matches!(t.last(), Some(Tok::S)) { tf.pop(); } tf.push(Tok::F(f.clone()));
  check_path(&c.join_field(f.clone()), &tf, "join_field")?;
  let lower: Vec<Tok> = t.iter().map(|x| match x { Tok::F(s) => Tok::F(s.to_lowercase()), x => x.clone() }).collect();
  ensure!(c.to_lower_case().tokens() == &reals(&lower), "lower-case", "'{}' -> {:?}", c, c.to_lower_case().tokens());
  match DocPath::new(c.to_lower_case().to_string()) { Ok(l) => ensure!(l.tokens() == &reals(&lower), "lower-case-text", "'{}' in lower case is written '{}'", c, c.to_lower_case()), Err(e) => return violated("lower-case-text", format!("'{}' in lower case is written '{}': {}", c, c.to_lower_case(), e)) }
  // a JSON pointer reaches the value
  if t.iter().all(|t| matches!(t, Tok::F(_)) || matches!(t, Tok::I(i) if *i < 8)) {
    let mut doc = json!({"marker": true});
    for x in t.iter().rev() {
      doc = match x { Tok::F(s) => json!({s.clone(): doc}), Tok::I(i) => { let mut v = vec![json!(null); *i]; v.push(doc); Value::Array(v) } _ => unreachable!() };
    }
    let ptr = match c.as_json_pointer() { Ok(p) => p, Err(e) => return violated("json-pointer", format!("'{}': {}", c, e)) };
    ensure!(doc.pointer(&ptr) == Some(&json!({"marker": true})), "json-pointer", "'{}' became pointer '{}'", c, ptr);
    cx.tick("JSON pointers");
  } else if t.iter().any(|t| matches!(t, Tok::S | Tok::SI)) { ensure!(c.as_json_pointer().is_err(), "json-pointer-wild", "'{}'", c); }
  cx.add("tokens parsed", t.len() as u64);
  cx.saw(s.clone());
  cx.sample(|| json!({"path": s, "tokens": format!("{:?}", t)}));
  Ok(())
}

fn step_matches(t: &Tok, s: &str) -> usize {
  let num = s.parse::<usize>();
  match t {
    Tok::F(n) => if n == s { 2 } else { 0 },
    Tok::I(i) => if num == Ok(*i) { 2 } else { 0 },
    Tok::S => 1,
    Tok::SI => if num.is_ok() || s == "[*]" { 1 } else { 0 }
  }
}

fn match_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let deep = if r.chance(1, 40) { r.range(55, 110) } else { 0 };
  if deep > 0 { cx.tick("deep paths"); }
  let path: Vec<Tok> = toks(r, deep, deep.max(5)).into_iter().map(|t| match t { Tok::S => Tok::F("a".into()), Tok::SI => Tok::I(0), t => t }).collect();
  // the expression: the path generalised, sometimes changed, cut short or extended
  let mut e: Vec<Tok> = path.iter().map(|t| if r.chance(1, 4) { Tok::S } else if matches!(t, Tok::I(_)) && r.bool() { Tok::SI } else { t.clone() }).collect();
  match r.below(6) { 0 => { e.pop(); } 1 => e.push(toks(r, 1, 1)[0].clone()), 2 if !e.is_empty() => { let i = r.us(e.len()); e[i] = toks(r, 1, 1)[0].clone(); } 3 if e.len() > 1 => { let i = r.us(e.len() - 1); e.swap(i, i + 1); } _ => {} }
  let pv: Vec<String> = std::iter::once("$".to_string()).chain(path.iter().map(|t| match t { Tok::F(s) => s.clone(), Tok::I(i) => i.to_string(), _ => unreachable!() })).collect();
  let pr: Vec<&str> = pv.iter().map(|s| s.as_str()).collect();
  let exp = DocPath::from_tokens(reals(&e));
  cx.note(format!("'{}' against {:?}", exp, pr));
  let steps: Vec<usize> = e.iter().zip(&pv[1..]).map(|(t, s)| step_matches(t, s)).collect();
  let m = e.len() <= path.len() && steps.iter().all(|s| *s > 0);
  ensure!(exp.matches_path(&pr) == m, "matches", "'{}' against {:?}: {}, must be {}", exp, pr, exp.matches_path(&pr), m);
  ensure!(exp.matches_path_exactly(&pr) == (m && e.len() == path.len()), "matches-exactly", "'{}' against {:?}: {}", exp, pr, exp.matches_path_exactly(&pr));
  let (w, n) = exp.path_weight(&pr);
  ensure!((w > 0) == m && n == e.len() + 1, "weight", "'{}' against {:?}: {:?}", exp, pr, (w, n));
  // the more exact of two expressions that match weighs more; a fully exact one weighs most
  if m {
    cx.tick("expressions matched");
    for i in 0..if e.len() < 60 { e.len() } else { 0 } {
      if matches!(e[i], Tok::S | Tok::SI) {
        let mut e2 = e.clone(); e2[i] = path[i].clone();
        let (w2, _) = DocPath::from_tokens(reals(&e2)).path_weight(&pr);
        ensure!(w2 > w, "weight-order", "'{}' weighs {} and '{}' {}", exp, w, DocPath::from_tokens(reals(&e2)), w2);
      }
    }
  } else { cx.tick("expressions not matched") }
  cx.saw((exp.to_string(), pv));
  Ok(())
}

fn total_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let s: String = if r.bool() {
    (0..r.range(0, 12)).map(|_| r.pick_s(&["$", ".", "[", "]", "'", "*", "a", "0", "9", "\\", "é", "²", "٣", "½", " ", "-", "#", "99999999999999999999", "['", "']", "[*]", ".*", "$."])).collect()
  } else {
    // a legal spelling with one character dropped, doubled or changed
    let n = toks(r, 1, 5);
    let mut c: Vec<char> = spell(r, &n).chars().collect();
    let i = r.us(c.len());
    match r.below(4) { 0 => { c.remove(i); } 1 => { let x = c[i]; c.insert(i, x) } 2 => { c.truncate(i); } _ => { c[i] = *r.pick(&['.', '[', ']', '\'', '*', '$', ' ', '1', 'a', '²', '\\']); } }
    c.into_iter().collect()
  };
  cx.note(format!("{:?}", s));
  let p = match no_panic(|| DocPath::new(s.clone())) { Ok(p) => p, Err(e) => return violated("panic", format!("parsing {:?} panicked: {}", s, e)) };
  match p {
    Err(_) => cx.tick("rejected"),
    Ok(p) => {
      if s.is_empty() { ensure!(p.tokens().is_empty(), "empty", "{:?}", p); return Ok(()) }
      cx.tick("accepted");
      ensure!(p.tokens().first() == Some(&PathToken::Root), "no-root", "{:?} parsed as {:?}", s, p.tokens());
      ensure!(p.tokens().iter().skip(1).all(|t| t != &PathToken::Root), "second-root", "{:?} parsed as {:?}", s, p.tokens());
      // what was read, written again, is the same path
      let q = DocPath::from_tokens(p.tokens().clone());
      let z = DocPath::new(q.to_string());
      ensure!(z.as_ref().map(|z| z.tokens() == p.tokens()).unwrap_or(false), "re-written", "{:?} is re-written '{}' which reads {:?}", s, q, z);
      // no character outside brackets is dropped: the spelling has to account for the tokens
      let fields: usize = p.tokens().iter().map(|t| match t { PathToken::Field(f) => f.chars().count(), _ => 0 }).sum();
      ensure!(fields <= s.chars().count(), "invented", "{:?} parsed as {:?}", s, p.tokens());
    }
  }
  // structural rules
  let bad = s.ends_with('.') || s.ends_with('[') || s.contains("[]") && !s.contains('\'') || s.matches('[').count() != s.matches(']').count() && !s.contains('\'') || s.starts_with('.') || s.starts_with('[') || s.contains("['']") && s.matches('\'').count() == 2;
  if bad { ensure!(DocPath::new(s.clone()).is_err(), "accepted-malformed", "{:?} was accepted", s); cx.tick("malformed"); }
  cx.saw(s);
  Ok(())
}

// ---- resolving

fn doc(r: &mut Rng, depth: u32) -> Value {
  match if depth == 0 { 2 } else { r.below(5) } {
    0 | 1 => { let n = r.range(0, 4); let mut m = Map::new(); for _ in 0..n { let k = if r.chance(1, 15) { String::new() } else { key(r) }; let v = doc(r, depth - 1); m.insert(k, v); } Value::Object(m) }
    3 | 4 => { let n = r.range(0, 4); Value::Array((0..n).map(|_| doc(r, depth - 1)).collect()) }
    _ => match r.below(4) { 0 => json!(null), 1 => json!(r.below(100)), 2 => json!("s"), _ => json!(true) }
  }
}

/// Keys leading to each value the path denotes
fn eval<'a>(v: &'a Value, t: &[Tok]) -> Vec<(Vec<String>, &'a Value)> {
  if t.is_empty() { return vec![(vec![], v)] }
  let next: Vec<(String, &Value)> = match (&t[0], v) {
    (Tok::F(n), Value::Object(m)) => m.get(n).map(|x| vec![(n.clone(), x)]).unwrap_or_default(),
    (Tok::I(i), Value::Array(a)) => a.get(*i).map(|x| vec![(i.to_string(), x)]).unwrap_or_default(),
    (Tok::S, Value::Object(m)) => m.iter().map(|(k, x)| (k.clone(), x)).collect(),
    (Tok::SI, Value::Array(a)) => a.iter().enumerate().map(|(k, x)| (k.to_string(), x)).collect(),
    _ => vec![]
  };
  let mut out = vec![];
  for (k, x) in next { for (mut p, y) in eval(x, &t[1..]) { p.insert(0, k.clone()); out.push((p, y)) } }
  out
}

fn walk(r: &mut Rng, v: &Value, out: &mut Vec<Tok>) {
  if r.chance(1, 6) { return }
  match v {
    Value::Object(m) if !m.is_empty() => { let ks: Vec<&String> = m.keys().collect(); let k = *r.pick(&ks); if k.is_empty() { out.push(Tok::S) } else { out.push(Tok::F(k.clone())) } walk(r, &m[k], out) }
    Value::Array(a) if !a.is_empty() => { let i = r.us(a.len()); out.push(Tok::I(i)); walk(r, &a[i], out) }
    _ => {}
  }
}

fn json_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let d = doc(r, 4);
  let mut t = vec![];
  walk(r, &d, &mut t);
  for x in t.iter_mut() { if r.chance(1, 4) { *x = match x { Tok::F(_) | Tok::S => Tok::S, _ => Tok::SI }; } }
  match r.below(8) { 0 => t.push(toks(r, 1, 1)[0].clone()), 1 if !t.is_empty() => { let i = r.us(t.len()); t[i] = toks(r, 1, 1)[0].clone(); } _ => {} }
  let p = DocPath::from_tokens(reals(&t));
  cx.note(format!("'{}' in {}", p, d));
  let got = match no_panic(|| pact_models::json_utils::resolve_path(&d, &p)) { Ok(g) => g, Err(e) => return violated("panic", format!("resolving '{}' in {} panicked: {}", p, d, e)) };
  if t.is_empty() { ensure!(got.is_empty(), "root", "'{}' resolved to {:?}", p, got); return Ok(()) }
  let want: Vec<(Vec<String>, &Value)> = eval(&d, &t);
  let wp: BTreeSet<String> = want.iter().map(|(k, _)| k.iter().map(|k| format!("/{}", k.replace('~', "~0").replace('/', "~1"))).collect::<String>()).collect();
  ensure!(got.len() == got.iter().collect::<BTreeSet<_>>().len(), "duplicates", "'{}' in {} resolved to {:?}", p, short(&d), got);
  let gp: BTreeSet<String> = got.iter().cloned().collect();
  ensure!(gp == wp, "resolved", "'{}' in {} resolved to {:?}, must be {:?}", p, short(&d), gp, wp);
  for (k, v) in &want {
    let ptr: String = k.iter().map(|k| format!("/{}", k.replace('~', "~0").replace('/', "~1"))).collect();
    ensure!(d.pointer(&ptr) == Some(*v), "pointer", "'{}'", ptr);
    let pv: Vec<&str> = std::iter::once("$").chain(k.iter().map(|s| s.as_str())).collect();
    ensure!(p.matches_path_exactly(&pv), "resolved-not-matched", "'{}' resolves to {:?} but does not match it", p, pv);
  }
  cx.add("JSON values resolved", want.len() as u64);
  if want.is_empty() { cx.tick("JSON paths without a match") }
  cx.saw((p.to_string(), d.to_string()));
  Ok(())
}

#[derive(Clone, Debug)]
struct El { name: String, id: usize, attrs: BTreeMap<String, String>, text: Option<String>, kids: Vec<El> }

fn el(r: &mut Rng, depth: u32, n: &mut usize) -> El {
  *n += 1;
  let id = *n;
  let name = r.pick_s(&["a", "b", "c", "d-e", "f.g", "h_i", "B"]);
  let mut attrs = BTreeMap::new();
  for a in ["x", "y-z", "w"] { if r.chance(1, 3) { attrs.insert(a.to_string(), format!("{}{}", a, id)); } }
  let kids: Vec<El> = if depth == 0 { vec![] } else { (0..r.range(0, 4)).map(|_| el(r, depth - 1, n)).collect() };
  let text = if kids.is_empty() && r.bool() { Some(format!("text{}", id)) } else { None };
  El { name, id, attrs, text, kids }
}
fn xml(e: &El) -> String {
  let a: String = e.attrs.iter().map(|(k, v)| format!(" {}=\"{}\"", k, v)).collect();
  format!("<{0} id=\"{1}\"{2}>{3}{4}</{0}>", e.name, e.id, a, e.text.clone().unwrap_or_default(), e.kids.iter().map(xml).collect::<String>())
}

#[derive(Clone, Debug)]
enum XS { Name(String), NameIdx(String, usize), Any, Attr(String), Text }

fn xeval<'a>(e: &'a El, idx: usize, t: &[XS], at: String, out: &mut Vec<(String, Hit<'a>)>) {
  let fits = match &t[0] { XS::Name(n) => n == &e.name, XS::NameIdx(n, i) => n == &e.name && *i == idx, XS::Any => true, _ => false };
  if !fits { return }
  let here = format!("{}/{}[{}]", at, e.name, idx);
  if t.len() == 1 { out.push((here, Hit::El(e))); return }
  match &t[1] {
    XS::Attr(a) => { let v = if a == "id" { Some(e.id.to_string()) } else { e.attrs.get(a).cloned() }; if let (Some(v), 2) = (v, t.len()) { out.push((format!("{}/@{}", here, a), Hit::Attr(a.clone(), v))) } }
    XS::Text => if let (Some(s), 2) = (&e.text, t.len()) { out.push((format!("{}/#text", here), Hit::Text(s.clone()))) },
    _ => { let mut n: HashMap<&str, usize> = HashMap::new(); for k in &e.kids { let i = n.entry(&k.name).or_insert(0); xeval(k, *i, &t[1..], here.clone(), out); *i += 1; } }
  }
}
#[derive(Clone, Debug)]
enum Hit<'a> { El(&'a El), Attr(String, String), Text(String) }

fn xml_case(cx: &mut Cx) -> Verdict {
  use pact_models::xml_utils::*;
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let mut n = 0;
  let root = el(r, 3, &mut n);
  let text = xml(&root);
  // a walk down the tree
  let mut t = vec![];
  let mut e = &root; let mut idx = 0;
  loop {
    t.push(match r.below(4) { 0 => XS::Any, 1 => XS::NameIdx(e.name.clone(), idx), _ => XS::Name(e.name.clone()) });
    if e.kids.is_empty() || r.chance(1, 5) { break }
    let i = r.us(e.kids.len());
    idx = e.kids[..i].iter().filter(|k| k.name == e.kids[i].name).count();
    e = &e.kids[i];
  }
  match r.below(5) { 0 => t.push(XS::Attr(r.pick_s(&["id", "x", "y-z", "none"]))), 1 => t.push(XS::Text), _ => {} }
  if r.chance(1, 8) { let i = r.us(t.len()); t[i] = match r.below(3) { 0 => XS::Name("zz".into()), 1 => XS::NameIdx("a".into(), r.us(3)), _ => XS::Any }; }
  let mut p = DocPath::root();
  for x in &t { match x { XS::Name(n) => { p.push_field(n.clone()); } XS::NameIdx(n, i) => { p.push_field(n.clone()); p.push_index(*i); } XS::Any => { if r.bool() { p.push_star(); } else { p.push_star_index(); } } XS::Attr(a) => { p.push_field(format!("@{}", a)); } XS::Text => { p.push_field("#text"); } } }
  cx.note(format!("'{}' in {}", p, text));
  let dom = match kiss_xml::parse_str(&text) { Ok(d) => d, Err(e) => return violated("harness-xml", format!("{}: {:?}", text, e)) };
  let got = match no_panic(|| resolve_path(dom.root_element(), &p)) { Ok(g) => g, Err(e) => return violated("panic", format!("'{}' in {}: {}", p, text, e)) };
  let mut want = vec![];
  xeval(&root, 0, &t, String::new(), &mut want);
  let g: BTreeSet<String> = got.iter().cloned().collect();
  ensure!(g.len() == got.len(), "xml-duplicates", "'{}' in {} resolved to {:?}", p, text, got);
  let w: BTreeSet<String> = want.iter().map(|(s, _)| s.clone()).collect();
  ensure!(g == w, "xml-resolved", "'{}' in {} resolved to {:?}, must be {:?}", p, text, g, w);
  for (ptr, hit) in &want {
    let res = resolve_matching_node(dom.root_element(), ptr);
    let ok = match (hit, &res) {
      (Hit::El(e), Some(XmlResult::ElementNode(x))) => x.attributes().get("id") == Some(&e.id.to_string()),
      (Hit::Attr(n, v), Some(XmlResult::Attribute(a, b))) => n == a && v == b,
      (Hit::Text(t), Some(XmlResult::TextNode(x))) => t == x,
      _ => false
    };
    ensure!(ok, "xml-node", "pointer '{}' in {} gives {:?}, must be {:?}", ptr, text, res, hit);
  }
  cx.add("XML nodes resolved", want.len() as u64);
  cx.saw((p.to_string(), text));
  Ok(())
}

pub fn exprs() -> Property {
  Property {
    id: "P08", level: "exploration",
    rule: "Seeded token sequences (identifiers, keys with quotes, backslashes, brackets, non-ASCII, wildcards, extreme indexes) spelled by an independent writer, built up by every constructor and taken apart again; matching against concrete paths with an independent per-step matcher; arbitrary and corrupted text. Non-trivial: each distinct expression.",
    assumptions: vec!["Keys that are the empty string cannot be written as a path expression."],
    phases: vec![phase("build", 12000, build_case), phase("match", 12000, match_case), phase("total", 20000, total_case)],
    floors: vec![("tokens parsed", 10000), ("JSON pointers", 1500), ("expressions matched", 2000), ("expressions not matched", 2000), ("rejected", 2000), ("accepted", 1000), ("malformed", 1000)],
    probes: vec![]
  }
}

pub fn resolve() -> Property {
  Property {
    id: "P09", level: "exploration",
    rule: "Seeded JSON and XML documents with paths walked through them, generalised to wildcards, or missing; the resolved pointers are compared with an independent evaluation of the path and followed back into the document. Non-trivial: each distinct path and document.",
    assumptions: vec!["The root path resolves to no pointer (callers treat it on its own)."],
    phases: vec![phase("json", 20000, json_case), phase("xml", 1800, xml_case)],
    floors: vec![("JSON values resolved", 10000), ("JSON paths without a match", 500), ("XML nodes resolved", 1200)],
    probes: vec![]
  }
}
