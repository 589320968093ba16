//! Documents with matching rules whose meaning is known by construction: every template yields an
//! example, the rules for it, documents that comply and documents that differ in one known place.
use moncore::{json, Map, Rng, Value};

#[derive(Clone, Debug)]
pub enum Node {
  Leaf { label: &'static str, ex: Value, rules: Option<(Vec<Value>, &'static str)>, ok: Vec<Value>, bad: Vec<Value> },
  /// `typed`: the object carries a type rule of its own
  Obj { fields: Vec<(String, Node)>, typed: bool },
  /// an array without a rule of its own that no rule reaches: same length, item by item
  Fixed { items: Vec<Node> },
  /// an array whose items all look like the first. `rule`: none when an outer type rule reaches it
  Each { rule: Option<(Option<usize>, Option<usize>)>, item: Box<Node>, n: usize },
  /// a map with free keys: `values` rule, or eachKey/eachValue
  Values { item: Box<Node>, keys: Vec<String>, each: Option<(Option<(&'static str, &'static [&'static str], &'static [&'static str])>, Value)> },
  /// an array that has to contain something like each variant
  Contains { variants: Vec<Node> }
}

#[derive(Clone, Debug)]
pub struct Violation { pub doc: Value, pub at: Vec<String>, pub what: String }

pub const NAMES: [&str; 16] = ["id", "name", "items", "price", "a-b", "with space", "ünï", "x.y", "1", "$ref", "UPPER", "under_score", "a/b", "#text", "@attr", "kind"];

pub fn step(path: &str, name: &str) -> String {
  let simple = name.chars().next().map(|c| c.is_ascii_alphabetic() || c == '_').unwrap_or(false) && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
  if simple { format!("{path}.{name}") } else { format!("{path}['{name}']") }
}

fn word(r: &mut Rng) -> String { r.string_from(&['a', 'b', 'c', 'q', 'X', '7', 'é'], 1, 8) }
/// (pattern, matching, not matching)
pub const PATTERNS: [(&str, &[&str], &[&str]); 8] = [
  (r"^\d{3}-\d{2}$", &["123-45", "000-99"], &["123-4", "1234-45", "abc-de", "", " 123-45"]),
  (r"^(red|green|blue)$", &["red", "green", "blue"], &["Red", "yellow", "redgreen", ""]),
  (r"^[a-f0-9]{8}$", &["deadbeef", "01234567"], &["deadbee", "DEADBEEF", "deadbeef0"]),
  (r"^\w+@\w+\.com$", &["a@b.com", "foo@bar.com"], &["a@b.org", "@b.com", "ab.com"]),
  (r"^.{2,4}$", &["ab", "abcd", "éà"], &["a", "abcde"]),
  (r".*x.*", &["axb", "x", "xx"], &["abc", "X", ""]),
  (r"^$|^\s+$", &["", "  "], &["a", " a "]),
  (r"^\{.*\}$", &["{}", "{a}"], &["{", "a"])];

pub struct LeafRule { pub label: &'static str, pub rule: Value, pub ex: Value, pub ok: Vec<Value>, pub bad: Vec<Value> }
fn lr(label: &'static str, rule: Value, ex: Value, ok: Vec<Value>, bad: Vec<Value>) -> LeafRule { LeafRule { label, rule, ex, ok, bad } }

pub fn scalar(r: &mut Rng) -> Value { match r.below(7) {
  0 => json!(r.range(-1000, 1000)), 1 => json!(word(r)), 2 => json!(r.bool()), 3 => Value::Null, 4 => json!(r.range(-900, 900) as f64 / 8.0 + 0.0625),
  5 => json!(""), _ => json!(format!("{} {}", word(r), word(r))) } }

fn others(v: &Value) -> Vec<Value> {
  // values of any other type
  let mut all = vec![json!(null), json!(true), json!(12), json!(12.5), json!("text"), json!([1]), json!({"z": 1}), json!([]), json!({})];
  all.retain(|o| std::mem::discriminant(o) != std::mem::discriminant(v));
  all
}
fn same_type(r: &mut Rng, v: &Value) -> Value { match v {
  Value::Null => Value::Null, Value::Bool(_) => json!(r.bool()), Value::Number(_) => if r.bool() { json!(r.range(-5000, 5000)) } else { json!(r.range(-5000, 5000) as f64 / 4.0 + 0.125) },
  Value::String(_) => json!(if r.chance(1, 5) { String::new() } else { word(r) }), o => o.clone() } }
fn different(r: &mut Rng, v: &Value) -> Vec<Value> {
  let mut o = others(v);
  match v {
    Value::Bool(b) => o.push(json!(!b)),
    Value::Number(n) => if let Some(i) = n.as_i64() { o.push(json!(i + 1)); o.push(json!(-i - 1)); o.push(json!(i as f64 + 0.5)) } else { o.push(json!(n.as_f64().unwrap() + 1.0)); },
    Value::String(s) => { o.push(json!(format!("{s}x"))); o.push(json!(format!(" {s}"))); if !s.is_empty() { o.push(json!("")); o.push(json!(s.chars().skip(1).collect::<String>())); let u = s.to_uppercase(); if &u != s { o.push(json!(u)) } } }
    _ => {}
  }
  // the last entries are the subtle ones
  let n = o.len(); if r.bool() && n > 4 { o.drain(0..n / 2); }
  o
}

pub fn leaf_rule(r: &mut Rng) -> LeafRule {
  match r.below(17) {
    0 | 1 => { let v = scalar(r); let ok = (0..3).map(|_| same_type(r, &v)).collect(); let bad = others(&v); lr("type", json!({"match": "type"}), v, ok, bad) }
    2 | 3 => { let (p, ok, bad) = *r.pick(&PATTERNS); lr("regex", json!({"match": "regex", "regex": p}), json!(ok[0]), ok.iter().map(|s| json!(s)).collect(), bad.iter().map(|s| json!(s)).collect()) }
    4 => { let w = word(r); lr("include", json!({"match": "include", "value": w}), json!(format!("a{w}b")), vec![json!(w), json!(format!("{w} tail")), json!(format!("head{w}"))], vec![json!("-"), json!(""), json!(format!("-{}", &w.chars().skip(1).collect::<String>()))]) }
    5 => lr("integer", json!({"match": "integer"}), json!(r.range(-50, 50)), vec![json!(0), json!(-7), json!(9007199254740993i64), json!(u64::MAX)], vec![json!(1.5), json!("10"), json!(null), json!(true), json!([1])]),
    6 => lr("decimal", json!({"match": "decimal"}), json!(1.25), vec![json!(-0.5), json!(1234.5678), json!(1e-7)], vec![json!(10), json!("1.5"), json!(null), json!(false)]),
    7 => lr("number", json!({"match": "number"}), json!(100), vec![json!(-1), json!(2.5), json!(0)], vec![json!("100"), json!(null), json!(true), json!([])]),
    8 => lr("boolean", json!({"match": "boolean"}), json!(true), vec![json!(true), json!(false)], vec![json!(1), json!("maybe"), json!("TRUE"), json!(null), json!("")]),
    9 => lr("null", json!({"match": "null"}), json!(null), vec![json!(null)], vec![json!(0), json!(""), json!(false), json!("null"), json!([])]),
    10 => lr("date", json!({"match": "date", "date": "yyyy-MM-dd"}), json!("2020-02-29"), vec![json!("1999-12-31"), json!("2024-02-29")], vec![json!("2021-02-29"), json!("2020-13-01"), json!("29-02-2020"), json!(""), json!("2020-02-29T10:00"), json!(20200229)]),
    11 => lr("time", json!({"match": "time", "time": "HH:mm:ss"}), json!("23:59:59"), vec![json!("00:00:00"), json!("12:30:01")], vec![json!("24:01:00"), json!("12:60:00"), json!("1 pm"), json!("")]),
    12 => lr("datetime", json!({"match": "timestamp", "timestamp": "yyyy-MM-dd'T'HH:mm:ss"}), json!("2020-02-29T10:11:12"), vec![json!("1999-12-31T23:59:59")], vec![json!("2020-02-30T10:11:12"), json!("2020-02-29 10:11:12"), json!("2020-02-29T10:11"), json!("")]),
    13 => lr("semver", json!({"match": "semver"}), json!("1.2.3"), vec![json!("0.0.1"), json!("1.2.3-alpha.1+b7")], vec![json!("1.2"), json!("v1.2.3"), json!("1.2.3.4"), json!("01.2.3"), json!(1.2), json!(null)]),
    14 => lr("notEmpty", json!({"match": "notEmpty"}), json!(word(r)), vec![json!("x"), json!(" ")], vec![json!(""), json!(null)]),
    15 => { let v = scalar(r); let bad = different(r, &v); lr("equality", json!({"match": "equality"}), v.clone(), vec![v], bad) }
    _ => { let d = *r.pick(&[("date", "dd/MM/yyyy", "31/12/2020", "2020-12-31"), ("time", "HH:mm", "23:59", "23:59:00"), ("timestamp", "yyyy-MM-dd HH:mm:ss.SSS", "2020-12-31 10:00:00.123", "2020-12-31T10:00:00.123")]);
      lr("format", json!({"match": d.0, d.0: d.1}), json!(d.2), vec![json!(d.2)], vec![json!(d.3), json!("")]) }
  }
}

pub fn leaf(r: &mut Rng, casc: bool) -> Node {
  match r.below(10) {
    0..=3 => { let v = scalar(r);
      if casc { let ok = (0..3).map(|_| same_type(r, &v)).collect(); let bad = others(&v); Node::Leaf { label: "cascaded type", ex: v, rules: None, ok, bad } }
      else { let bad = different(r, &v); Node::Leaf { label: "plain", ex: v.clone(), rules: None, ok: vec![v], bad } } }
    4 => { // either of two
      let a = leaf_rule(r); let mut b = leaf_rule(r); b.rule = json!({"match": "null"}); b.ok = vec![json!(null)]; b.bad = vec![];
      let mut ok = a.ok.clone(); ok.push(json!(null));
      let bad = a.bad.iter().filter(|v| !v.is_null()).cloned().collect::<Vec<_>>();
      Node::Leaf { label: "or", ex: a.ex.clone(), rules: Some((if r.bool() { vec![a.rule, b.rule] } else { vec![b.rule, a.rule] }, "OR")), ok, bad } }
    5 => { // both of two
      let w = word(r);
      let ok = vec![json!(format!("{w}-1")), json!(format!("zz{w}-22"))];
      let bad = vec![json!(w.clone()), json!("-1"), json!(format!("{w}-1 ")), json!(""), json!("q-7-")];
      let rules = vec![json!({"match": "regex", "regex": r".+-\d+"}), json!({"match": "include", "value": w.clone()}), json!({"match": "notEmpty"})];
      let mut rules = rules; r.shuffle(&mut rules);
      let bad = bad.into_iter().filter(|b| { let s = b.as_str().unwrap(); !(s.contains(&w) && regex::Regex::new(r"^.+-\d+$").unwrap().is_match(s)) }).collect();
      Node::Leaf { label: "and", ex: ok[0].clone(), rules: Some((rules, "AND")), ok, bad } }
    _ => { let l = leaf_rule(r); Node::Leaf { label: l.label, ex: l.ex, rules: Some((vec![l.rule], "AND")), ok: l.ok, bad: l.bad } }
  }
}

fn fields(r: &mut Rng, depth: u32, casc: bool, lo: i64) -> Vec<(String, Node)> {
  let n = r.range(lo, 4) as usize; let mut names: Vec<&str> = NAMES.to_vec(); r.shuffle(&mut names);
  names.into_iter().take(n).map(|k| (k.to_string(), node(r, depth, casc))).collect()
}

pub fn node(r: &mut Rng, depth: u32, casc: bool) -> Node {
  if depth == 0 || r.chance(1, 3) { return leaf(r, casc) }
  match r.below(9) {
    0 | 1 => Node::Obj { fields: fields(r, depth - 1, casc, 0), typed: false },
    2 => Node::Obj { fields: fields(r, depth - 1, true, 1), typed: true },
    3 | 4 if !casc => { let n = r.range(0, 3); Node::Fixed { items: (0..n).map(|_| node(r, depth - 1, false)).collect() } }
    5 if !casc => contains(r),
    6 => map(r, depth, casc),
    _ => { let rule = match r.below(if casc { 5 } else { 4 }) { 0 => Some((None, None)), 1 => Some((Some(r.range(0, 3) as usize), None)), 2 => Some((None, Some(r.range(1, 4) as usize))), 3 => { let m = r.range(0, 2) as usize; Some((Some(m), Some(m + r.range(1, 3) as usize))) } _ => None };
      let n = match rule { Some((lo, hi)) => { let lo = lo.unwrap_or(0).max(1); r.range(lo as i64, hi.unwrap_or(lo + 1).max(lo) as i64) as usize } None => r.range(1, 2) as usize };
      Node::Each { rule, item: Box::new(node(r, depth - 1, true)), n } }
  }
}

pub const KEYS: (&str, &[&str], &[&str]) = (r"^k\d+$", &["k1", "k22", "k333"], &["K1", "k", "1k", "k1x"]);

fn map(r: &mut Rng, depth: u32, _casc: bool) -> Node {
  if r.bool() {
    // a `values` rule: every value is compared to the first one, or the one with its key; rules below are given with a wildcard
    let item = loop { let n = if r.bool() { let l = leaf_rule(r); Node::Leaf { label: l.label, ex: l.ex, rules: Some((vec![l.rule], "AND")), ok: l.ok, bad: l.bad } } else { node(r, depth - 1, false) };
      if ruled(&n) { break n } };
    Node::Values { item: Box::new(item), keys: vec!["first".into(), "second".into()][..r.range(1, 2) as usize].to_vec(), each: None }
  } else {
    let l = leaf_rule(r);
    let keys = if r.bool() { Some(KEYS) } else { None };
    let names = if keys.is_some() { vec!["k1".to_string(), "k2".to_string()] } else { vec!["one".to_string(), "two".to_string()] };
    Node::Values { item: Box::new(Node::Leaf { label: l.label, ex: l.ex, rules: None, ok: l.ok, bad: l.bad }), keys: names[..r.range(1, 2) as usize].to_vec(), each: Some((keys, l.rule)) }
  }
}
/// Every leaf has rules of its own
pub fn ruled(n: &Node) -> bool { match n {
  Node::Leaf { rules, .. } => rules.is_some(), Node::Obj { fields, .. } => fields.iter().all(|(_, n)| ruled(n)),
  Node::Fixed { .. } => false, Node::Each { item, .. } => ruled(item), Node::Values { .. } => true, Node::Contains { .. } => false } }

fn contains(r: &mut Rng) -> Node {
  let n = r.range(1, 3) as usize;
  Node::Contains { variants: (0..n).map(|i| {
    let mut f = fields(r, 0, false, 0); f.retain(|(k, _)| k != "kind");
    f.insert(0, ("kind".into(), Node::Leaf { label: "plain", ex: json!(format!("v{i}")), rules: None, ok: vec![json!(format!("v{i}"))], bad: vec![json!("none")] }));
    Node::Obj { fields: f, typed: false } }).collect() }
}

pub fn example(n: &Node) -> Value { match n {
  Node::Leaf { ex, .. } => ex.clone(),
  Node::Obj { fields, .. } => Value::Object(fields.iter().map(|(k, n)| (k.clone(), example(n))).collect()),
  Node::Fixed { items } => Value::Array(items.iter().map(example).collect()),
  Node::Each { item, n, .. } => Value::Array((0..*n).map(|_| example(item)).collect()),
  Node::Values { item, keys, .. } => Value::Object(keys.iter().map(|k| (k.clone(), example(item))).collect()),
  Node::Contains { variants } => Value::Array(variants.iter().map(example).collect())
} }

fn put(out: &mut Map<String, Value>, path: &str, rules: Vec<Value>, combine: &str) { out.insert(path.into(), json!({"matchers": rules, "combine": combine})); }

pub fn rules(n: &Node, path: &str, out: &mut Map<String, Value>) { match n {
  Node::Leaf { rules, .. } => if let Some((l, c)) = rules { put(out, path, l.clone(), c) },
  Node::Obj { fields, typed } => { if *typed { put(out, path, vec![json!({"match": "type"})], "AND") } for (k, n) in fields { rules(n, &step(path, k), out) } }
  Node::Fixed { items } => for (i, n) in items.iter().enumerate() { rules(n, &format!("{path}[{i}]"), out) },
  Node::Each { rule, item, .. } => {
    if let Some((lo, hi)) = rule { let mut m = json!({"match": "type"}); if let Some(lo) = lo { m["min"] = json!(lo) } if let Some(hi) = hi { m["max"] = json!(hi) } put(out, path, vec![m], "AND") }
    rules(item, &format!("{path}[*]"), out) }
  Node::Values { item, each: None, .. } => { put(out, path, vec![json!({"match": "values"})], "AND"); rules(item, &format!("{path}.*"), out) }
  Node::Values { each: Some((keys, value)), item, .. } => {
    let mut l = vec![];
    if let Some((p, ok, _)) = keys { l.push(json!({"match": "eachKey", "value": ok[0], "rules": [{"match": "regex", "regex": p}]})) }
    l.push(json!({"match": "eachValue", "value": example(item).to_string(), "rules": [value]}));
    put(out, path, l, "AND") }
  Node::Contains { variants } => {
    let v: Vec<Value> = variants.iter().enumerate().map(|(i, n)| { let mut m = Map::new(); rules(n, "$", &mut m); json!({"index": i, "rules": m}) }).collect();
    put(out, path, vec![json!({"match": "arrayContains", "variants": v})], "AND") }
} }

/// A document that complies with the example and its rules. `extra`: unexpected keys are fine.
pub fn comply(n: &Node, r: &mut Rng, extra: bool) -> Value { match n {
  Node::Leaf { ex, ok, .. } => if ok.is_empty() { ex.clone() } else { r.pick(ok).clone() },
  Node::Obj { fields, .. } => { let mut f: Vec<(String, Value)> = fields.iter().map(|(k, n)| (k.clone(), comply(n, r, extra))).collect();
    if extra && r.chance(1, 4) { f.push((format!("extra{}", r.below(9)), scalar(r))) }
    r.shuffle(&mut f); Value::Object(f.into_iter().collect()) }
  Node::Fixed { items } => Value::Array(items.iter().map(|n| comply(n, r, extra)).collect()),
  Node::Each { rule, item, .. } => { let (lo, hi) = rule.unwrap_or((None, None)); let lo = lo.unwrap_or(0); let hi = hi.unwrap_or(lo.max(1) + 2); let c = r.range(lo as i64, hi.max(lo) as i64);
    Value::Array((0..c).map(|_| comply(item, r, extra)).collect()) }
  Node::Values { item, each, .. } => { let c = r.range(0, 3); let mut m = Map::new();
    for i in 0..c { let k = match each { Some((Some((_, ok, _)), _)) => r.pick(ok).to_string(), _ => format!("{}{i}", r.pick_s(&["first", "", "Z ", "ü"])) }; m.insert(k, comply(item, r, extra)); }
    Value::Object(m) }
  Node::Contains { variants } => { let mut v: Vec<Value> = variants.iter().map(|n| comply(n, r, extra)).collect();
    for _ in 0..r.range(0, 2) { let noise = if r.bool() { scalar(r) } else { json!({"kind": "other"}) }; v.push(noise) }
    r.shuffle(&mut v); Value::Array(v) }
} }

/// A document that differs from what is allowed in one place, or none when every document would do
pub fn violate(n: &Node, r: &mut Rng, extra: bool, path: &mut Vec<String>) -> Option<Violation> {
  let base = comply(n, r, extra);
  match n {
    Node::Leaf { bad, label, .. } => { if bad.is_empty() { return None } let doc = r.pick(bad).clone(); Some(Violation { what: format!("{label} -> {doc}"), doc, at: path.clone() }) }
    Node::Obj { fields, .. } => {
      let mut m = base.as_object().unwrap().clone();
      match r.below(8) {
        0 if !fields.is_empty() => { let k = r.pick(fields).0.clone(); m.remove(&k); Some(Violation { doc: Value::Object(m), at: path.clone(), what: format!("key '{k}' missing") }) }
        1 if !extra => { m.insert("unexpected".into(), scalar(r)); Some(Violation { doc: Value::Object(m), at: path.clone(), what: "key unexpected".into() }) }
        2 => { let d = r.pick(&[json!(null), json!("text"), json!([]), json!(1)]).clone(); Some(Violation { what: format!("object -> {d}"), doc: d, at: path.clone() }) }
        _ => { if fields.is_empty() { return None } let i = r.us(fields.len()); let (k, c) = &fields[i]; path.push(k.clone()); let v = violate(c, r, extra, path); path.pop();
          v.map(|v| { m.insert(k.clone(), v.doc); Violation { doc: Value::Object(m), at: v.at, what: v.what } }) }
      } }
    Node::Fixed { items } => {
      let mut a = base.as_array().unwrap().clone();
      match r.below(6) {
        0 if !a.is_empty() => { a.pop(); Some(Violation { doc: Value::Array(a), at: path.clone(), what: "item missing".into() }) }
        1 => { a.push(scalar(r)); Some(Violation { doc: Value::Array(a), at: path.clone(), what: "item unexpected".into() }) }
        2 => { let d = r.pick(&[json!(null), json!("text"), json!({}), json!(1)]).clone(); Some(Violation { what: format!("array -> {d}"), doc: d, at: path.clone() }) }
        _ => { if items.is_empty() { return None } let i = r.us(items.len()); path.push(i.to_string()); let v = violate(&items[i], r, extra, path); path.pop();
          v.map(|v| { a[i] = v.doc; Violation { doc: Value::Array(a), at: v.at, what: v.what } }) }
      } }
    Node::Each { rule, item, .. } => {
      let mut a = base.as_array().unwrap().clone(); let (lo, hi) = rule.unwrap_or((None, None));
      match r.below(6) {
        0 if lo.unwrap_or(0) > 0 => { a.truncate(lo.unwrap() - 1); Some(Violation { doc: Value::Array(a), at: path.clone(), what: "fewer than the minimum".into() }) }
        1 if hi.is_some() => { while a.len() <= hi.unwrap() { a.push(comply(item, r, extra)) } Some(Violation { doc: Value::Array(a), at: path.clone(), what: "more than the maximum".into() }) }
        2 => { let d = r.pick(&[json!(null), json!("text"), json!({}), json!(1)]).clone(); Some(Violation { what: format!("array -> {d}"), doc: d, at: path.clone() }) }
        _ => { if a.is_empty() { if hi == Some(0) { return None } a.push(comply(item, r, extra)) } let i = r.us(a.len()); path.push(i.to_string()); let v = violate(item, r, extra, path); path.pop();
          v.map(|v| { a[i] = v.doc; Violation { doc: Value::Array(a), at: v.at, what: v.what } }) }
      } }
    Node::Values { item, each, .. } => {
      let mut m = base.as_object().unwrap().clone();
      match (r.below(5), each) {
        (0, Some((Some((_, _, bad)), _))) => { let k = r.pick(bad).to_string(); m.insert(k.clone(), comply(item, r, extra)); path.push(k.clone()); let at = path.clone(); path.pop(); Some(Violation { doc: Value::Object(m), at, what: format!("key '{k}' does not match") }) }
        (1, _) => { let d = r.pick(&[json!(null), json!("text"), json!([]), json!(1)]).clone(); Some(Violation { what: format!("map -> {d}"), doc: d, at: path.clone() }) }
        _ => { if m.is_empty() { let k = match each { Some((Some((_, ok, _)), _)) => ok[0].to_string(), _ => "zz".to_string() }; m.insert(k, comply(item, r, extra)); }
          let k = m.keys().nth(r.us(m.len())).unwrap().clone(); path.push(k.clone()); let v = violate(item, r, extra, path); path.pop();
          v.map(|v| { m.insert(k, v.doc); Violation { doc: Value::Object(m), at: v.at, what: v.what } }) }
      } }
    Node::Contains { variants } => {
      let i = r.us(variants.len()); let mut a: Vec<Value> = vec![];
      for (j, n) in variants.iter().enumerate() { if i != j { a.push(comply(n, r, extra)) } }
      let what = if r.bool() { let mut p = vec![]; let v = violate(&variants[i], r, extra, &mut p)?; a.push(v.doc); format!("variant {i}: {}", v.what) } else { format!("variant {i} missing") };
      r.shuffle(&mut a); Some(Violation { doc: Value::Array(a), at: path.clone(), what }) }
  }
}

pub fn labels(n: &Node, out: &mut Vec<&'static str>) { match n {
  Node::Leaf { label, .. } => out.push(label), Node::Obj { fields, typed } => { out.push(if *typed { "typed object" } else { "object" }); for (_, n) in fields { labels(n, out) } }
  Node::Fixed { items } => { out.push("fixed array"); for n in items { labels(n, out) } }
  Node::Each { item, rule, .. } => { out.push(match rule { None => "cascaded array", Some((None, None)) => "array of type", Some((Some(_), None)) => "array min", Some((None, Some(_))) => "array max", _ => "array min max" }); labels(item, out) }
  Node::Values { item, each, .. } => { out.push(match each { None => "values map", Some((None, _)) => "eachValue map", _ => "eachKey map" }); labels(item, out) }
  Node::Contains { variants } => { out.push("arrayContains"); for n in variants { labels(n, out) } } } }
