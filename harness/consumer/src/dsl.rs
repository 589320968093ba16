//! Patterns with what they stand for, and what a consumer test says about its interactions.
use std::collections::{BTreeMap, HashMap};
use moncore::*;
use pact_consumer::patterns::*;
use pact_models::path_exp::DocPath;
use serde_json::{json, Map, Value};

pub type Rules = BTreeMap<String, Vec<Value>>;
pub struct Made { pub pat: JsonPattern, pub plain: Value, pub rules: Rules }

fn name(r: &mut Rng) -> String { r.pick_s(&["id", "name", "a", "b", "items", "x-y", "a b", "émile", "Total", "n1"]) }

pub fn scalar(r: &mut Rng) -> Value {
  match r.us(7) { 0 => Value::Null, 1 => json!(r.bool()), 2 => json!(r.range(-20, 2000)), 3 => json!(r.range(-20, 2000) as f64 + 0.5), 4 => json!(""), _ => json!(r.pick_s(&["a", "ab", "100", "true", "2000-01-02", "é", "\"q\"", "a\nb", "{}", "[1]"])) }
}

pub fn note(rules: &mut Rules, path: &DocPath, rule: Value) {
  let list = rules.entry(path.to_string()).or_default();
  if !list.contains(&rule) { list.push(rule); }
}
fn all(into: &mut Rules, from: Rules) { for (k, l) in from { for v in l { let list = into.entry(k.clone()).or_default(); if !list.contains(&v) { list.push(v); } } } }

fn field(path: &DocPath, k: &str) -> DocPath { let mut p = path.clone(); p.push_field(k); p }

/// A pattern that is a text with a rule for it
pub const TEXTS: [(&str, &str); 4] = [("\\w+", "abc"), ("^\\d{3}$", "100"), ("a|b", "b"), ("^/\\w+.*", "/users")];

pub fn pattern(r: &mut Rng, path: &DocPath, depth: usize) -> Made {
  let mut rules = Rules::new();
  match if depth == 0 { 6 + r.us(4) } else { r.us(12) } {
    0 | 1 => {
      let (mut m, mut plain) = (HashMap::new(), Map::new());
      for _ in 0..r.us(4) + 1 {
        let k = name(r);
        if m.contains_key(&k) { continue }
        let c = pattern(r, &field(path, &k), depth - 1);
        m.insert(k.clone(), c.pat); plain.insert(k, c.plain); all(&mut rules, c.rules);
      }
      Made { pat: m.into(), plain: Value::Object(plain), rules }
    },
    2 => {
      let (mut l, mut plain) = (vec![], vec![]);
      for i in 0..r.us(4) {
        let mut p = path.clone(); p.push_index(i);
        let c = pattern(r, &p, depth - 1);
        l.push(c.pat); plain.push(c.plain); all(&mut rules, c.rules);
      }
      Made { pat: JsonPattern::Array(l), plain: Value::Array(plain), rules }
    },
    3 => {
      let c = pattern(r, path, depth - 1);
      note(&mut rules, path, json!({"match": "type"})); all(&mut rules, c.rules);
      Made { pat: Like::new(c.pat).into(), plain: c.plain, rules }
    },
    4 | 5 => {
      let mut item = path.clone(); item.push_star_index();
      let c = pattern(r, &item, depth - 1);
      let min = 1 + r.us(3);
      note(&mut rules, path, json!({"match": "type", "min": min}));
      let mut fields = item.clone(); fields.push_star();
      note(&mut rules, &fields, json!({"match": "type"})); all(&mut rules, c.rules);
      let plain = Value::Array(vec![c.plain; min]);
      let pat = if min == 1 && r.bool() { EachLike::new(c.pat) } else { EachLike::new(c.pat).with_min_len(min) };
      Made { pat: pat.into(), plain, rules }
    },
    6 => {
      let (re, ex) = *r.pick(&TEXTS);
      note(&mut rules, path, json!({"match": "regex", "regex": re}));
      Made { pat: Term::new(build_regex(re), ex).into(), plain: json!(ex), rules }
    },
    7 => {
      let (f, ex) = *r.pick(&[("yyyy-MM-dd", "2000-01-02"), ("HH:mm:ss", "12:30:00"), ("yyyy-MM-dd'T'HH:mm:ss", "2000-01-02T03:04:05")]);
      note(&mut rules, path, json!({"match": "datetime", "format": f}));
      Made { pat: DateTime::new(validate_format_string(f), ex.to_string()).into(), plain: json!(ex), rules }
    },
    8 | 9 => {
      let v = scalar(r);
      let pat = match &v { Value::Bool(b) => (*b).into(), Value::String(s) if r.bool() => s.as_str().into(), Value::Number(n) if n.is_i64() => n.as_i64().unwrap().into(), v => v.clone().into() };
      Made { pat, plain: v, rules }
    },
    10 => {
      // any keys of a form, with values of a form
      let keys = ["key1", "abc2", "zzz9"];
      let (mut m, mut plain) = (HashMap::new(), Map::new());
      let mut star = path.clone(); star.push_star();
      let child = pattern(r, &star, depth - 1);
      m.insert(keys[0].to_string(), child.pat); plain.insert(keys[0].to_string(), child.plain); all(&mut rules, child.rules);
      let mut given = vec![];
      note(&mut rules, path, json!({"match": "eachKey", "rules": [{"match": "regex", "regex": "[a-z]{3}[0-9]"}], "value": "key1"}));
      given.push(each_key(Term::new(build_regex("[a-z]{3}[0-9]"), "key1")).into());
      let _ = keys;
      Made { pat: ObjectMatching::new(m.into(), given).into(), plain: Value::Object(plain), rules }
    },
    _ => {
      let (mut m, mut plain) = (HashMap::new(), Map::new());
      for k in 0..1 + r.us(3) { let v = r.pick_s(&["a", "b c", "é"]); m.insert(format!("k{}", k), JsonPattern::from(v.as_str())); plain.insert(format!("k{}", k), json!(v)); }
      note(&mut rules, path, json!({"match": "eachValue", "rules": [{"match": "type"}], "value": "\"some\""}));
      Made { pat: ObjectMatching::new(m.into(), vec![each_value(Like::<JsonPattern>::new("some")).into()]).into(), plain: Value::Object(plain), rules }
    }
  }
}

pub fn text(r: &mut Rng, plain: &[&str], rule: bool) -> (StringPattern, String, Option<Value>) {
  match if rule { r.us(4) } else { 3 } {
    0 => { let (re, ex) = *r.pick(&TEXTS); (Term::new(build_regex(re), ex).into(), ex.into(), Some(json!({"match": "regex", "regex": re}))) },
    1 => { let s = r.pick_s(plain); (Like::new(s.clone()).into(), s, Some(json!({"match": "type"}))) },
    2 => (DateTime::new("yyyy-MM-dd", "2000-01-02").into(), "2000-01-02".into(), Some(json!({"match": "datetime", "format": "yyyy-MM-dd"}))),
    _ => { let s = r.pick_s(plain); (s.as_str().into(), s, None) }
  }
}
