//! Generators of specification-canonical Pact documents (plain JSON, made without the library).
use std::collections::BTreeMap;
use moncore::{json, Map, Rng, Value};

pub const IDENTS: [&str; 14] = ["a", "b", "id", "name", "items", "value", "x1", "_meta", "Total", "user_id", "c3", "tags", "zone", "K"];

pub fn ident(r: &mut Rng) -> String { if r.chance(3, 4) { r.pick_s(&IDENTS) } else {
  let mut s = r.string_from(&['a', 'b', 'Q', '_', 'z'], 1, 3); s.push_str(&r.below(50).to_string()); s } }

const CHARS: [char; 46] = ['a', 'b', 'c', 'Z', '0', '7', ' ', ' ', '-', '_', '.', '/', ':', ';', ',', '"', '\'', '\\', '{', '}', '[', ']',
  '<', '>', '&', '=', '%', '+', '#', '?', '$', '*', '~', 'é', 'ß', '日', '😀', '\n', '\t', '|', '\r', '\u{0}', '\u{a0}', '\u{feff}', '\u{2028}', 'İ'];

/// Any text, including quotes, control and non-ASCII characters
pub fn text(r: &mut Rng) -> String { if r.chance(1, 8) { String::new() } else { text1(r) } }
/// Mostly short, now and then as long as real texts are
pub fn text1(r: &mut Rng) -> String {
  let (lo, hi) = match r.below(2000) { 0 => (3000, 9000), 1..=9 => (250, 1100), 10..=49 => (24, 140), _ => (1, 14) };
  r.string_from(&CHARS, lo, hi)
}
pub fn word(r: &mut Rng) -> String { r.string_from(&['a', 'b', 'c', 'd', 'e', 'T', '1', '9', '-', '_'], 1, 9) }

pub fn number(r: &mut Rng) -> Value {
  match r.below(8) {
    0 => json!(0), 1 => json!(r.range(-10, 10)), 2 => json!(r.range(0, 100000)), 3 => json!(i64::MIN), 4 => json!(u64::MAX),
    5 => json!(r.range(-1000, 1000) as f64 / 8.0), 6 => json!(r.range(1, 9) as f64 * 1e17), _ => json!(r.range(-1_000_000_000_000, 1_000_000_000_000))
  }
}

pub fn jscalar(r: &mut Rng) -> Value {
  match r.below(8) {
    0 => Value::Null, 1 => json!(r.bool()), 2 | 3 | 4 => number(r), _ => Value::String(text(r))
  }
}

pub fn jkey(r: &mut Rng) -> String { if r.chance(4, 5) { ident(r) } else { text1(r) } }

pub fn jvalue(r: &mut Rng, depth: u32) -> Value {
  if depth == 0 || r.chance(2, 5) { return jscalar(r) }
  if r.bool() {
    let n = if r.chance(1, 60) { r.range(8, 40) as u64 } else { r.below(4) };
    Value::Array((0..n).map(|_| jvalue(r, depth - 1)).collect())
  } else {
    let n = if r.chance(1, 60) { r.range(8, 40) as u64 } else { r.below(5) };
    Value::Object((0..n).map(|_| (jkey(r), jvalue(r, depth - 1))).collect())
  }
}

pub fn jobject(r: &mut Rng, depth: u32) -> Value {
  let n = r.range(1, 4);
  Value::Object((0..n).map(|_| (jkey(r), jvalue(r, depth))).collect())
}

pub const JSON_CT: [&str; 6] = ["application/json", "application/json;charset=utf-8", "application/vnd.acme.v1+json", "application/hal+json", "application/graphql", "application/json;profile=x"];
pub const TEXT_CT: [&str; 7] = ["text/plain", "text/html", "text/plain;charset=utf-8", "application/xml", "text/xml", "application/x-www-form-urlencoded", "text/csv"];
pub const BIN_CT: [&str; 6] = ["application/octet-stream", "image/png", "application/pdf", "video/mp4", "font/woff2", "application/zip"];

pub fn bytes(r: &mut Rng, lo: i64, hi: i64) -> Vec<u8> { let n = r.range(lo, hi); (0..n).map(|_| r.next() as u8).collect() }

pub use moncore::b64;

/// What a body in a document means
#[derive(Clone, Debug, PartialEq)]
pub enum BodyModel { Missing, Empty, Null, Json(Value), Bytes(Vec<u8>) }

/// A canonical V4 body object and its meaning. None = the attribute is absent.
pub fn body_v4(r: &mut Rng) -> (Option<Value>, BodyModel, Option<String>) {
  match r.below(10) {
    0 | 1 => (None, BodyModel::Missing, None),
    2 => (Some(json!({"content": ""})), BodyModel::Empty, None),
    3 | 4 | 5 | 6 => {
      let ct = r.pick_s(&JSON_CT);
      let mut v = jvalue(r, 3);
      if v == json!("") || v.is_null() { v = json!({"a": v}); }
      let mut b = json!({"content": v, "contentType": ct, "encoded": false});
      if r.chance(1, 10) { b["contentTypeHint"] = json!("DEFAULT"); }
      (Some(b), BodyModel::Json(v), Some(ct))
    }
    7 | 8 => {
      let ct = r.pick_s(&TEXT_CT);
      let s = text1(r);
      let mut b = json!({"content": s, "contentType": ct, "encoded": false});
      match r.below(8) { 0 => b["contentTypeHint"] = json!("TEXT"), 1 => {
        b["contentTypeHint"] = json!("BINARY"); b["encoded"] = json!("base64"); b["content"] = json!(b64(s.as_bytes()));
      } _ => {} }
      (Some(b), BodyModel::Bytes(s.into_bytes()), Some(ct))
    }
    _ => {
      let ct = r.pick_s(&BIN_CT);
      let d = bytes(r, 1, 40);
      let mut b = json!({"content": b64(&d), "contentType": ct, "encoded": "base64"});
      if r.chance(1, 4) { b["contentTypeHint"] = json!("BINARY"); }
      (Some(b), BodyModel::Bytes(d), Some(ct))
    }
  }
}

pub const HNAMES: [&str; 14] = ["X-Test", "x-request-id", "Accept", "Cache-Control", "Allow", "ETag", "Content-Language", "X_Under", "Location", "Vary", "Last-Modified", "User-Agent", "X.Dot", "Set-Cookie"];

fn hval(r: &mut Rng) -> String {
  match r.below(7) {
    0 => "a=1; b=\"q,r\"".into(), 1 => "Mon, 01 Dec 2008 01:15:39 GMT".into(), 2 => "text/html;q=0.9".into(), 3 => "".into(),
    4 => text1(r), _ => word(r)
  }
}

pub fn headers_v4(r: &mut Rng) -> Map<String, Value> {
  let n = r.below(4);
  (0..n).map(|_| { let k = r.pick_s(&HNAMES); let m = r.range(1, 3); (k, Value::Array((0..m).map(|_| json!(hval(r))).collect())) }).collect()
}

pub fn query_v34(r: &mut Rng) -> Map<String, Value> {
  let n = r.below(4);
  (0..n).map(|_| { let k = if r.chance(3, 4) { ident(r) } else { text1(r) }; let m = r.range(1, 3);
    (k, Value::Array((0..m).map(|_| if r.chance(1, 8) { Value::Null } else { json!(text(r)) }).collect())) }).collect()
}

/// Metadata name as used in matching rules and generators
pub fn mkey(r: &mut Rng) -> String { loop { let k = ident(r); if k.starts_with(|c: char| c.is_ascii_alphabetic()) { return k } } }

/// Canonical path expression for body rules
pub fn body_path(r: &mut Rng) -> String {
  let mut s = "$".to_string();
  for _ in 0..r.below(5) {
    match r.below(10) {
      0 | 1 => s.push_str(&format!("[{}]", r.below(12))),
      2 => s.push_str("[*]"),
      3 => s.push_str(".*"),
      4 => { let k = r.pick_s(&["a b", "x-y", "1st", "é", "a.b", "@id", "#text", "urn:ns", "a/b", "日本", "$ref"]); s.push_str(&format!("['{}']", k)); }
      _ => { s.push('.'); s.push_str(&ident(r)); }
    }
  }
  s
}

pub const REGEXES: [&str; 8] = ["\\d+", "^[a-z]+$", "(a|b)c?", "[0-9]{3}-[0-9]{4}", ".*", "\\w+\\.\\w+", "^$", "é\\/\"x\""];
pub const DATES: [&str; 5] = ["yyyy-MM-dd", "dd/MM/yyyy", "yyyy-MM-dd'T'HH:mm:ss", "HH:mm:ss", "EEE, d MMM yyyy"];

pub fn status_json(r: &mut Rng) -> Value {
  if r.chance(1, 3) { json!([200, 201, r.range(100, 599)]) } else {
    json!(r.pick_s(&["info", "success", "redirect", "clientError", "serverError", "nonError", "error"])) }
}

/// Number of elements asked for by a rule; none and very many included
fn limit(r: &mut Rng) -> i64 { match r.below(8) { 0 => 0, 1 => *r.pick(&[10, 255, 256, 65536, 1 << 31, (1 << 32) + 1]), _ => r.range(1, 9) } }

pub fn rule_v34(r: &mut Rng, depth: u32) -> Value {
  match r.below(if depth == 0 { 19 } else { 24 }) {
    0 => json!({"match": "equality"}),
    1 | 2 => json!({"match": "regex", "regex": r.pick_s(&REGEXES)}),
    3 | 4 => json!({"match": "type"}),
    5 => json!({"match": "type", "min": limit(r)}),
    6 => json!({"match": "type", "max": limit(r)}),
    7 => { let (a, b) = (limit(r), limit(r)); json!({"match": "type", "min": a.min(b), "max": a.max(b)}) }
    8 => { let k = r.pick_s(&["datetime", "date", "time"]); json!({"match": k, "format": r.pick_s(&DATES)}) }
    9 => json!({"match": "include", "value": text(r)}),
    10 => json!({"match": "number"}),
    11 => json!({"match": "integer"}),
    12 => json!({"match": "decimal"}),
    13 => json!({"match": "boolean"}),
    14 => json!({"match": "null"}),
    15 => json!({"match": "contentType", "value": r.pick_s(&["image/png", "application/json", "text/xml"])}),
    16 => json!({"match": "notEmpty"}),
    17 => json!({"match": "semver"}),
    18 => json!({"match": "values"}),
    19 => json!({"match": "statusCode", "status": status_json(r)}),
    20 | 21 => {
      let n = r.range(1, 3);
      json!({"match": "arrayContains", "variants": (0..n).map(|i| {
        let mut v = json!({"index": if r.chance(1, 6) { r.range(2, 300) } else { i }, "rules": rule_map(r, depth - 1, 1)});
        if r.chance(1, 3) { v["generators"] = json!({ (body_path(r)): generator(r) }); }
        v
      }).collect::<Vec<_>>()})
    }
    _ => {
      let k = r.pick_s(&["eachKey", "eachValue"]);
      let n = r.range(0, 2);
      let mut v = json!({"match": k, "rules": (0..n).map(|_| rule_v34(r, depth - 1)).collect::<Vec<_>>()});
      if r.bool() { v["value"] = json!(text1(r)); }
      if r.chance(1, 4) { v["generator"] = generator(r); }
      v
    }
  }
}

pub fn rule_list(r: &mut Rng, depth: u32) -> Value {
  let n = if r.chance(3, 4) { 1 } else { r.range(2, 3) };
  let mut l: Vec<Value> = (0..n).map(|_| rule_v34(r, depth)).collect();
  // rules are kept in the order given, also when one is given twice
  if r.chance(1, 10) { let i = r.us(l.len()); let v = l[i].clone(); l.push(v); }
  json!({"combine": if r.chance(1, 4) { "OR" } else { "AND" }, "matchers": l})
}

/// path -> rule list
pub fn rule_map(r: &mut Rng, depth: u32, min: i64) -> Value {
  let n = r.range(min, 3);
  Value::Object((0..n).map(|_| (body_path(r), rule_list(r, depth))).collect())
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Part { Request, Response, Message }

pub fn matching_rules(r: &mut Rng, part: Part) -> Option<Value> {
  let mut m = Map::new();
  let body = rule_map(r, 2, 1);
  if r.bool() { m.insert(if part == Part::Message && r.chance(1, 4) { "contents".into() } else { "body".into() }, body); }
  match part {
    Part::Request => {
      if r.chance(1, 4) { m.insert("path".into(), rule_list(r, 1)); }
      if r.chance(1, 4) { let n = r.range(1, 2); m.insert("query".into(), Value::Object((0..n).map(|_| (if r.chance(3, 4) { ident(r) } else { text1(r) }, rule_list(r, 1))).collect())); }
      if r.chance(1, 4) { m.insert("header".into(), Value::Object(r.subset(&HNAMES, 1, 4).iter().take(2).chain(&["X-Always"]).map(|n| (n.to_string(), rule_list(r, 1))).collect())); }
    }
    Part::Response => {
      if r.chance(1, 4) { m.insert("header".into(), Value::Object(r.subset(&HNAMES, 1, 4).iter().take(2).chain(&["X-Always"]).map(|n| (n.to_string(), rule_list(r, 1))).collect())); }
      if r.chance(1, 4) { m.insert("status".into(), json!({"combine": "AND", "matchers": [{"match": "statusCode", "status": status_json(r)}]})); }
    }
    Part::Message => {
      if r.chance(1, 4) { let n = r.range(1, 2); m.insert("metadata".into(), Value::Object((0..n).map(|_| (mkey(r), rule_list(r, 1))).collect())); }
    }
  }
  if m.is_empty() { None } else { Some(Value::Object(m)) }
}

pub fn generator(r: &mut Rng) -> Value {
  match r.below(12) {
    0 => if r.chance(1, 6) { json!({"type": "RandomInt", "min": r.pick(&[i32::MIN, -1, 10, i32::MAX]), "max": r.pick(&[i32::MIN, 0, 10, i32::MAX])}) } else { json!({"type": "RandomInt", "min": r.range(-5, 5), "max": r.range(5, 1_000_000)}) },
    1 => json!({"type": "Uuid"}),
    2 => json!({"type": "Uuid", "format": r.pick_s(&["simple", "lower-case-hyphenated", "upper-case-hyphenated", "URN"])}),
    3 => json!({"type": "RandomDecimal", "digits": if r.chance(1, 5) { r.range(0, 65535) } else { r.range(1, 20) }}),
    4 => json!({"type": "RandomHexadecimal", "digits": if r.chance(1, 5) { r.range(0, 65535) } else { r.range(1, 16) }}),
    5 => json!({"type": "RandomString", "size": r.range(0, 65535)}),
    6 => json!({"type": "Regex", "regex": r.pick_s(&REGEXES)}),
    7 | 8 => {
      let mut g = json!({"type": r.pick_s(&["Date", "Time", "DateTime"])});
      if r.bool() { g["format"] = json!(r.pick_s(&DATES)); }
      if r.bool() { g["expression"] = json!(r.pick_s(&["today + 1 day", "now", "+1 hour", "tomorrow @ midnight", ""])); }
      g
    }
    9 => json!({"type": "RandomBoolean"}),
    10 => {
      let mut g = json!({"type": "ProviderState", "expression": r.pick_s(&["${id}", "id", "/a/${x}/b/${y}", "", "${a b}-é"])});
      if r.bool() { g["dataType"] = json!(r.pick_s(&["STRING", "INTEGER", "DECIMAL", "FLOAT", "RAW", "BOOLEAN"])); }
      g
    }
    _ => json!({"type": "MockServerURL", "example": "http://localhost:1234/path", "regex": ".*(\\/path)$"})
  }
}

pub fn generators(r: &mut Rng, part: Part) -> Option<Value> {
  let mut m = Map::new();
  if r.bool() { let n = r.range(1, 3); m.insert("body".into(), Value::Object((0..n).map(|_| (body_path(r), generator(r))).collect())); }
  if part != Part::Message && r.chance(1, 4) { m.insert("header".into(), Value::Object((0..r.range(1, 2)).map(|_| (r.pick_s(&HNAMES), generator(r))).collect())); }
  match part {
    Part::Request => {
      if r.chance(1, 4) { m.insert("path".into(), generator(r)); }
      if r.chance(1, 8) { m.insert("method".into(), generator(r)); }
      if r.chance(1, 4) { m.insert("query".into(), Value::Object((0..r.range(1, 2)).map(|_| (if r.chance(3, 4) { ident(r) } else { text1(r) }, generator(r))).collect())); }
    }
    Part::Response => { if r.chance(1, 4) { m.insert("status".into(), generator(r)); } }
    Part::Message => { if r.chance(1, 4) { m.insert("metadata".into(), Value::Object((0..r.range(1, 2)).map(|_| (mkey(r), generator(r))).collect())); } }
  }
  if m.is_empty() { None } else { Some(Value::Object(m)) }
}

pub fn provider_states(r: &mut Rng) -> Vec<Value> {
  let n = match r.below(6) { 0 | 1 | 2 => 0, 3 | 4 => 1, _ => r.range(2, 3) };
  let mut v: Vec<Value> = (0..n).map(|_| {
    let mut s = json!({"name": text1(r)});
    if r.bool() { s["params"] = jobject(r, 2); }
    s
  }).collect();
  // the same state may be asked for more than once
  if !v.is_empty() && r.chance(1, 8) { let i = r.us(v.len()); let s = v[i].clone(); let at = r.us(v.len() + 1); v.insert(at, s); }
  v
}

fn set(o: &mut Value, k: &str, v: Option<Value>) { if let Some(v) = v { o[k] = v; } }

fn extras(r: &mut Rng, i: &mut Value) {
  i["pending"] = json!(r.chance(1, 4));
  if r.bool() { i["key"] = json!(format!("{:x}", r.next())); }
  let st = provider_states(r);
  if !st.is_empty() { i["providerStates"] = Value::Array(st); }
  if r.chance(1, 4) {
    let mut c = Map::new();
    if r.bool() { c.insert("text".into(), json!([text(r), text(r)])); }
    if r.bool() { c.insert("testname".into(), json!(text1(r))); }
    c.insert(format!("k{}", r.below(9)), { let v = jobject(r, 2); v });
    if r.bool() { c.insert("flag".into(), r.pick(&[json!(false), json!(true), json!(0), json!(1.5), json!(-0.0), json!([false]), json!({"a": null}), json!({"text": []}), json!([[]]), json!({"a": {}})]).clone()); }
    if r.chance(1, 3) { let t = text1(r); c.insert("text".into(), json!([t, t])); }
    i["comments"] = Value::Object(c);
  }
  if r.chance(1, 5) { i["pluginConfiguration"] = json!({ (word(r)): jobject(r, 2) }); }
  if r.chance(1, 5) { i["interactionMarkup"] = json!({"markup": text1(r), "markupType": r.pick_s(&["COMMON_MARK", "HTML"])}); }
  if r.chance(1, 4) { i["transport"] = json!(r.pick_s(&["http", "https", "grpc", "message"])); }
}

/// (document fragment, meaning of every body in document order)
pub fn interaction_v4(r: &mut Rng, kind: u64) -> (Value, Vec<BodyModel>) {
  let mut bodies = vec![];
  let mut i;
  match kind {
    0 => {
      let mut req = json!({"method": r.pick_s(&["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "BREW"]),
        "path": format!("/{}", if r.bool() { word(r) } else { text(r) })});
      if r.bool() { req["query"] = Value::Object(query_v34(r)); }
      if r.bool() { req["headers"] = Value::Object(headers_v4(r)); }
      let (b, m, ct) = body_v4(r);
      if let (Some(ct), true) = (&ct, r.chance(1, 3)) { let h = if req["headers"].is_object() { req["headers"].as_object_mut().unwrap() } else { req["headers"] = json!({}); req["headers"].as_object_mut().unwrap() }; h.insert(r.pick_s(&["Content-Type", "content-type"]), json!([ct])); }
      set(&mut req, "body", b); bodies.push(m);
      set(&mut req, "matchingRules", matching_rules(r, Part::Request));
      set(&mut req, "generators", generators(r, Part::Request));
      let mut res = json!({"status": r.range(100, 599)});
      if r.bool() { res["headers"] = Value::Object(headers_v4(r)); }
      let (b, m, _) = body_v4(r);
      set(&mut res, "body", b); bodies.push(m);
      set(&mut res, "matchingRules", matching_rules(r, Part::Response));
      set(&mut res, "generators", generators(r, Part::Response));
      i = json!({"type": "Synchronous/HTTP", "request": req, "response": res});
    }
    1 => {
      i = json!({"type": "Asynchronous/Messages"});
      let mut mp = message_part(r, &mut bodies);
      for k in ["contents", "metadata", "matchingRules", "generators"] { if let Some(v) = mp.as_object_mut().unwrap().remove(k) { i[k] = v; } }
    }
    _ => {
      let req = message_part(r, &mut bodies);
      let n = r.below(4);
      let res: Vec<Value> = (0..n).map(|_| message_part(r, &mut bodies)).collect();
      i = json!({"type": "Synchronous/Messages", "request": req, "response": res});
    }
  }
  extras(r, &mut i);
  (i, bodies)
}

pub fn message_part(r: &mut Rng, bodies: &mut Vec<BodyModel>) -> Value {
  let mut m = json!({});
  let (b, bm, ct) = body_v4(r);
  set(&mut m, "contents", b); bodies.push(bm);
  let mut md = Map::new();
  for _ in 0..r.below(3) { md.insert(jkey(r), jvalue(r, 2)); }
  if let (Some(ct), true) = (ct, r.chance(1, 3)) { md.insert("contentType".into(), json!(ct)); }
  if !md.is_empty() { m["metadata"] = Value::Object(md); }
  set(&mut m, "matchingRules", matching_rules(r, Part::Message));
  set(&mut m, "generators", generators(r, Part::Message));
  m
}

pub fn metadata_extra(r: &mut Rng) -> Map<String, Value> {
  let mut md = Map::new();
  if r.bool() { md.insert("pactRust".into(), json!({"ffi": "0.4.0", "mockserver": word(r)})); }
  if r.bool() { md.insert(ident(r), json!({ (ident(r)): word(r) })); }
  md
}

pub struct GenPact { pub doc: Value, pub bodies: Vec<Vec<BodyModel>> }

pub fn pact_v4(r: &mut Rng) -> GenPact {
  let n = match r.below(8) { 0 => 0, 1 | 2 => 1, _ => r.range(2, 6) };
  let mut v: Vec<(String, Value, Vec<BodyModel>)> = vec![];
  for k in 0..n {
    let kind = r.below(3);
    let (mut i, b) = interaction_v4(r, kind);
    let d = format!("{}{}", text(r), k);
    i["description"] = json!(d);
    v.push((d, i, b));
  }
  v.sort_by(|a, b| a.0.cmp(&b.0));
  let mut md = metadata_extra(r);
  if r.chance(1, 4) { md.insert("notes".into(), jvalue(r, 2)); }
  if r.chance(1, 4) { md.insert(format!("x{}", ident(r)), json!({ (ident(r)): jscalar(r), (word(r)): jvalue(r, 1), "build": r.below(1000), "release": r.bool() })); }
  md.insert("pactSpecification".into(), json!({"version": "4.0"}));
  if r.chance(1, 4) { md.insert("plugins".into(), json!([{"name": word(r), "version": "1.2.3", "configuration": jobject(r, 2)}])); }
  GenPact {
    doc: json!({"consumer": {"name": text1(r)}, "provider": {"name": text1(r)},
      "interactions": v.iter().map(|t| t.1.clone()).collect::<Vec<_>>(), "metadata": md}),
    bodies: v.into_iter().map(|t| t.2).collect()
  }
}

// ---- V1 - V3 ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Spec { V1, V11, V2, V3 }
pub const SPECS: [Spec; 4] = [Spec::V1, Spec::V11, Spec::V2, Spec::V3];
impl Spec { pub fn ver(&self) -> &'static str { match self { Spec::V1 => "1.0.0", Spec::V11 => "1.1.0", Spec::V2 => "2.0.0", Spec::V3 => "3.0.0" } } }

/// Headers of pre-V4 documents: a single comma separated string
pub fn headers_v123(r: &mut Rng) -> Map<String, Value> {
  let n = r.below(4);
  (0..n).map(|_| {
    let k = r.pick_s(&["X-Test", "x-request-id", "Accept", "Allow", "ETag", "Location", "Last-Modified", "User-Agent", "Vary"]);
    let v = match k.as_str() { "Last-Modified" => "Mon, 01 Dec 2008 01:15:39 GMT".to_string(), "User-Agent" => "Mozilla/5.0 (X11, Linux) a, b".into(),
      _ => { let m = r.range(1, 3); (0..m).map(|_| r.string_from(&['a', 'b', '1', ' ', ';', '=', '/', '"', 'é'], 1, 8).trim().to_string()).collect::<Vec<_>>().join(", ") } };
    (k, json!(v))
  }).collect()
}

/// pre-V4 body with headers that declare it. (body attribute, headers to add, meaning)
/// Text for a JSON string body, which is neither a JSON object nor a quoted string itself
fn json_text(r: &mut Rng) -> String {
  let s = match r.below(4) { 0 => r.pick_s(&["say \"hi\"", "[\"a\"]", "[1, 2]", "back\\slash", "two\nlines", "true", "12", "\"", "a\"b\"c", "tab\t.", "null"]), 1 => word(r), _ => text(r) };
  if s.is_empty() || s.trim_start().starts_with('{') || serde_json::from_str::<String>(&s).is_ok() { "plain".to_string() } else { s }
}

pub const BINARY_CT: [&str; 5] = ["application/octet-stream", "image/png", "application/pdf", "audio/mpeg", "font/woff2"];

pub fn body_v123(r: &mut Rng) -> (Option<Value>, Option<String>, BodyModel) {
  match r.below(11) {
    0 | 1 => (None, None, BodyModel::Missing),
    2 => (Some(json!("")), None, BodyModel::Empty),
    // A JSON body that is a string. Text that is itself a JSON object or a quoted string stands for the document it spells.
    6 => {
      let s = json_text(r);
      (Some(json!(s)), Some(r.pick_s(&JSON_CT[..4])), BodyModel::Json(json!(s)))
    }
    // Binary content, given as Base64
    7 => {
      let b: Vec<u8> = match r.below(3) { 0 => (0..r.range(1, 12)).map(|_| r.next() as u8).collect(), 1 => (0..r.range(1, 5) * 4).map(|_| *r.pick(b"abcdWXYZ0189+/")).collect(), _ => text(r).into_bytes() };
      let b = if b.is_empty() { vec![1, 2, 255] } else { b };
      (Some(json!(moncore::b64(&b))), Some(r.pick_s(&BINARY_CT)), BodyModel::Bytes(b))
    }
    3 => (Some(Value::Null), None, BodyModel::Null),
    4 | 5 => { // a JSON structure
      let v = if r.bool() { jobject(r, 3) } else { json!([jvalue(r, 2), jvalue(r, 2)]) };
      (Some(v.clone()), if r.bool() { Some(r.pick_s(&JSON_CT[..4])) } else { None }, BodyModel::Json(v))
    }
    _ => {
      let s = format!("{}é plain {}", word(r), text(r).replace('<', "("));
      (Some(json!(s)), Some(r.pick_s(&["text/plain", "text/html", "text/csv", "application/xml"])), BodyModel::Bytes(s.into_bytes()))
    }
  }
}

pub fn rule_v2(r: &mut Rng) -> Value {
  match r.below(6) { 0 => json!({"match": "regex", "regex": r.pick_s(&REGEXES)}), 1 | 2 => json!({"match": "type"}),
    3 => json!({"match": "type", "min": r.range(1, 9)}), 4 => json!({"match": "type", "max": r.range(1, 9)}), _ => json!({"match": "type", "min": r.range(1, 4), "max": r.range(4, 9)}) }
}

pub fn matching_rules_v2(r: &mut Rng, req: bool) -> Option<Value> {
  let mut m = Map::new();
  for _ in 0..r.below(3) { let p = body_path(r); m.insert(format!("$.body{}", &p[1..]), rule_v2(r)); }
  if r.chance(1, 3) { m.insert(format!("$.headers{}", r.pick_s(&[".Accept", ".ETag", ".X_Test", "['X-Test']", "['X Y']", "['X.Dot']"])), rule_v2(r)); }
  if req && r.chance(1, 3) { m.insert("$.path".into(), rule_v2(r)); }
  if req && r.chance(1, 3) { m.insert(format!("$.query.{}", ident(r)), rule_v2(r)); }
  if m.is_empty() { None } else { Some(Value::Object(m)) }
}

/// Percent-encoded canonical query string: names and values sorted by name
pub fn query_v12(r: &mut Rng) -> (String, BTreeMap<String, Vec<Option<String>>>) {
  let mut m: BTreeMap<String, Vec<Option<String>>> = BTreeMap::new();
  for _ in 0..r.range(1, 4) {
    let k = ident(r);
    m.entry(k).or_default().push(if r.chance(1, 8) { None } else { Some(r.string_from(&['a', 'Z', '0', '-', ' ', '/', '&', '=', '+', '%', '"'], 0, 6)) });
  }
  let enc = |s: &str| s.chars().map(|c| match c { ' ' => "+".to_string(), 'a'..='z' | 'A'..='Z' | '0'..='9' | '-' => c.to_string(), c => format!("%{:02x}", c as u32) }).collect::<String>();
  let s = m.iter().flat_map(|(k, vs)| vs.iter().map(|v| match v { None => k.clone(), Some(v) => format!("{}={}", k, enc(v)) }).collect::<Vec<_>>()).collect::<Vec<_>>().join("&");
  (s, m)
}

fn add_ct(o: &mut Value, ct: Option<String>, r: &mut Rng) {
  if let Some(ct) = ct {
    if !o["headers"].is_object() { o["headers"] = json!({}); }
    o["headers"].as_object_mut().unwrap().insert(r.pick_s(&["Content-Type", "content-type"]), json!(ct));
  }
}

pub fn pact_v123(r: &mut Rng, spec: Spec) -> GenPact {
  let n = match r.below(8) { 0 => 0, 1 | 2 => 1, _ => r.range(2, 5) };
  let mut docs = vec![]; let mut bodies = vec![];
  for k in 0..n {
    let mut req = json!({"method": r.pick_s(&["GET", "POST", "PUT", "DELETE", "PATCH"]), "path": format!("/{}", if r.bool() { word(r) } else { text(r) })});
    if r.bool() { req["query"] = if spec == Spec::V3 { Value::Object(query_v34(r)) } else { json!(query_v12(r).0) }; }
    if r.bool() { req["headers"] = Value::Object(headers_v123(r)); }
    let (b, ct, m1) = body_v123(r);
    add_ct(&mut req, ct, r);
    set(&mut req, "body", b);
    let mut res = json!({"status": r.range(100, 599)});
    if r.bool() { res["headers"] = Value::Object(headers_v123(r)); }
    let (b, ct, m2) = body_v123(r);
    add_ct(&mut res, ct, r);
    set(&mut res, "body", b);
    if spec == Spec::V3 {
      set(&mut req, "matchingRules", matching_rules(r, Part::Request)); set(&mut res, "matchingRules", matching_rules(r, Part::Response));
      set(&mut req, "generators", generators(r, Part::Request)); set(&mut res, "generators", generators(r, Part::Response));
    } else {
      set(&mut req, "matchingRules", matching_rules_v2(r, true)); set(&mut res, "matchingRules", matching_rules_v2(r, false));
    }
    let mut i = json!({"description": format!("{}{}", text(r), k), "request": req, "response": res});
    if spec == Spec::V3 { let s = provider_states(r); if !s.is_empty() { i["providerStates"] = Value::Array(s); } }
    else if r.bool() { i["providerState"] = json!(text1(r)); }
    docs.push(i); bodies.push(vec![m1, m2]);
  }
  let mut md = metadata_extra(r);
  md.insert("pactSpecification".into(), json!({"version": spec.ver()}));
  GenPact { doc: json!({"consumer": {"name": text1(r)}, "provider": {"name": text1(r)}, "interactions": docs, "metadata": md}), bodies }
}

pub fn message_pact_v3(r: &mut Rng) -> GenPact {
  let n = match r.below(8) { 0 => 0, 1 | 2 => 1, _ => r.range(2, 5) };
  let mut docs = vec![]; let mut bodies = vec![];
  for k in 0..n {
    let mut md = Map::new();
    for _ in 0..r.below(3) { md.insert(ident(r), jvalue(r, 1)); }
    let (b, bm) = match r.below(10) {
      0 => (None, BodyModel::Missing),
      1 => (Some(json!("")), BodyModel::Empty),
      2 => (Some(Value::Null), BodyModel::Null),
      8 => { let s = json_text(r); md.insert("contentType".into(), json!(r.pick_s(&JSON_CT[..4]))); (Some(json!(s)), BodyModel::Json(json!(s))) }
      9 => { let s = format!("<svg><text>{}é</text></svg>", word(r)); md.insert("contentType".into(), json!(r.pick_s(&["application/atom+xml", "application/xhtml+xml", "application/xml"]))); (Some(json!(s)), BodyModel::Bytes(s.into_bytes())) }
      3 | 4 | 5 => { let v = jobject(r, 3); if r.bool() { md.insert(r.pick_s(&["contentType", "content-type", "Content-Type"]), json!(r.pick_s(&JSON_CT[..4]))); } (Some(v.clone()), BodyModel::Json(v)) }
      6 => { let d = bytes(r, 1, 30); md.insert("contentType".into(), json!(r.pick_s(&BIN_CT))); (Some(json!(b64(&d))), BodyModel::Bytes(d)) }
      _ => { let s = format!("{}é plain {}", word(r), text(r).replace('<', "(")); md.insert("contentType".into(), json!(r.pick_s(&["text/plain", "text/csv"]))); (Some(json!(s)), BodyModel::Bytes(s.into_bytes())) }
    };
    let mut i = json!({"description": format!("{}{}", text(r), k), "metadata": md});
    set(&mut i, "contents", b);
    set(&mut i, "matchingRules", matching_rules(r, Part::Message));
    set(&mut i, "generators", generators(r, Part::Message));
    let s = provider_states(r); if !s.is_empty() { i["providerStates"] = Value::Array(s); }
    docs.push(i); bodies.push(vec![bm]);
  }
  let mut md = metadata_extra(r);
  md.insert("pactSpecification".into(), json!({"version": "3.0.0"}));
  GenPact { doc: json!({"consumer": {"name": text1(r)}, "provider": {"name": text1(r)}, "messages": docs, "metadata": md}), bodies }
}
