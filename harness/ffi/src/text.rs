//! Texts handed to the C API.
use std::ffi::CString;
use libc::c_char;
use moncore::Rng;
use serde_json::{json, Value};

/// A C string or NULL; the memory is ours and is released as soon as the call is over.
pub struct Text(pub Option<CString>);
impl Text {
  pub fn null() -> Text { Text(None) }
  pub fn of(s: &str) -> Text { Text(Some(CString::new(s.replace('\0', "")).unwrap())) }
  pub fn bytes(b: &[u8]) -> Text { Text(Some(CString::new(b.iter().copied().filter(|b| *b != 0).collect::<Vec<_>>()).unwrap())) }
  pub fn ptr(&self) -> *const c_char { self.0.as_ref().map(|s| s.as_ptr()).unwrap_or(std::ptr::null()) }
}
impl std::fmt::Debug for Text {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match &self.0 { Some(s) => write!(f, "{:?}", s), None => write!(f, "NULL") }
  }
}

pub const MATCHERS: [&str; 28] = ["type", "regex", "equality", "include", "integer", "decimal", "number", "boolean", "null", "min-type", "max-type",
  "min-max-type", "date", "time", "datetime", "timestamp", "statusCode", "notEmpty", "semver", "contentType", "eachKey", "eachValue", "arrayContains",
  "array-contains", "values", "nonsense", "matching(type, 'a')", "eachKey(matching(regex, 'a', 'b')), eachValue(matching($'x'))"];
pub const GENERATORS: [&str; 13] = ["RandomInt", "Uuid", "RandomDecimal", "RandomHexadecimal", "RandomString", "Regex", "Date", "Time", "DateTime",
  "RandomBoolean", "ProviderState", "MockServerURL", "Other"];

pub fn word(r: &mut Rng) -> String { r.pick_s(&["a", "b", "id", "name", "x-y", "a b", "", "é", "0", "a.b", "a[", "a[0]", "$", "$.a", "*", "[*]", "'", "\"", "a'b", "👍", "%", "#{a}"]) }

pub fn scalar(r: &mut Rng) -> Value {
  match r.us(9) {
    0 => Value::Null, 1 => json!(r.bool()), 2 => json!(r.range(-5, 500)), 3 => json!(1.5), 4 => json!(-0.0), 5 => json!(u64::MAX),
    6 => json!("2024-02-30"), _ => json!(word(r))
  }
}

/// An integration JSON document, most of it well formed.
pub fn doc(r: &mut Rng, depth: usize) -> Value {
  match if depth == 0 { 0 } else { r.us(6) } {
    0 => scalar(r),
    1 => Value::Array((0..r.us(4)).map(|_| doc(r, depth - 1)).collect()),
    2 => Value::Object((0..r.us(4)).map(|_| (word(r), doc(r, depth - 1))).collect()),
    3 => {
      // an element of the XML form
      let mut m = json!({"name": word(r), "children": (0..r.us(3)).map(|_| doc(r, depth - 1)).collect::<Vec<_>>(),
        "attributes": { word(r): doc(r, 1) }});
      if r.chance(1, 3) { m = json!({"version": "1.0", "charset": "UTF-8", "root": m}); }
      if r.chance(1, 4) { m["content"] = doc(r, 1); }
      if r.chance(1, 4) { m["examples"] = json!(r.range(-1, 4)); }
      m
    },
    _ => {
      let mut m = serde_json::Map::new();
      m.insert("pact:matcher:type".into(), match r.us(10) {
        0 => scalar(r),
        1 => json!((0..r.us(3)).map(|_| json!({"pact:matcher:type": r.pick_s(&MATCHERS), "regex": "a|b"})).collect::<Vec<_>>()),
        _ => json!(r.pick_s(&MATCHERS))
      });
      if r.chance(4, 5) { m.insert("value".into(), doc(r, depth - 1)); }
      for (k, v) in [("regex", json!("\\d+")), ("regex", json!("[")), ("min", json!(1)), ("max", json!(3)), ("min", json!(-1)), ("format", json!("yyyy-MM-dd")),
        ("format", json!("'unclosed")), ("status", json!("nonError")), ("status", json!([200, "x"])), ("digits", json!(3)), ("size", json!(4)),
        ("expression", json!("${a}")), ("example", json!("http://x/y")), ("dataType", json!("INTEGER"))] {
        if r.chance(1, 4) { m.insert(k.into(), v); }
      }
      if r.chance(1, 3) { m.insert("variants".into(), doc(r, depth - 1)); }
      if r.chance(1, 4) { m.insert("rules".into(), json!([doc(r, depth - 1)])); }
      if r.chance(1, 3) { m.insert("pact:generator:type".into(), json!(r.pick_s(&GENERATORS))); }
      if r.chance(1, 5) { m.insert("namespace".into(), json!(word(r))); }
      Value::Object(m)
    }
  }
}

/// The JSON form of an XML element, with something wrong here and there.
pub fn xml_doc(r: &mut Rng, depth: usize) -> Value {
  if r.chance(1, 12) { return doc(r, 2) }
  if depth == 0 || r.chance(1, 5) {
    let mut m = json!({"content": scalar(r)});
    if r.chance(1, 3) { m["matcher"] = doc(r, 1); m["pact:generator:type"] = json!(r.pick_s(&GENERATORS)); }
    return m;
  }
  let name = r.pick_s(&["a", "b", "ns:c", "a", "x-y", "", "1", "a b", "é", "<"]);
  let mut el = json!({"name": name, "children": (0..r.us(3)).map(|_| xml_doc(r, depth - 1)).collect::<Vec<_>>(), "attributes": {}});
  for _ in 0..r.us(3) { let k = r.pick_s(&["id", "xmlns", "xmlns:ns", "ns:x", "", "a b", "'"]); el["attributes"][k] = if r.bool() { scalar(r) } else { doc(r, 1) }; }
  if r.chance(1, 5) { el["examples"] = json!(r.range(-1, 4)); }
  if r.chance(1, 10) { el.as_object_mut().unwrap().remove("name"); }
  if r.chance(1, 10) { el["children"] = doc(r, 1); }
  if r.chance(1, 3) {
    let mut m = json!({"pact:matcher:type": r.pick_s(&MATCHERS), "value": el});
    if r.chance(1, 2) { m["examples"] = json!(r.range(0, 4)); }
    if r.chance(1, 10) { m.as_object_mut().unwrap().remove("value"); }
    return m;
  }
  el
}

/// Rules or generators as they stand in a pact file, some of it not.
pub fn rules(r: &mut Rng) -> Value {
  let cat = r.pick_s(&["body", "header", "path", "query", "status", "metadata", "method", "content", "contents", "other", "matchingRules", "generators"]);
  let list = json!({"combine": r.pick_s(&["AND", "OR", "x"]), "matchers": [{"match": r.pick_s(&MATCHERS), "regex": "a", "min": 1, "value": doc(r, 1), "rules": [doc(r, 1)]}]});
  let gen = json!({"type": r.pick_s(&GENERATORS), "min": 1, "max": 5, "digits": 2, "size": 2, "regex": "a+", "expression": "${a}", "format": "HH"});
  let leaf = if r.bool() { list } else if r.bool() { gen } else { doc(r, 1) };
  let inner = if r.bool() { leaf.clone() } else { json!({ r.pick_s(&["$", "$.a", "$.a[0]", "$[*].b", "a", "$.a[", "$..", "$['a b']", ""]): leaf }) };
  if r.chance(1, 8) { doc(r, 2) } else { json!({ cat: inner }) }
}

pub fn hostile(r: &mut Rng) -> Text {
  match r.us(24) {
    0 | 1 => Text::null(),
    2 => Text::of(""),
    3 => { let n = 1 + r.us(6); let b: Vec<u8> = (0..n).map(|_| 1 + r.us(255) as u8).collect(); Text::bytes(&b) },
    4 => Text::bytes(b"\xff\xfe"),
    5 => Text::of(&r.pick_s(&["application/json", "text/plain", "application/xml", "application/x-www-form-urlencoded", "application/octet-stream", "image/gif",
      "multipart/form-data", "a", "a/", "/", "application/json;charset=utf-16", "text/plain; charset=\"", "application/*+json"])),
    6 => Text::of(&r.pick_s(&["GET", "post", "/a/b", "", "/", "?a=b", "a=b&c=d&e", "200", "abc", "70000", "-1", "a, b", "multipart/form-data; boundary=ABC"])),
    7 | 8 => Text::of(&rules(r).to_string()),
    9..=14 => Text::of(&doc(r, 3).to_string()),
    15 => { let s = doc(r, 2).to_string(); let mut n = r.us(s.len() + 1); while !s.is_char_boundary(n) { n -= 1 } Text::of(&s[..n]) },
    16 => Text::of(&r.pick_s(&["<a/>", "<a>b</a>", "<?xml version=\"1.0\"?><a b=\"c\"/>", "<a", "]]>"])),
    17 => Text::of(&"x".repeat(r.us(400))),
    18 => Text::of(&r.pick_s(&["matching(type, 'a')", "notEmpty('a')", "matching(", "eachValue(matching($'a'))", "matching(number, 1), matching(regex, '1', '1')",
      "matching(datetime, 'yyyy', '2000')", "fromProviderState('${a}', 1)", "matching(integer, fromProviderState('${a}', 1))"])),
    19 => Text::of(&r.pick_s(&["yyyy-MM-dd", "HH:mm:ss", "'a", "qqq", "\\d+", "[a-z]{3}", "(", "a{2,1}", "\\p{L}", "^(a|b)?$"])),
    _ => Text::of(&word(r))
  }
}
