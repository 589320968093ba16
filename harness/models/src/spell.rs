//! The same pact spelled differently: a canonical document and a rewriting of it in forms the
//! specifications give as equivalent must load as the same pact.
use moncore::*;
use moncore::pred::{json_diff, short};
use pact_models::PactSpecification;
use pact_models::pact::load_pact_from_json;
use crate::gen::{self, Spec};
use crate::rt::{normal, plain_binary, spec_of};

const SINGLE: [&str; 9] = ["date", "accept-datetime", "if-modified-since", "if-unmodified-since", "expires", "retry-after", "last-modified", "set-cookie", "user-agent"];

struct Sp<'a> { r: &'a mut Rng, seen: Vec<&'static str> }

impl<'a> Sp<'a> {
  fn flip(&mut self) -> bool { self.r.chance(1, 2) }
  fn did(&mut self, w: &'static str) { if !self.seen.contains(&w) { self.seen.push(w) } }

  /// A rule in one of its other spellings
  fn rule(&mut self, v: &mut Value) {
    let o = match v.as_object_mut() { Some(o) => o, None => return };
    let kind = match o.get("match").and_then(|m| m.as_str()) { Some(s) => s.to_string(), None => return };
    for k in ["rules", "variants"] {
      if let Some(a) = o.get_mut(k).and_then(|a| a.as_array_mut()) {
        for x in a.iter_mut() {
          if x.get("match").is_some() { self.rule(x) } else {
            if let Some(r) = x.get_mut("rules") { self.rule_map(r) }
            if x.get("index") == Some(&json!(0)) && self.flip() { x.as_object_mut().unwrap().remove("index"); self.did("variant without index") }
          }
        }
      }
    }
    if self.flip() { return }
    let ren = |o: &mut Map<String, Value>, n: &str| { o.insert("match".into(), json!(n)); };
    match kind.as_str() {
      "regex" => { if self.flip() { o.remove("match"); self.did("rule without its type"); } }
      "type" => {
        let (min, max) = (o.get("min").cloned(), o.get("max").cloned());
        match (min, max) {
          (Some(_), Some(_)) => { ren(o, "min-max-type"); self.did("rule type alias") }
          (Some(_), None) => match self.r.below(3) { 0 => { ren(o, "min-type"); self.did("rule type alias") } 1 => { ren(o, "min"); self.did("rule type alias") } _ => { o.remove("match"); self.did("rule without its type") } },
          (None, Some(_)) => match self.r.below(3) { 0 => { ren(o, "max-type"); self.did("rule type alias") } 1 => { ren(o, "max"); self.did("rule type alias") } _ => { o.remove("match"); self.did("rule without its type") } },
          _ => ()
        }
      }
      "datetime" | "date" | "time" => {
        let f = o.remove("format").unwrap();
        let k = if kind == "datetime" { "timestamp" } else { kind.as_str() };
        match self.r.below(3) {
          0 => { o.insert(kind.clone(), f); }
          1 => { ren(o, k); o.insert(if self.r.bool() { "format" } else { k }.into(), f); }
          _ => { o.remove("match"); o.insert(k.into(), f); self.did("rule without its type") }
        }
        self.did("date rule forms");
      }
      "decimal" => { ren(o, "real"); self.did("rule type alias") }
      "contentType" => { ren(o, "content-type"); self.did("rule type alias") }
      "notEmpty" => { ren(o, "not-empty"); self.did("rule type alias") }
      "statusCode" => { ren(o, "status-code"); self.did("rule type alias") }
      "arrayContains" => { ren(o, "array-contains"); self.did("rule type alias") }
      "eachKey" => { ren(o, "each-key"); self.did("rule type alias") }
      "eachValue" => { ren(o, "each-value"); self.did("rule type alias") }
      _ => ()
    }
    if o.contains_key("match") && self.r.chance(1, 4) { let m = o.remove("match").unwrap(); o.insert("pact:matcher:type".into(), m); self.did("integration matcher type") }
  }

  fn rule_list(&mut self, v: &mut Value) {
    if let Some(a) = v.get_mut("matchers").and_then(|a| a.as_array_mut()) { for x in a { self.rule(x) } }
    if let Some(c) = v.get("combine").and_then(|c| c.as_str()).map(|s| s.to_string()) {
      if c == "AND" && self.flip() { v.as_object_mut().unwrap().remove("combine"); self.did("default combination") }
      else if self.flip() { v["combine"] = json!(c.to_lowercase()); self.did("combination in lower case") }
    }
  }
  fn rule_map(&mut self, v: &mut Value) { if let Some(o) = v.as_object_mut() { for (_, l) in o.iter_mut() { self.rule_list(l) } } }

  fn rules(&mut self, part: &mut Value, v2: bool, alias: Option<&str>) {
    let Some(m) = part.get_mut("matchingRules").and_then(|m| m.as_object_mut()) else { return };
    if v2 {
      for (_, x) in m.iter_mut() { self.rule(x) }
      let keys: Vec<String> = m.keys().filter(|k| k.starts_with("$.headers")).cloned().collect();
      for k in keys { if self.flip() { let x = m.remove(&k).unwrap(); m.insert(k.replace("$.headers", "$.header"), x); self.did("$.header rules") } }
    } else {
      for (cat, v) in m.iter_mut() {
        if matches!(cat.as_str(), "path" | "method" | "status") {
          self.rule_list(v);
          if cat == "path" && self.r.chance(1, 4) { *v = json!({"": v.clone()}); self.did("rules under the empty name") }
        } else { self.rule_map(v) }
      }
    }
    if let (Some(n), true) = (alias, self.flip()) {
      let o = part.as_object_mut().unwrap();
      let m = o.remove("matchingRules").unwrap();
      o.insert(n.into(), m);
      self.did("rules under the old name");
    }
  }

  /// Make the canonical part use the default and leave it out of the other one
  fn default(&mut self, a: &mut Value, b: &mut Value, key: &str, v: Value, what: &'static str) {
    if self.r.chance(1, 4) { a[key] = v; b.as_object_mut().unwrap().remove(key); self.did(what) }
  }

  fn generators(&mut self, a: &mut Value, b: &mut Value) {
    fn walk(s: &mut Sp, a: &mut Value, b: &mut Value) {
      match a.get("type").and_then(|t| t.as_str()).map(|t| t.to_string()).as_deref() {
        Some("RandomInt") => { s.default(a, b, "min", json!(0), "generator defaults"); if a["min"].as_i64() <= Some(10) { s.default(a, b, "max", json!(10), "generator defaults") } }
        Some("RandomDecimal") | Some("RandomHexadecimal") => s.default(a, b, "digits", json!(10), "generator defaults"),
        Some("RandomString") => s.default(a, b, "size", json!(10), "generator defaults"),
        Some(_) => (),
        None => if let (Some(x), Some(y)) = (a.as_object_mut(), b.as_object_mut()) { for (k, v) in x.iter_mut() { walk(s, v, y.get_mut(k).unwrap()) } }
      }
    }
    if let (Some(x), Some(y)) = (a.get_mut("generators"), b.get_mut("generators")) { walk(self, x, y) }
  }

  fn query(&mut self, p: &mut Value) {
    let Some(q) = p.get_mut("query") else { return };
    let Some(o) = q.as_object_mut() else { return };
    let ascii = o.iter().all(|(k, v)| k.is_ascii() && v.to_string().is_ascii());
    if ascii && !o.is_empty() && self.r.chance(1, 3) {
      let enc = |s: &str| s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{:02X}", b) }).collect::<String>();
      let s = o.iter().flat_map(|(k, vs)| vs.as_array().unwrap().iter().map(|v| match v.as_str() { None => enc(k), Some(v) => format!("{}={}", enc(k), enc(v)) }).collect::<Vec<_>>()).collect::<Vec<_>>().join("&");
      *q = json!(s);
      self.did("query as a string");
      return
    }
    for (_, v) in o.iter_mut() {
      if v.as_array().map(|a| a.len() == 1 && a[0].is_string()).unwrap_or(false) && self.flip() { *v = v[0].clone(); self.did("query parameter as a string") }
    }
  }

  fn headers(&mut self, p: &mut Value) {
    let Some(o) = p.get_mut("headers").and_then(|h| h.as_object_mut()) else { return };
    for (k, v) in o.iter_mut() {
      if self.flip() { continue }
      let single = SINGLE.contains(&k.to_lowercase().as_str());
      match v {
        Value::String(s) => {
          *v = if single { json!([s.trim()]) } else { Value::Array(s.split(',').map(|x| json!(x.trim())).collect()) };
          self.did("header as a list")
        }
        Value::Array(a) => {
          let vs: Vec<String> = a.iter().map(|x| x.as_str().unwrap().to_string()).collect();
          if vs.iter().all(|s| s.trim() == s && (single || !s.contains(','))) && (vs.len() == 1 || !single) {
            *v = json!(vs.join(&self.r.pick_s(&[",", ", "])));
            self.did("header as a string")
          }
        }
        _ => ()
      }
    }
  }

  fn body_v4(&mut self, p: &mut Value, key: &str) {
    let ct_header = p.get("headers").and_then(|h| h.as_object()).and_then(|h| h.iter().find(|(k, _)| k.eq_ignore_ascii_case("content-type"))).and_then(|(_, v)| v[0].as_str()).map(|s| s.to_string());
    let Some(b) = p.get_mut(key).and_then(|b| b.as_object_mut()) else { return };
    if b.get("content").map(|c| c == "" || c.is_null()).unwrap_or(true) { return }
    if ct_header.is_some() && b.get("contentType").and_then(|c| c.as_str()) == ct_header.as_deref() && self.flip() { b.remove("contentType"); self.did("content type from the header") }
    let encoded = b.get("encoded") == Some(&json!("base64"));
    if encoded { if self.flip() { b.insert("encoded".into(), json!(self.r.pick_s(&["Base64", "BASE64"]))); self.did("encoding in another case") } }
    else {
      let ct = b.get("contentType").and_then(|c| c.as_str()).map(|s| s.to_string()).or(ct_header).unwrap_or_default();
      let json_ct = gen::JSON_CT.contains(&ct.as_str());
      match self.r.below(5) {
        0 => { b.remove("encoded"); self.did("no encoding stated") }
        1 => { let t = b["content"].as_str().filter(|_| !json_ct).map(|s| s.to_string()).unwrap_or_else(|| b["content"].to_string());
          b.insert("content".into(), json!(b64(t.as_bytes()))); b.insert("encoded".into(), json!("base64")); self.did("body as base64") }
        2 if json_ct => { let t = b["content"].to_string(); b.insert("content".into(), json!(t)); b.insert("encoded".into(), json!(self.r.pick_s(&["JSON", "json"]))); self.did("body as JSON text") }
        _ => ()
      }
    }
  }

  fn unknown(&mut self, v: &mut Value) {
    if self.r.chance(1, 6) { if let Some(o) = v.as_object_mut() { o.insert(self.r.pick_s(&["x-unknown", "_links", "createdAt", "X"]), json!({"href": "x", "n": [1, {"match": "type"}]})); self.did("attributes of others") } }
  }

  fn states(&mut self, i: &mut Value, old: bool) {
    if old {
      if let Some(s) = i.get("providerState").cloned() {
        let o = i.as_object_mut().unwrap();
        match self.r.below(3) {
          0 => { o.remove("providerState"); o.insert("provider_state".into(), s); self.did("provider_state") }
          1 => { o.remove("providerState"); o.insert("providerStates".into(), json!([{"name": s}])); self.did("state as a list") }
          _ => ()
        }
      } else if self.flip() { i[self.r.pick_s(&["providerState", "provider_state"])] = self.r.pick(&[json!(null), json!("")]).clone(); self.did("empty state") }
      return
    }
    let one = i.get("providerStates").and_then(|a| a.as_array()).filter(|a| a.len() == 1 && a[0].get("params").and_then(|p| p.as_object()).map(|p| p.is_empty()).unwrap_or(true)).map(|a| a[0]["name"].clone());
    if let (Some(n), true) = (one, self.flip()) {
      let o = i.as_object_mut().unwrap();
      o.remove("providerStates"); o.insert(self.r.pick_s(&["providerState", "provider_state"]), n); self.did("one state as a string");
    } else if let Some(a) = i.get_mut("providerStates").and_then(|a| a.as_array_mut()) {
      for s in a { if s.get("params").is_none() && self.flip() { s["params"] = json!({}); self.did("empty parameters") } }
    }
  }

  fn request(&mut self, a: &mut Value, b: &mut Value, v4: bool, v2: bool) {
    let alias = if v4 { None } else { Some("requestMatchingRules") };
    self.default(a, b, "method", json!("GET"), "default method");
    self.default(a, b, "path", json!("/"), "default path");
    if let Some(m) = b.get("method").and_then(|m| m.as_str()).map(|m| m.to_lowercase()) { if self.flip() { b["method"] = json!(m); self.did("method in lower case") } }
    self.generators(a, b);
    self.query(b);
    if v4 { self.body_v4(b, "body") }
    self.headers(b);
    self.rules(b, v2, alias);
    self.unknown(b);
  }
  fn response(&mut self, a: &mut Value, b: &mut Value, v4: bool, v2: bool) {
    let alias = if v4 { None } else { Some("responseMatchingRules") };
    self.default(a, b, "status", json!(200), "default status");
    self.generators(a, b);
    if v4 { self.body_v4(b, "body") }
    self.headers(b);
    self.rules(b, v2, alias);
    self.unknown(b);
  }

  fn top(&mut self, a: &mut Value, b: &mut Value) {
    if self.r.chance(1, 6) { a["consumer"] = json!({"name": "consumer"}); b["consumer"] = json!({}); self.did("unnamed participants") }
    if self.r.chance(1, 6) { a["provider"] = json!({"name": "provider"}); b["provider"] = json!({}); self.did("unnamed participants") }
    self.unknown(b);
    let v = b["metadata"]["pactSpecification"]["version"].as_str().unwrap().to_string();
    if self.flip() {
      let v = match v.as_str() { "4.0" => self.r.pick_s(&["4", "4.0.0"]), "3.0.0" => self.r.pick_s(&["3", "3.0"]), "2.0.0" => self.r.pick_s(&["2", "2.0"]), "1.1.0" => "1.1".into(), v => v.to_string() };
      b["metadata"]["pactSpecification"]["version"] = json!(v);
      self.did("short version");
    }
    if !v.starts_with('4') && self.r.chance(1, 4) {
      let m = b["metadata"].as_object_mut().unwrap();
      let s = m.remove("pactSpecification").unwrap();
      m.insert("pact-specification".into(), s);
      self.did("pact-specification");
    }
  }
}

fn load_write(what: &str, d: &Value, s: PactSpecification) -> Result<Value, Violation> {
  let p = match load_pact_from_json("gen", d) { Ok(p) => p, Err(e) => return violated("load-error", format!("{} spelling: {}", what, e)) };
  ensure!(p.specification_version() == s, "spec-version", "{} spelling: {:?} loaded as {:?}", what, s, p.specification_version());
  match p.to_json(s) { Ok(j) => Ok(j), Err(e) => violated("write-error", format!("{} spelling: {}", what, e)) }
}

fn compare(cx: &mut Cx, a: &Value, b: &Value, s: PactSpecification, seen: Vec<&'static str>) -> Verdict {
  cx.note(format!("canonical: {}", a));
  cx.note(format!("other spelling: {}", b));
  let v4 = s == PactSpecification::V4;
  let norm = |v: Value| { let v = normal(&v, v4); if v4 { v } else { plain_binary(v) } };
  let x = norm(load_write("canonical", a, s)?);
  let y = norm(load_write("other", b, s)?);
  if let Some(d) = json_diff("$", &x, &y) { return violated("spelling-changes-pact", format!("{:?}: {} (spellings used: {:?}; written {} and {})", s, d, seen, short(&x), short(&y))) }
  for t in seen { cx.tick(t) }
  cx.saw(b.to_string());
  cx.sample(|| json!({"canonical": a, "spelled": b}));
  Ok(())
}

fn v4_case(cx: &mut Cx) -> Verdict {
  let mut a = gen::pact_v4(&mut cx.rng).doc;
  let mut b = a.clone();
  let mut s = Sp { r: &mut cx.rng, seen: vec![] };
  s.top(&mut a, &mut b);
  for (x, y) in a["interactions"].as_array_mut().unwrap().iter_mut().zip(b["interactions"].as_array_mut().unwrap()) {
    match x["type"].as_str().unwrap() {
      "Synchronous/HTTP" => {
        let (mut q, mut p) = (y["request"].take(), y["response"].take());
        s.request(&mut x["request"], &mut q, true, false);
        s.response(&mut x["response"], &mut p, true, false);
        y["request"] = q; y["response"] = p;
      }
      "Asynchronous/Messages" => { s.generators(x, y); s.body_v4(y, "contents"); s.rules(y, false, None); }
      _ => {
        let mut q = y["request"].take();
        s.generators(&mut x["request"], &mut q); s.body_v4(&mut q, "contents"); s.rules(&mut q, false, None);
        y["request"] = q;
        for (m, n) in x["response"].as_array_mut().unwrap().iter_mut().zip(y["response"].as_array_mut().unwrap()) { s.generators(m, n); s.body_v4(n, "contents"); s.rules(n, false, None); s.unknown(n) }
      }
    }
    s.states(y, false);
    s.unknown(y);
    if y.get("pending") == Some(&json!(false)) && s.flip() { y.as_object_mut().unwrap().remove("pending"); s.did("not pending unless stated") }
  }
  let seen = s.seen;
  compare(cx, &a, &b, PactSpecification::V4, seen)
}

fn old_case(cx: &mut Cx) -> Verdict {
  let spec = *cx.rng.pick(&gen::SPECS);
  let mut a = gen::pact_v123(&mut cx.rng, spec).doc;
  let mut b = a.clone();
  let mut s = Sp { r: &mut cx.rng, seen: vec![] };
  s.top(&mut a, &mut b);
  let v2 = spec != Spec::V3;
  for (x, y) in a["interactions"].as_array_mut().unwrap().iter_mut().zip(b["interactions"].as_array_mut().unwrap()) {
    let (mut q, mut p) = (y["request"].take(), y["response"].take());
    s.request(&mut x["request"], &mut q, false, v2);
    s.response(&mut x["response"], &mut p, false, v2);
    y["request"] = q; y["response"] = p;
    s.states(y, v2);
    s.unknown(y);
  }
  let seen = s.seen;
  compare(cx, &a, &b, spec_of(spec), seen)
}

fn message_case(cx: &mut Cx) -> Verdict {
  let mut a = gen::message_pact_v3(&mut cx.rng).doc;
  let mut b = a.clone();
  let mut s = Sp { r: &mut cx.rng, seen: vec![] };
  s.top(&mut a, &mut b);
  for (x, y) in a["messages"].as_array_mut().unwrap().iter_mut().zip(b["messages"].as_array_mut().unwrap()) {
    s.generators(x, y);
    s.rules(y, false, None);
    s.states(y, false);
    s.unknown(y);
    if s.flip() { let o = y.as_object_mut().unwrap(); let m = o.remove("metadata").unwrap(); o.insert("metaData".into(), m); s.did("metaData") }
  }
  let seen = s.seen;
  compare(cx, &a, &b, PactSpecification::V3, seen)
}

pub fn prop() -> Property {
  Property {
    id: "P26", level: "exploration",
    rule: "Seeded pacts of every version, each with a rewriting in other spellings (defaults left out, older names, lists as strings, other encodings, aliases of rules, attributes of others). Non-trivial: each distinct rewritten document loaded and its pact written the same as the canonical one's.",
    assumptions: vec!["The canonical spellings themselves are judged by the round trip properties."],
    phases: vec![phase("v4", 16000, v4_case), phase("http", 16000, old_case), phase("message", 6000, message_case)],
    floors: vec![("default method", 200), ("default path", 200), ("default status", 200), ("method in lower case", 200), ("rules under the old name", 200), ("header as a list", 200), ("header as a string", 200),
      ("query as a string", 100), ("query parameter as a string", 200), ("provider_state", 100), ("one state as a string", 100), ("metaData", 100), ("rule type alias", 500), ("date rule forms", 200), ("rule without its type", 200),
      ("body as base64", 200), ("body as JSON text", 100), ("content type from the header", 50), ("generator defaults", 200), ("pact-specification", 100), ("attributes of others", 300), ("unnamed participants", 100)],
    probes: vec![]
  }
}
