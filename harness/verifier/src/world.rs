//! Pacts with a provider whose behaviour towards each interaction is decided beforehand.
use std::collections::HashMap;
use std::future::Future;
use moncore::*;
use serde_json::{json, Map, Value};
use pact_verifier::*;
use crate::stub::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind { Http, Async, Sync }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Fault { Status, HeaderGone, HeaderValue, BodyLeaf, BodyKeyGone, BodyText, BodyEmpty, MetaGone, MetaValue, ErrorStatus, Drop, Cut, Noise }
impl Fault {
  /// the sort of mismatch that has to be reported, None when it is an error instead
  pub fn named(&self) -> Option<&'static [&'static str]> {
    use Fault::*;
    Some(match self {
      Status => &["StatusMismatch"], HeaderGone | HeaderValue => &["HeaderMismatch"],
      BodyLeaf | BodyKeyGone => &["BodyMismatch"], BodyText | BodyEmpty => &["BodyMismatch", "BodyTypeMismatch"],
      MetaGone | MetaValue => &["MetadataMismatch"],
      ErrorStatus | Drop | Cut | Noise => return None
    })
  }
}

#[derive(Clone, Debug)]
pub struct Inter {
  pub n: usize, pub kind: Kind, pub desc: String, pub states: Vec<(String, Map<String, Value>)>, pub pending: bool, pub id: Option<String>,
  /// what makes the provider's answer wrong; empty when it is right
  pub faults: Vec<Fault>,
  pub json: Value, pub answer: Resp
}
impl Inter {
  pub fn good(&self) -> bool { self.faults.is_empty() }
}

pub fn leaf(r: &mut Rng) -> Value {
  match r.below(7) { 0 => json!(r.range(-100, 100)), 1 => json!(r.range(-99, 99) as f64 + 0.5), 2 => json!(r.bool()), 3 => Value::Null, _ => json!(r.string_from(&['a', 'b', 'c', 'é', ' ', '"', '%', '1'], 0, 6)) }
}
fn node(r: &mut Rng, depth: u32) -> Value {
  match r.below(if depth == 0 { 3 } else { 5 }) {
    3 => Value::Array((0..r.below(3)).map(|_| node(r, depth - 1)).collect()),
    4 => Value::Object((0..r.below(3)).map(|i| (format!("k{i}"), node(r, depth - 1))).collect()),
    _ => leaf(r)
  }
}
/// An object with at least two entries
pub fn body(r: &mut Rng) -> Value { Value::Object((0..r.range(2, 4)).map(|i| (format!("f{i}"), node(r, 2))).collect()) }
/// a leaf (or empty collection) somewhere changed to something of another value; the top level stays an object
fn change(r: &mut Rng, v: &mut Value) {
  match v {
    Value::Object(m) if !m.is_empty() => { let k = r.us(m.len()); change(r, m.values_mut().nth(k).unwrap()) }
    Value::Array(a) if !a.is_empty() => { let k = r.us(a.len()); change(r, &mut a[k]) }
    // an empty array or object asks for an empty one
    Value::Object(_) | Value::Array(_) => *v = json!("changed"),
    Value::String(s) => *v = if r.bool() { json!(format!("{s}x")) } else { json!(17) },
    Value::Number(n) => *v = if r.bool() { json!(n.as_f64().unwrap() + 1.0) } else { json!("7x") },
    Value::Bool(b) => *v = json!(!*b),
    Value::Null => *v = json!("not null")
  }
}
fn mutated(r: &mut Rng, v: &Value) -> Value { let mut c = v.clone(); change(r, &mut c); c }

/// `spec` 1..4; messages only from 3 on (kind is decided by the caller)
pub fn inter(r: &mut Rng, n: usize, spec: u32, kind: Kind, faulty: bool, states: Vec<(String, Map<String, Value>)>) -> Inter {
  use Fault::*;
  let word = r.string_from(&['a', 'b', 'c', ' ', '(', '.'], 0, 5);
  let desc = format!("{n} {word}");
  let want = body(r);
  // one text entry of the body may be matched by type
  let typed = if spec >= 2 && r.bool() { want.as_object().unwrap().iter().find(|(_, v)| v.is_string()).map(|(k, _)| k.clone()) } else { None };
  let mut have = want.clone();
  if let Some(k) = &typed { if r.bool() { have[k] = json!("any other text"); } }
  let mut faults: Vec<Fault> = vec![];
  if faulty {
    let choice: &[Fault] = match kind {
      Kind::Http => &[Status, HeaderGone, HeaderValue, BodyLeaf, BodyKeyGone, BodyText, BodyEmpty, Drop, Cut, Noise],
      Kind::Async => &[BodyLeaf, BodyKeyGone, MetaGone, MetaValue, BodyEmpty, ErrorStatus, Drop, Cut],
      Kind::Sync => &[BodyLeaf, BodyKeyGone, MetaGone, MetaValue, ErrorStatus, Drop, Cut]
    };
    faults.push(*r.pick(choice));
    if faults[0].named().is_some() && r.chance(1, 3) {
      let f = *r.pick(choice);
      let group = |f: &Fault| f.named().map(|n| n[0]);
      if f.named().is_some() && !faults.iter().any(|g| group(g) == group(&f)) { faults.push(f); }
    }
  }
  let is = |f: Fault| faults.contains(&f);
  let pending = spec == 4 && r.chance(1, 4);
  let mut rules = Map::new();
  if let Some(k) = &typed {
    if spec == 2 { rules.insert(format!("$.body.{k}"), json!({"match": "type"})); }
    else { rules.insert("body".into(), json!({format!("$.{k}"): {"matchers": [{"match": "type"}], "combine": "AND"}})); }
  }
  let mut out = if is(BodyLeaf) {
    let mut o = have.clone();
    let keys: Vec<String> = o.as_object().unwrap().keys().filter(|k| Some(*k) != typed.as_ref()).cloned().collect();
    let k = r.pick(&keys).clone();
    o[&k] = mutated(r, &want[&k]);
    o
  } else { have.clone() };
  if is(BodyKeyGone) { let o = out.as_object_mut().unwrap(); let k = r.us(o.len()); let k = o.keys().nth(k).unwrap().clone(); o.remove(&k); }
  else if r.chance(1, 4) { out.as_object_mut().unwrap().insert("extra".into(), json!([1, 2])); }
  let mut j = json!({"description": desc});
  match spec {
    1 | 2 => if let Some((s, _)) = states.first() { j["providerState"] = json!(s); },
    _ => if !states.is_empty() { j["providerStates"] = states.iter().map(|(s, p)| if p.is_empty() { json!({"name": s}) } else { json!({"name": s, "params": p}) }).collect(); }
  }
  let id = if r.bool() { Some(format!("id-{n}-{}", r.below(1000))) } else { None };
  if let Some(id) = &id { j["_id"] = json!(id); }
  if pending { j["pending"] = json!(true); }
  if spec == 4 && r.bool() { j["key"] = json!(format!("key-{n}")); }
  let answer;
  if kind == Kind::Http {
    let status = *r.pick(&[200u16, 201, 404, 500]);
    let mut heads = Map::new();
    let mut sent: Vec<(String, String)> = vec![("Content-Type".into(), "application/json".into())];
    let one = r.string_from(&['a', 'b', '1', '-'], 1, 5);
    heads.insert("X-One".into(), if spec == 4 { json!([one]) } else { json!(one) });
    if is(HeaderGone) {} else if is(HeaderValue) { sent.push(("x-one".into(), format!("{one}z"))); } else { sent.push((r.pick_s(&["X-One", "x-one", "X-ONE"]), one)); }
    if r.bool() { heads.insert("X-List".into(), if r.bool() { json!(["a", "b"]) } else { json!("a, b") });
      if r.bool() { sent.push(("X-List".into(), r.pick_s(&["a, b", "a,b"]))); } else { sent.push(("X-List".into(), "a".into())); sent.push(("x-list".into(), "b".into())); } }
    if r.bool() { sent.push(("X-More".into(), "unasked".into())); }
    let mut resp = json!({"status": status, "headers": heads});
    if spec == 4 { resp["body"] = json!({"contentType": "application/json", "encoded": false, "content": want}); }
    else { resp["headers"]["Content-Type"] = json!("application/json"); resp["body"] = want.clone(); }
    if !rules.is_empty() { resp["matchingRules"] = Value::Object(rules); }
    let mut req = json!({"method": r.pick_s(&["GET", "POST", "PUT", "DELETE", "get"]), "path": format!("/i{n}/x")});
    if r.bool() { req["headers"] = json!({"Accept": if spec == 4 { json!(["text/plain"]) } else { json!("text/plain") }}); }
    if spec == 4 { j["type"] = json!("Synchronous/HTTP"); }
    j["request"] = req; j["response"] = resp;
    let status = if is(Status) { let o: Vec<u16> = [200u16, 201, 202, 400, 404, 500, 503].into_iter().filter(|s| *s != status).collect(); *r.pick(&o) } else { status };
    let mut bytes = out.to_string().into_bytes();
    if is(BodyText) { bytes = b"plain text".to_vec(); sent[0].1 = "text/plain".into(); }
    if is(BodyEmpty) { bytes.clear(); }
    answer = if is(Drop) { Resp::Drop } else if is(Cut) { Resp::Cut { status, body: bytes } } else if is(Noise) { Resp::Noise } else { Resp::Send { status, headers: sent, body: bytes } };
  } else {
    let topic = r.string_from(&['t', 'o', '1', '-'], 1, 4);
    let meta = json!({"topic": topic, "contentType": "application/json"});
    let contents = if spec == 4 { json!({"contentType": "application/json", "encoded": false, "content": want}) } else { want.clone() };
    match (kind, spec) {
      (Kind::Async, 3) => { j["contents"] = contents; j["metaData"] = meta.clone(); if !rules.is_empty() { j["matchingRules"] = Value::Object(rules); } }
      (Kind::Async, _) => { j["type"] = json!("Asynchronous/Messages"); j["contents"] = contents; j["metadata"] = meta.clone(); if !rules.is_empty() { j["matchingRules"] = Value::Object(rules); } }
      _ => {
        j["type"] = json!("Synchronous/Messages");
        j["request"] = json!({"contents": {"contentType": "application/json", "encoded": false, "content": {"ask": n}}});
        let mut resp = json!({"contents": contents, "metadata": meta});
        if !rules.is_empty() { resp["matchingRules"] = Value::Object(rules); }
        j["response"] = json!([resp]);
      }
    }
    let mut m = meta.clone();
    if is(MetaGone) { m.as_object_mut().unwrap().remove("topic"); } else if is(MetaValue) { m["topic"] = json!(format!("{topic}z")); }
    if r.bool() { m["more"] = json!(1); }
    use base64::Engine;
    let mut sent = vec![("Content-Type".to_string(), "application/json".to_string())];
    sent.push((r.pick_s(&["Pact-Message-Metadata", "pact-message-metadata"]), base64::engine::general_purpose::STANDARD.encode(m.to_string())));
    let bytes = if is(BodyEmpty) { vec![] } else { out.to_string().into_bytes() };
    let status = if is(ErrorStatus) { *r.pick(&[400u16, 404, 500]) } else { 200 };
    answer = if is(Drop) { Resp::Drop } else if is(Cut) { Resp::Cut { status, body: bytes } } else { Resp::Send { status, headers: sent, body: bytes } };
  }
  Inter { n, kind, desc, states, pending, id, faults, json: j, answer }
}

pub fn pact(spec: u32, messages: bool, consumer: &str, provider: &str, list: &[&Inter]) -> Value {
  let ver = match spec { 1 => "1.0.0", 2 => "2.0.0", 3 => "3.0.0", _ => "4.0" };
  let mut p = json!({"consumer": {"name": consumer}, "provider": {"name": provider}, "metadata": {"pactSpecification": {"version": ver}}});
  p[if messages && spec == 3 { "messages" } else { "interactions" }] = list.iter().map(|i| i.json.clone()).collect();
  p
}

/// Which interaction a request to the provider is for
pub fn whose<'a>(all: &'a [Inter], q: &Req) -> Option<&'a Inter> {
  let p = q.path();
  if let Some(i) = p.find("/i") {
    if let Some(n) = p[i + 2..].split('/').next().and_then(|n| n.parse::<usize>().ok()) { return all.iter().find(|i| i.n == n && i.kind == Kind::Http) }
  }
  let d = q.json();
  all.iter().find(|i| i.kind != Kind::Http && d["description"] == i.desc.as_str())
}

#[allow(deprecated)]
pub fn provider(name: &str, port: u16) -> ProviderInfo {
  ProviderInfo { name: name.into(), host: "127.0.0.1".into(), port: Some(port), path: "/".into(), protocol: "http".into(), transports: vec![] }
}

pub fn options<F: callback_executors::RequestFilterExecutor>() -> VerificationOptions<F> {
  VerificationOptions { coloured_output: false, custom_headers: HashMap::new(), ..VerificationOptions::default() }
}

/// Runs with a clock that jumps over sleeps
pub fn block<T>(f: impl Future<Output = T>) -> T {
  tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(f)
}
