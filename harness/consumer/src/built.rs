//! P53: the pact of a consumer test says what the test said.
use std::collections::BTreeMap;
use std::path::Path;
use moncore::*;
use pact_consumer::builders::*;
use pact_consumer::prelude::*;
use pact_models::path_exp::DocPath;
use pact_models::bodies::OptionalBody;
use pact_models::generators::{Generator, GeneratorCategory};
use pact_models::matchingrules::{MatchingRule, RuleLogic};
use pact_models::pact::Pact;
use pact_models::v4::message_parts::MessageContents;
use serde_json::{json, Value};
use crate::dsl::*;

/// What one side should come out as.
#[derive(Clone, Debug, Default)]
pub struct Side { headers: BTreeMap<String, Vec<String>>, metadata: BTreeMap<String, Value>, body: Option<Body>, ct: Option<String>, rules: BTreeMap<String, Rules>, gens: BTreeMap<String, BTreeMap<String, Value>> }
#[derive(Clone, Debug, PartialEq)]
pub enum Body { Doc(Value), Text(String) }

#[derive(Clone, Debug, Default)]
pub struct Want {
  pub description: String, states: Vec<(String, BTreeMap<String, Value>)>, key: Option<String>, pending: bool, notes: Vec<String>, test: Option<String>, transport: Option<String>,
  method: String, path: String, query: BTreeMap<String, Vec<String>>, status: u16, pub sides: Vec<Side>
}

fn rule(side: &mut Side, cat: &str, key: &str, rule: Option<Value>) {
  if let Some(v) = rule { let l = side.rules.entry(cat.into()).or_default().entry(key.into()).or_default(); if !l.contains(&v) { l.push(v); } }
}

fn part<B: HttpPartBuilder>(r: &mut Rng, b: &mut B, side: &mut Side, v4: bool) {
  for n in ["X-One", "X-Two", "Accept", "X-List"] {
    if !r.chance(1, 3) { continue }
    let times = 1 + r.us(2);
    for k in 0..times {
      let other = if k == 0 { n.to_string() } else if r.bool() { n.to_uppercase() } else { n.to_lowercase() };
      let (p, ex, ru) = text(r, &["1", "a b", "\"q\"", "*/*", "a, b"], times == 1);
      if r.chance(1, 5) {
        b.header_from_provider_state(other.clone(), "${value}", p);
        side.gens.entry("header".into()).or_default().insert(other.clone(), json!({"type": "ProviderState", "expression": "${value}", "dataType": "STRING"}));
      } else { b.header(other.clone(), p); }
      side.headers.entry(n.to_lowercase()).or_default().extend(ex.split(',').map(|v| v.trim().to_string()));
      rule(side, "header", &other, ru);
    }
  }
  let json_type = "application/json; charset=utf-8";
  let mut set = |side: &mut Side, b: &mut B, ct: &str| { b.content_type(ct); side.headers.insert("content-type".into(), vec![ct.to_string()]); };
  match r.us(8) {
    0 => { set(side, b, "text/plain"); b.body("some text"); side.body = Some(Body::Text("some text".into())); },
    1 => { let ct = *r.pick(&["text/csv", "text/x-thing", "text/plain"]); if r.bool() { set(side, b, ct); } b.body2("a,b\n1,2\n", ct); side.ct = Some(ct.into()); side.body = Some(Body::Text("a,b\n1,2\n".into())); },
    2 => { set(side, b, "text/plain"); let (p, ex, ru) = text(r, &["some text", "é"], true); b.body_matching(p); side.body = Some(Body::Text(ex)); rule(side, "body", "$", ru); },
    3 => { if r.bool() { set(side, b, "text/x-log"); } side.ct = Some("text/x-log".into()); let (p, ex, ru) = text(r, &["some text", "é"], true); b.body_matching2(p, "text/x-log"); side.body = Some(Body::Text(ex)); rule(side, "body", "$", ru); },
    4 => (),
    n => {
      if n == 5 { b.json_utf8(); side.headers.insert("content-type".into(), vec![json_type.to_string()]); rule(side, "header", "content-type", Some(json!({"match": "regex", "regex": "^application/json; charset=(utf|UTF)-8$"}))); }
      let mut m = pattern(r, &DocPath::root(), 3);
      while m.plain.is_null() || (!v4 && !m.plain.is_object() && !m.plain.is_array()) { m = pattern(r, &DocPath::root(), 3); }
      b.json_body(m.pat);
      side.ct = Some("application/json".into());
      side.body = Some(Body::Doc(m.plain));
      for (k, l) in m.rules { for v in l { rule(side, "body", &k, Some(v)); } }
    }
  }
}

macro_rules! about { ($r:ident, $i:ident, $w:ident, $v4:expr) => {
  for _ in 0..$r.us(3) {
    let n = $r.pick_s(&["a user exists", "b", "é"]);
    if $r.bool() { $i.given(n.clone()); $w.states.push((n, BTreeMap::new())); }
    else {
      let v = json!({"id": $r.range(0, 9), "a": {"b": [null, 1.5]}, "none": null});
      $i.given_with_params(n.clone(), &v); $w.states.push((n, v.as_object().unwrap().clone().into_iter().collect()));
    }
  }
  if $v4 {
    if $r.chance(1, 4) { let k = $r.pick_s(&["k1", "key two"]); $i.with_key(k.clone()); $w.key = Some(k); }
    if $r.chance(1, 3) { let b = $r.bool(); $i.pending(!b); $i.pending(b); $w.pending = b; }
    for _ in 0..$r.us(3) { let n = $r.pick_s(&["a note", "", "é\n2"]); $i.comment(n.clone()); $w.notes.push(n); }
    if $r.chance(1, 3) { let n = $r.pick_s(&["tests::one", "two"]); $i.test_name(n.clone()); $w.test = Some(n); }
  }
} }

fn http(r: &mut Rng, mut i: InteractionBuilder, w: &mut Want, v4: bool) -> InteractionBuilder {
  w.sides = vec![Side::default(), Side::default()];
  w.method = "GET".into(); w.path = "/".into(); w.status = 200;
  {
    about!(r, i, w, v4);
    if v4 && r.chance(1, 4) { i.transport("http"); w.transport = Some("http".into()); }
    let mut order = vec![0, 1, 2, 3, 4];
    r.shuffle(&mut order);
    for what in order {
      match what {
        0 => match r.us(6) {
          0 => { i.request.post(); w.method = "POST".into(); }, 1 => { i.request.put(); w.method = "PUT".into(); }, 2 => { i.request.delete(); w.method = "DELETE".into(); },
          3 => { i.request.method("PATCH"); w.method = "PATCH".into(); }, 4 => { i.request.get(); }, _ => ()
        },
        1 => if r.chance(4, 5) {
          let (p, ex, ru) = if r.bool() { text(r, &["/", "/a/b c", "/users/100", "/é"], false) } else { let (re, ex) = TEXTS[3]; (pact_consumer::patterns::Term::new(pact_consumer::patterns::build_regex(re), ex).into(), ex.to_string(), Some(json!({"match": "regex", "regex": re}))) };
          if r.chance(1, 4) { i.request.path_from_provider_state("/users/${id}", p); w.sides[0].gens.entry("path".into()).or_default().insert("".into(), json!({"type": "ProviderState", "expression": "/users/${id}", "dataType": "STRING"})); }
          else { i.request.path(p); }
          w.path = ex;
          rule(&mut w.sides[0], "path", "", ru);
        },
        2 => for n in ["q", "id", "a b", "x[]", "name", "f.x"] {
          if !r.chance(1, 4) { continue }
          let times = 1 + r.us(3);
          for _ in 0..times {
            let (p, ex, ru) = text(r, &["1", "a", "", "x y", "é", "a&b", "[1]"], times == 1);
            i.request.query_param(n, p);
            w.query.entry(n.into()).or_default().push(ex);
            rule(&mut w.sides[0], "query", n, ru);
          }
        },
        3 => part(r, &mut i.request, &mut w.sides[0], v4),
        _ => {
          part(r, &mut i.response, &mut w.sides[1], v4);
          match r.us(8) { 0 => { i.response.created(); w.status = 201; }, 1 => { i.response.no_content(); w.status = 204; }, 2 => { i.response.unauthorized(); w.status = 401; }, 3 => { i.response.forbidden(); w.status = 403; },
            4 => { i.response.not_found(); w.status = 404; }, 5 => { i.response.ok(); }, 6 => { let s = r.range(100, 599) as u16; i.response.status(s); w.status = s; }, _ => () }
        }
      }
    }
    i
  }
}

/// Contents made elsewhere, with rules and a generator of their own
fn whole(r: &mut Rng, side: &mut Side) -> MessageContents {
  let n = r.range(300, 900);
  let mut c = MessageContents { contents: OptionalBody::Present(json!({"id": n, "name": "x"}).to_string().into(), Some("application/json".into()), None), ..Default::default() };
  side.body = Some(Body::Doc(json!({"id": n, "name": "x"})));
  let tagged = r.bool();
  if tagged { let (k, v) = tag(r); c.metadata.insert(k.clone(), v.clone()); side.metadata.insert(k, v); }
  if r.bool() { c.matching_rules.add_category("body").add_rule(field("name"), MatchingRule::Type, RuleLogic::And); rule(side, "body", "$.name", Some(json!({"match": "type"}))); }
  if tagged && r.bool() {
    let k = c.metadata.keys().next().unwrap().clone();
    let at = DocPath::root().join(k.as_str());
    c.matching_rules.add_category("metadata").add_rule(at.clone(), MatchingRule::NotEmpty, RuleLogic::And);
    rule(side, "metadata", &at.to_string(), Some(json!({"match": "notEmpty"})));
  }
  if r.bool() {
    let max = r.range(100, 200) as i32;
    c.generators.add_generator_with_subcategory(&GeneratorCategory::BODY, field("id"), Generator::RandomInt(1, max));
    side.gens.entry("body".into()).or_default().insert("$.id".into(), json!({"type": "RandomInt", "min": 1, "max": max}));
  }
  c
}
fn field(n: &str) -> DocPath { DocPath::root().join(n) }

/// Whether the body handed out is the one of the side, with its generator applied.
pub fn generated(what: &str, side: &Side, body: Option<&[u8]>) -> Verdict {
  let max = side.gens.get("body").and_then(|g| g.get("$.id")).and_then(|g| g["max"].as_i64());
  match (&side.body, body) {
    (None, None) => (),
    (Some(Body::Text(t)), Some(b)) => ensure!(t.as_bytes() == b, "handed-out", "{}: {:?} was handed out, given was {:?}", what, String::from_utf8_lossy(b), t),
    (Some(Body::Doc(v)), Some(b)) => {
      let mut got: Value = serde_json::from_slice(b).unwrap_or_default();
      let mut v = v.clone();
      if let Some(max) = max {
        let id = got["id"].as_i64();
        ensure!(id.map(|id| id >= 1 && id <= max).unwrap_or(false), "not-generated", "{}: {} was handed out, the id is to be one to {}", what, got, max);
        got["id"] = Value::Null; v["id"] = Value::Null;
      }
      ensure!(got == v, "handed-out", "{}: {} was handed out, given was {}", what, got, v);
    },
    (w, g) => return violated("handed-out", format!("{}: {:?} was handed out, given was {:?}", what, g.map(String::from_utf8_lossy), w))
  }
  Ok(())
}

fn contents(r: &mut Rng, side: &mut Side) -> (Option<JsonPattern>, String, Option<String>) {
  if r.chance(2, 3) {
    let mut m = pattern(r, &DocPath::root(), 3);
    while !m.plain.is_object() && !m.plain.is_array() { m = pattern(r, &DocPath::root(), 3); }
    side.body = Some(Body::Doc(m.plain));
    side.ct = Some("application/json".into());
    for (k, l) in m.rules { for v in l { rule(side, "body", &k, Some(v)); } }
    (Some(m.pat), String::new(), None)
  } else {
    let (ct, b) = r.pick(&[(Some("text/plain"), "some text"), (Some("text/csv"), "a,b\n1,2\n"), (Some("text/x-thing"), "thing"), (None, "words and words")]).clone();
    side.body = Some(Body::Text(b.into()));
    side.ct = ct.map(|s| s.to_string());
    if let Some(ct) = ct { side.metadata.entry("contentType".into()).or_insert(json!(ct)); }
    (None, b.into(), ct.map(|s| s.to_string()))
  }
}
fn tag(r: &mut Rng) -> (String, Value) { (r.pick_s(&["queue", "topic", "é"]), r.pick(&[json!("text"), json!(1), json!(true), json!({"a": [1]})]).clone()) }

fn message(r: &mut Rng, mut i: MessageInteractionBuilder, w: &mut Want, v4: bool) -> MessageInteractionBuilder {
  w.sides = vec![Side::default()];
  {
    about!(r, i, w, v4);
    let first = r.bool();
    for _ in 0..r.us(3) { if first { let (k, v) = tag(r); i.metadata(k.clone(), v.clone()); w.sides[0].metadata.insert(k, v); } }
    if r.chance(4, 5) {
      match contents(r, &mut w.sides[0]) { (Some(p), ..) => { i.json_body(p); }, (_, b, ct) => { i.body(b, ct); } }
    }
    for _ in 0..r.us(3) { if !first { let (k, v) = tag(r); i.metadata(k.clone(), v.clone()); w.sides[0].metadata.insert(k, v); } }
    if r.chance(1, 4) {
      let at = field("topic");
      let mut c = pact_models::matchingrules::MatchingRuleCategory::empty("metadata");
      c.add_rule(at.clone(), MatchingRule::NotEmpty, RuleLogic::And);
      i.message_contents.metadata_rules = Some(c);
      rule(&mut w.sides[0], "metadata", &at.to_string(), Some(json!({"match": "notEmpty"})));
    }
    if r.chance(1, 3) {
      let n = r.range(300, 900);
      i.json_body(JsonPattern::from(json!({"id": n, "name": "x"})));
      let side = &mut w.sides[0];
      side.rules.remove("body"); side.ct = Some("application/json".into());
      side.body = Some(Body::Doc(json!({"id": n, "name": "x"})));
      i.message_contents.rules = None;
      let max = r.range(100, 200) as i32;
      let mut g = pact_models::generators::Generators::default();
      g.add_generator_with_subcategory(&GeneratorCategory::BODY, field("id"), Generator::RandomInt(1, max));
      i.message_contents.generators = Some(g);
      side.gens.entry("body".into()).or_default().insert("$.id".into(), json!({"type": "RandomInt", "min": 1, "max": max}));
    }
    i
  }
}

fn sync(r: &mut Rng, mut i: SyncMessageInteractionBuilder, w: &mut Want) -> SyncMessageInteractionBuilder {
  w.sides = vec![Side::default()];
  {
    about!(r, i, w, true);
    for _ in 0..r.us(3) { let (k, v) = tag(r); i.request_metadata(k.clone(), v.clone()); w.sides[0].metadata.insert(k, v); }
    if r.chance(1, 3) { let c = whole(r, &mut w.sides[0]); i.request_contents(&c); }
    else if r.chance(4, 5) { match contents(r, &mut w.sides[0]) { (Some(p), ..) => { i.request_json_body(p); }, (_, b, ct) => { i.request_body(b, ct); } } }
    for _ in 0..r.us(4) {
      let mut side = Side::default();
      if r.chance(1, 3) { let c = whole(r, &mut side); i.response_contents(&c); }
      else { match contents(r, &mut side) { (Some(p), ..) => { i.response_json_body(p); }, (_, b, ct) => { i.response_body(b, ct); } } }
      w.sides.push(side);
    }
    i
  }
}

/// What the test has said, and the builder that heard it.
pub fn build(r: &mut Rng, kind: usize, consumer: &str, dir: Option<&Path>) -> (PactBuilder, Vec<(usize, Want)>) {
  let mut p = match kind { 0 => PactBuilder::new(consumer, "provider"), 1 => PactBuilder::new_v3_message(consumer, "provider"), _ => PactBuilder::new_v4(consumer, "provider") };
  if let Some(d) = dir { p.with_output_dir(d); }
  let mut wants = vec![];
  for n in 0..1 + r.us(4) {
    let mut w = Want { description: format!("interaction {}", n), ..Default::default() };
    let k = match kind { 0 => 0, 1 => 1, _ => r.us(3) };
    let (d, v4) = (w.description.clone(), kind == 2);
    match k {
      0 => { p.interaction(d, String::new(), |i| http(r, i, &mut w, v4)); },
      1 => { p.message_interaction(d, |i| message(r, i, &mut w, v4)); },
      _ => { p.synchronous_message_interaction(d, |i| sync(r, i, &mut w)); }
    }
    wants.push((k, w));
  }
  (p, wants)
}

/// The same for a test with a runtime, some of the interactions made beforehand
pub async fn build_async(r: &mut Rng, kind: usize, consumer: &str, dir: Option<&Path>) -> (PactBuilderAsync, Vec<(usize, Want)>) {
  let mut p = if kind == 0 { PactBuilderAsync::new(consumer, "provider") } else { PactBuilderAsync::new_v4(consumer, "provider") };
  if let Some(d) = dir { p.output_dir(d); }
  let mut wants = vec![];
  for n in 0..1 + r.us(4) {
    let mut w = Want { description: format!("interaction {}", n), ..Default::default() };
    let k = if kind == 0 { 0 } else { r.us(3) };
    let (d, v4, push) = (w.description.clone(), kind == 2, r.chance(1, 4));
    match k {
      0 => {
        if push { let i = http(r, InteractionBuilder::new(d, String::new()), &mut w, v4); if v4 { p.push_interaction(&i.build_v4()); } else { p.push_interaction(&i.build()); } }
        else { p.interaction(d, String::new(), |i| { let i = http(r, i, &mut w, v4); async move { tokio::task::yield_now().await; i } }).await; }
      },
      1 => {
        if push { let i = message(r, MessageInteractionBuilder::new(d), &mut w, v4); p.push_interaction(&i.build()); }
        else { p.message_interaction(d, |i| { let i = message(r, i, &mut w, v4); async move { tokio::task::yield_now().await; i } }).await; }
      },
      _ => {
        if push { let i = sync(r, SyncMessageInteractionBuilder::new(d), &mut w); p.push_interaction(&i.build()); }
        else { p.synchronous_message_interaction(d, |i| { let i = sync(r, i, &mut w); async move { tokio::task::yield_now().await; i } }).await; }
      }
    }
    wants.push((k, w));
  }
  (p, wants)
}

fn sorted(v: &Value) -> Value {
  match v {
    Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), if k == "matchers" { let mut l: Vec<Value> = v.as_array().cloned().unwrap_or_default(); l.sort_by_key(|v| v.to_string()); l.dedup(); json!(l) } else { sorted(v) })).collect()),
    v => v.clone()
  }
}

fn check_side(what: &str, want: &Side, have: &Value, body: &Value, v4: bool, all: &str) -> Verdict {
  let mut rules = json!({});
  for (cat, m) in &want.rules {
    for (k, l) in m { if cat == "path" { rules["path"] = json!({"combine": "AND", "matchers": l}); } else { rules[cat][k] = json!({"combine": "AND", "matchers": l}); } }
  }
  let mut got = have["matchingRules"].as_object().cloned().unwrap_or_default();
  got.retain(|_, v| v.as_object().map(|m| !m.is_empty()).unwrap_or(true));
  ensure!(sorted(&Value::Object(got.clone())) == sorted(&rules), "rules", "{}: the rules written are {} but {} were set up in {}", what, Value::Object(got), rules, all);
  let mut gens = json!({});
  for (cat, m) in &want.gens { for (k, v) in m { if cat == "path" { gens["path"] = v.clone(); } else { gens[cat][k] = v.clone(); } } }
  let got = if have["generators"].is_null() { json!({}) } else { have["generators"].clone() };
  ensure!(got == gens, "generators", "{}: the generators written are {} but {} were set up in {}", what, got, gens, all);
  let text = if v4 { if body.is_null() { Value::Null } else if body["encoded"] == "base64" { json!(b64d(body["content"].as_str().unwrap_or("")).map(|b| String::from_utf8_lossy(&b).to_string())) } else { body["content"].clone() } } else { body.clone() };
  if let (true, Some(ct)) = (v4, &want.ct) { ensure!(body["contentType"] == *ct, "content-type", "{}: the content type of the body is {}, given was {} in {}", what, body["contentType"], ct, all); }
  match &want.body {
    None => ensure!(text.is_null() || text == "", "body", "{}: there is a body {} but none was given in {}", what, text, all),
    Some(Body::Text(t)) => ensure!(text == *t, "body", "{}: the body is {}, given was {:?} in {}", what, text, t, all),
    Some(Body::Doc(v)) => ensure!(text == *v, "body", "{}: the body is {}, given was {} in {}", what, text, v, all)
  }
  Ok(())
}

fn check_metadata(what: &str, want: &Side, have: &Value, all: &str) -> Verdict {
  let got: BTreeMap<String, Value> = have.as_object().cloned().unwrap_or_default().into_iter().collect();
  // without a content type of its own, a body says what it is
  let mut got2 = got.clone();
  if !want.metadata.contains_key("contentType") && matches!(want.body, Some(Body::Doc(_))) && got2.get("contentType") == Some(&json!("application/json")) { got2.remove("contentType"); }
  ensure!(got2 == want.metadata, "metadata", "{}: the metadata written is {:?}, given was {:?} in {}", what, got, want.metadata, all);
  Ok(())
}

pub fn check(doc: &Value, kind: usize, consumer: &str, wants: &[(usize, Want)]) -> Verdict {
  let v4 = kind == 2;
  let key = if kind == 1 { "messages" } else { "interactions" };
  ensure!(doc["consumer"]["name"] == consumer && doc["provider"]["name"] == "provider", "parties", "the parties written are {} and {}", doc["consumer"], doc["provider"]);
  let list = doc[key].as_array().cloned().unwrap_or_default();
  ensure!(list.len() == wants.len(), "how-many", "{} {} were written, {} were given", list.len(), key, wants.len());
  for (k, w) in wants {
    let all = format!("{:?}", w);
    let Some(i) = list.iter().find(|i| i["description"] == w.description) else { return violated("not-written", format!("{} is not among those written", w.description)) };
    if v4 { ensure!(i["type"] == ["Synchronous/HTTP", "Asynchronous/Messages", "Synchronous/Messages"][*k], "type", "{} is written as a {}", w.description, i["type"]); }
    let states: Vec<(String, BTreeMap<String, Value>)> = i["providerStates"].as_array().cloned().unwrap_or_default().iter().map(|s| (s["name"].as_str().unwrap_or_default().to_string(), s["params"].as_object().cloned().unwrap_or_default().into_iter().collect())).collect();
    ensure!(states == w.states, "states", "the states written are {:?} in {}", states, all);
    if v4 {
      ensure!(i["pending"].as_bool().unwrap_or(false) == w.pending, "pending", "pending is written as {} in {}", i["pending"], all);
      if let Some(k) = &w.key { ensure!(i["key"] == *k, "key", "the key written is {} in {}", i["key"], all); }
      let notes = i["comments"]["text"].as_array().cloned().unwrap_or_default();
      ensure!(json!(notes) == json!(w.notes), "comments", "the comments written are {} in {}", i["comments"], all);
      ensure!(i["comments"]["testname"] == json!(w.test), "test-name", "the test name written is {} in {}", i["comments"], all);
      ensure!(i["transport"] == json!(w.transport), "transport", "the transport written is {} in {}", i["transport"], all);
    }
    match k {
      0 => {
        let (q, s) = (&i["request"], &i["response"]);
        ensure!(q["method"] == w.method && q["path"] == w.path && s["status"] == w.status, "line", "{} {} -> {} was written in {}", q["method"], q["path"], s["status"], all);
        let query: BTreeMap<String, Vec<String>> = q["query"].as_object().cloned().unwrap_or_default().into_iter().map(|(k, v)| (k, v.as_array().cloned().unwrap_or_default().iter().map(|v| v.as_str().unwrap_or("?").to_string()).collect())).collect();
        ensure!(query == w.query, "query", "the query written is {} in {}", q["query"], all);
        for (what, side, have) in [("request", &w.sides[0], q), ("response", &w.sides[1], s)] {
          let headers: BTreeMap<String, Vec<String>> = have["headers"].as_object().cloned().unwrap_or_default().into_iter().map(|(k, v)| (k.to_lowercase(), match v { Value::Array(l) => l.iter().map(|v| v.as_str().unwrap_or("?").to_string()).collect(), v => v.as_str().unwrap_or("?").split(',').map(|v| v.trim().to_string()).collect() })).collect();
          let mut headers2 = headers.clone();
          if !side.headers.contains_key("content-type") && side.ct.is_some() && headers2.get("content-type").map(|v| Some(&v[0]) == side.ct.as_ref()).unwrap_or(false) { headers2.remove("content-type"); }
          ensure!(headers2 == side.headers, "headers", "{}: the headers written are {:?} in {}", what, headers, all);
          check_side(what, side, have, &have["body"], v4, &all)?;
        }
      },
      1 => {
        check_metadata("message", &w.sides[0], if i["metadata"].is_null() { &i["metaData"] } else { &i["metadata"] }, &all)?;
        check_side("message", &w.sides[0], i, &i["contents"], v4, &all)?;
      },
      _ => {
        check_metadata("request", &w.sides[0], &i["request"]["metadata"], &all)?;
        check_side("request", &w.sides[0], &i["request"], &i["request"]["contents"], true, &all)?;
        let list = i["response"].as_array().cloned().unwrap_or_default();
        ensure!(list.len() + 1 == w.sides.len(), "responses", "{} responses were written in {}", list.len(), all);
        for (n, side) in w.sides[1..].iter().enumerate() {
          check_metadata("response", side, &list[n]["metadata"], &all)?;
          check_side("response", side, &list[n], &list[n]["contents"], true, &all)?;
        }
      }
    }
  }
  Ok(())
}

fn case(cx: &mut Cx) -> Verdict {
  let kind = cx.rng.us(3);
  let r = &mut cx.rng;
  let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
  let (pact, wants) = if kind != 1 && r.chance(1, 3) {
    let (p, wants) = rt.block_on(build_async(r, kind, "consumer", None));
    cx.tick("async_builders");
    (p.build() as Box<dyn Pact + Send + Sync>, wants)
  } else {
    let (p, wants) = build(r, kind, "consumer", None);
    (p.build() as Box<dyn Pact + Send + Sync>, wants)
  };
  let doc = pact.to_json(pact.specification_version()).map_err(|e| Violation::new("no-json", format!("the pact has no JSON: {}", e)))?;
  check(&doc, kind, "consumer", &wants)?;
  // what is written is what was built
  let again = pact_models::pact::load_pact_from_json("<built>", &doc).map_err(|e| Violation::new("not-readable", format!("{} in {}", e, doc)))?;
  ensure!(again.interactions().len() == wants.len(), "not-readable", "{} interactions are read back", again.interactions().len());
  // every example is accepted by the rules it came with
  for i in pact.interactions() {
    if let Some(h) = i.as_v4_http() {
      let pact = pact.as_v4_pact().unwrap().boxed();
      let out = rt.block_on(pact_matching::match_request(h.request.clone(), h.request.clone(), &pact, &i)).map_err(|e| Violation::new("not-matched", e.to_string()))?;
      ensure!(out.all_matched(), "own-example", "the example of {} does not comply with its own rules: {:?} in {:?}", i.description(), out.mismatches(), h.request);
      cx.tick("examples_matched");
    }
  }
  cx.add("interactions", wants.len() as u64);
  cx.tick(["v3_pacts", "message_pacts", "v4_pacts"][kind]);
  cx.saw(doc.to_string());
  cx.sample(|| doc.clone());
  Ok(())
}

pub fn prop() -> Property {
  Property { id: "P53", level: "exploration",
    rule: "pattern trees with known examples and rules, and interactions and messages described call by call, are built with the consumer DSL; every field of the resulting document is compared with what was said, and every example is matched against its own rules",
    assumptions: vec!["the mock server crate, which is not part of the repository, is a stand-in; built without plugins"],
    phases: vec![phase("built", 1500, case)],
    floors: vec![("interactions", 500), ("examples_matched", 200), ("v4_pacts", 50)], probes: vec![] }
}
