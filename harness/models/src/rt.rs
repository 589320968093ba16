//! Pact file round trips, judged against the source document (made without the library) and an
//! independent reading of the loaded model.
use std::collections::{BTreeMap, HashMap};
use moncore::*;
use moncore::pred::{json_diff, short};
use pact_models::bodies::OptionalBody;
use pact_models::interaction::Interaction;
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::PactSpecification;
use crate::gen::{self, BodyModel, Spec};

pub fn spec_of(s: Spec) -> PactSpecification {
  match s { Spec::V1 => PactSpecification::V1, Spec::V11 => PactSpecification::V1_1, Spec::V2 => PactSpecification::V2, Spec::V3 => PactSpecification::V3 }
}

fn empty(v: &Value) -> bool { match v { Value::Null => true, Value::Object(m) => m.is_empty(), Value::Array(a) => a.is_empty(), _ => false } }

fn drop_empty(o: &mut Map<String, Value>, keys: &[&str]) { for k in keys { if o.get(*k).map(empty).unwrap_or(false) { o.remove(*k); } } }

fn norm_rules(v: &mut Value) {
  if let Value::Object(m) = v {
    for cat in ["path", "method", "status"] {
      if let Some(c) = m.get(cat) {
        if let Some(inner) = c.get("").cloned() { m.insert(cat.into(), inner); }
      }
    }
    let empties: Vec<String> = m.iter().filter(|(_, v)| empty(v)).map(|(k, _)| k.clone()).collect();
    for k in empties { m.remove(&k); }
    // a rule list without an explicit combination is AND
    fn lists(v: &mut Value) {
      match v {
        Value::Object(m) => {
          if m.contains_key("matchers") && !m.contains_key("combine") { m.insert("combine".into(), json!("AND")); }
          for (_, x) in m.iter_mut() { lists(x) }
          if m.get("match") == Some(&json!("arrayContains")) {
            if let Some(vs) = m.get_mut("variants").and_then(|v| v.as_array_mut()) {
              for x in vs { if let Some(x) = x.as_object_mut() { drop_empty(x, &["rules", "generators"]); } }
            }
          }
        }
        Value::Array(a) => for x in a { lists(x) },
        _ => {}
      }
    }
    lists(v);
  }
}

fn norm_part(p: &mut Value, pre_v4_body: bool) {
  if let Value::Object(m) = p {
    if let Some(r) = m.get_mut("matchingRules") { norm_rules(r) }
    drop_empty(m, &["matchingRules", "generators", "headers", "query", "metadata"]);
    if let Some(me) = m.get_mut("method") { if let Some(s) = me.as_str() { *me = json!(s.to_uppercase()); } }
    if !pre_v4_body {
      for k in ["body", "contents"] {
        // content type and encoding have no meaning for content that is not there
        if let Some(b) = m.get_mut(k) {
          let empty_body = b.get("content").map(|c| c.is_null() || c == "").unwrap_or(true);
          if let Some(b) = b.as_object_mut() { if empty_body { b.remove("contentType"); b.remove("encoded"); } }
        }
      }
    }
  }
}

/// Two documents denote the same pact when their normal forms are the same
pub fn normal(doc: &Value, v4: bool) -> Value {
  let mut d = doc.clone();
  if let Some(m) = d.get_mut("metadata").and_then(|m| m.as_object_mut()) {
    m.remove("pactSpecification"); m.remove("pact-specification"); m.remove("pact-rust");
    if let Some(pr) = m.get_mut("pactRust").and_then(|p| p.as_object_mut()) { pr.remove("models"); }
    drop_empty(m, &["pactRust", "plugins"]);
  }
  for key in ["interactions", "messages"] {
    if let Some(a) = d.get_mut(key).and_then(|a| a.as_array_mut()) {
      for i in a.iter_mut() {
        norm_part(i, !v4);
        if let Some(m) = i.as_object_mut() {
          if v4 && m.get("pending") == Some(&json!(false)) { m.remove("pending"); }
          // comments that say nothing may be left out
          if let Some(c) = m.get_mut("comments").and_then(|c| c.as_object_mut()) { c.retain(|_, v| !(v.is_null() || v == "" || v == &json!([]) || v == &json!({}))); }
          drop_empty(m, &["providerStates", "comments", "pluginConfiguration", "interactionMarkup"]);
          if let Some(ps) = m.get_mut("providerStates").and_then(|p| p.as_array_mut()) {
            for s in ps { if let Some(s) = s.as_object_mut() { drop_empty(s, &["params"]); } }
          }
          for k in ["request", "response"] {
            if let Some(p) = m.get_mut(k) {
              if let Some(a) = p.as_array_mut() { for x in a { norm_part(x, !v4) } } else { norm_part(p, !v4) }
            }
          }
        }
      }
    }
  }
  d
}

pub fn check_body(what: &str, b: &OptionalBody, m: &BodyModel) -> Verdict {
  let ok = match m {
    BodyModel::Missing => matches!(b, OptionalBody::Missing),
    BodyModel::Empty => matches!(b, OptionalBody::Empty),
    BodyModel::Null => matches!(b, OptionalBody::Null),
    BodyModel::Json(v) => b.value().and_then(|d| serde_json::from_slice::<Value>(&d).ok()).as_ref() == Some(v),
    BodyModel::Bytes(x) => b.value().map(|d| d.to_vec() == *x).unwrap_or(false)
  };
  ensure!(ok, "body-meaning", "{}: document says {:?}, loaded model has {:?}", what, m, b);
  Ok(())
}

fn strs(v: &Value) -> Vec<Option<String>> { v.as_array().map(|a| a.iter().map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default() }

fn check_states(i: &dyn Interaction, src: &Value, old: bool) -> Verdict {
  let got: Vec<(String, BTreeMap<String, Value>)> = i.provider_states().iter().map(|s| (s.name.clone(), s.params.iter().map(|(k, v)| (k.clone(), v.clone())).collect())).collect();
  let want: Vec<(String, BTreeMap<String, Value>)> = if old {
    src["providerState"].as_str().map(|s| vec![(s.to_string(), BTreeMap::new())]).unwrap_or_default()
  } else {
    src["providerStates"].as_array().map(|a| a.iter().map(|s| (s["name"].as_str().unwrap().to_string(),
      s["params"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default())).collect()).unwrap_or_default()
  };
  ensure!(got == want, "provider-states", "document {:?} loaded {:?}", want, got);
  Ok(())
}

fn check_headers(got: &Option<HashMap<String, Vec<String>>>, want: BTreeMap<String, Vec<String>>, what: &str) -> Verdict {
  let g: BTreeMap<String, Vec<String>> = got.clone().unwrap_or_default().into_iter().collect();
  ensure!(g == want, "headers", "{}: document {:?} loaded {:?}", what, want, g);
  Ok(())
}

fn headers_of(v: &Value) -> BTreeMap<String, Vec<String>> {
  v.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), strs(v).into_iter().flatten().collect())).collect()).unwrap_or_default()
}

const SINGLE: [&str; 9] = ["date", "accept-datetime", "if-modified-since", "if-unmodified-since", "expires", "retry-after", "last-modified", "set-cookie", "user-agent"];
fn headers_old(v: &Value) -> BTreeMap<String, Vec<String>> {
  v.as_object().map(|o| o.iter().map(|(k, v)| {
    let s = v.as_str().unwrap();
    (k.clone(), if SINGLE.contains(&k.to_lowercase().as_str()) { vec![s.to_string()] } else { s.split(',').map(|p| p.trim().to_string()).collect() })
  }).collect()).unwrap_or_default()
}

fn query_of(v: &Value) -> BTreeMap<String, Vec<Option<String>>> {
  v.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), strs(v))).collect()).unwrap_or_default()
}

fn check_top(p: &dyn Pact, doc: &Value, spec: PactSpecification) -> Verdict {
  ensure!(p.consumer().name == doc["consumer"]["name"].as_str().unwrap(), "consumer", "{:?}", p.consumer());
  ensure!(p.provider().name == doc["provider"]["name"].as_str().unwrap(), "provider", "{:?}", p.provider());
  ensure!(p.specification_version() == spec, "spec-version", "document is {:?}, loaded as {:?}", spec, p.specification_version());
  Ok(())
}

fn check_v4(p: &dyn Pact, g: &gen::GenPact) -> Verdict {
  let docs = g.doc["interactions"].as_array().unwrap();
  let is = p.interactions();
  ensure!(is.len() == docs.len(), "interaction-count", "{} in the document, {} loaded", docs.len(), is.len());
  for ((i, d), bodies) in is.iter().zip(docs).zip(&g.bodies) {
    ensure!(i.description() == d["description"].as_str().unwrap(), "description", "{} vs {}", i.description(), d["description"]);
    check_states(i.as_ref(), d, false)?;
    ensure!(i.pending() == d["pending"].as_bool().unwrap_or(false), "pending", "{}", d);
    let v = match i.as_v4() { Some(v) => v, None => return violated("as-v4", "not a V4 interaction") };
    ensure!(v.key().as_deref() == d["key"].as_str(), "key", "{:?} vs {}", v.key(), d["key"]);
    ensure!(v.transport().as_deref() == d["transport"].as_str(), "transport", "{:?} vs {}", v.transport(), d["transport"]);
    let comments: Map<String, Value> = v.comments().into_iter().collect();
    if let Some(x) = json_diff("comments", &Value::Object(comments), d.get("comments").unwrap_or(&json!({}))) { return violated("comments", x) }
    let plug: Map<String, Value> = v.plugin_config().into_iter().map(|(k, v)| (k, Value::Object(v.into_iter().collect()))).collect();
    if let Some(x) = json_diff("pluginConfiguration", &Value::Object(plug), d.get("pluginConfiguration").unwrap_or(&json!({}))) { return violated("plugin-config", x) }
    let (markup, mtype) = (d["interactionMarkup"]["markup"].as_str().unwrap_or(""), d["interactionMarkup"]["markupType"].as_str().unwrap_or(""));
    let im = v.interaction_markup();
    ensure!(im.markup == markup && im.markup_type == mtype, "markup", "{:?} vs {}", im, d["interactionMarkup"]);
    match d["type"].as_str().unwrap() {
      "Synchronous/HTTP" => {
        let h = match i.as_v4_http() { Some(h) => h, None => return violated("type", "HTTP interaction loaded as something else") };
        ensure!(h.request.method == d["request"]["method"].as_str().unwrap(), "method", "{}", h.request.method);
        ensure!(h.request.path == d["request"]["path"].as_str().unwrap(), "path", "{}", h.request.path);
        ensure!(h.response.status as i64 == d["response"]["status"].as_i64().unwrap(), "status", "{}", h.response.status);
        let q: BTreeMap<_, _> = h.request.query.clone().unwrap_or_default().into_iter().collect();
        ensure!(q == query_of(&d["request"]["query"]), "query", "{:?} vs {}", q, d["request"]["query"]);
        check_headers(&h.request.headers, headers_of(&d["request"]["headers"]), "request")?;
        check_headers(&h.response.headers, headers_of(&d["response"]["headers"]), "response")?;
        check_body("request", &h.request.body, &bodies[0])?;
        check_body("response", &h.response.body, &bodies[1])?;
      }
      "Asynchronous/Messages" => {
        let m = match i.as_v4_async_message() { Some(m) => m, None => return violated("type", "async message loaded as something else") };
        check_body("contents", &m.contents.contents, &bodies[0])?;
        let md: Map<String, Value> = m.contents.metadata.into_iter().collect();
        if let Some(x) = json_diff("metadata", &Value::Object(md), d.get("metadata").unwrap_or(&json!({}))) { return violated("message-metadata", x) }
      }
      _ => {
        let m = match i.as_v4_sync_message() { Some(m) => m, None => return violated("type", "sync message loaded as something else") };
        check_body("request", &m.request.contents, &bodies[0])?;
        ensure!(m.response.len() + 1 == bodies.len(), "response-count", "{} vs {}", m.response.len(), bodies.len() - 1);
        for (x, b) in m.response.iter().zip(&bodies[1..]) { check_body("response", &x.contents, b)?; }
        for (x, d) in std::iter::once(&m.request).chain(&m.response).zip(std::iter::once(&d["request"]).chain(d["response"].as_array().unwrap())) {
          let md: Map<String, Value> = x.metadata.clone().into_iter().collect();
          if let Some(x) = json_diff("metadata", &Value::Object(md), d.get("metadata").unwrap_or(&json!({}))) { return violated("message-metadata", x) }
        }
      }
    }
  }
  Ok(())
}

fn load(doc: &Value) -> Result<Box<dyn Pact + Send + Sync + std::panic::RefUnwindSafe>, Violation> {
  match load_pact_from_json("gen", doc) { Ok(p) => Ok(p), Err(e) => violated("load-error", format!("{}", e)) }
}
fn write(p: &dyn Pact, s: PactSpecification) -> Result<Value, Violation> {
  match p.to_json(s) { Ok(p) => Ok(p), Err(e) => violated("write-error", format!("{}", e)) }
}

pub fn v4_case(cx: &mut Cx) -> Verdict {
  let g = gen::pact_v4(&mut cx.rng);
  cx.note(format!("document: {}", g.doc));
  let p = load(&g.doc)?;
  check_top(p.as_ref(), &g.doc, PactSpecification::V4)?;
  check_v4(p.as_ref(), &g)?;
  let out = write(p.as_ref(), PactSpecification::V4)?;
  cx.note(format!("written: {}", out));
  ensure!(out["metadata"]["pactSpecification"]["version"] == "4.0", "written-version", "{}", out["metadata"]);
  if let Some(d) = json_diff("$", &normal(&g.doc, true), &normal(&out, true)) { return violated("document-changed", format!("original vs re-written: {}", d)) }
  // what was written is read back as the same thing, and writing is a function of the content
  let p2 = load(&out)?;
  check_v4(p2.as_ref(), &g)?;
  let out2 = write(p2.as_ref(), PactSpecification::V4)?;
  ensure!(out2.to_string() == out.to_string(), "not-a-fixed-point", "written {} then {}", short(&out), short(&out2));
  let text = serde_json::to_string_pretty(&out).unwrap();
  let again = serde_json::to_string_pretty(&write(load(&serde_json::from_str(&text).unwrap())?.as_ref(), PactSpecification::V4)?).unwrap();
  ensure!(text == again, "text-not-stable", "file text changes on re-write");
  for d in g.doc["interactions"].as_array().unwrap() {
    cx.tick(match d["type"].as_str().unwrap() { "Synchronous/HTTP" => "http interactions", "Asynchronous/Messages" => "async messages", _ => "sync messages" });
    cx.saw(d.to_string());
  }
  for b in g.bodies.iter().flatten() { cx.tick(match b { BodyModel::Missing => "body missing", BodyModel::Empty => "body empty", BodyModel::Null => "body null", BodyModel::Json(_) => "body json", BodyModel::Bytes(_) => "body bytes" }); }
  cx.sample(|| g.doc.clone());
  Ok(())
}

fn check_old(p: &dyn Pact, g: &gen::GenPact, spec: Spec) -> Verdict {
  let docs = g.doc["interactions"].as_array().unwrap();
  let rr = match p.as_request_response_pact() { Ok(p) => p, Err(e) => return violated("as-rr", e.to_string()) };
  ensure!(rr.interactions.len() == docs.len(), "interaction-count", "{} in the document, {} loaded", docs.len(), rr.interactions.len());
  for ((i, d), bodies) in rr.interactions.iter().zip(docs).zip(&g.bodies) {
    ensure!(i.description == d["description"].as_str().unwrap(), "description", "{} vs {}", i.description, d["description"]);
    check_states(i, d, spec != Spec::V3)?;
    ensure!(i.request.method == d["request"]["method"].as_str().unwrap(), "method", "{}", i.request.method);
    ensure!(i.request.path == d["request"]["path"].as_str().unwrap(), "path", "{}", i.request.path);
    ensure!(i.response.status as i64 == d["response"]["status"].as_i64().unwrap(), "status", "{}", i.response.status);
    if spec == Spec::V3 {
      let q: BTreeMap<_, _> = i.request.query.clone().unwrap_or_default().into_iter().collect();
      ensure!(q == query_of(&d["request"]["query"]), "query", "{:?} vs {}", q, d["request"]["query"]);
    }
    check_headers(&i.request.headers, headers_old(&d["request"]["headers"]), "request")?;
    check_headers(&i.response.headers, headers_old(&d["response"]["headers"]), "response")?;
    check_body("request", &i.request.body, &bodies[0])?;
    check_body("response", &i.response.body, &bodies[1])?;
  }
  Ok(())
}

fn old_case(cx: &mut Cx) -> Verdict {
  let spec = *cx.rng.pick(&gen::SPECS);
  let g = gen::pact_v123(&mut cx.rng, spec);
  cx.note(format!("spec {:?} document: {}", spec, g.doc));
  let p = load(&g.doc)?;
  check_top(p.as_ref(), &g.doc, spec_of(spec))?;
  check_old(p.as_ref(), &g, spec)?;
  let out = write(p.as_ref(), spec_of(spec))?;
  cx.note(format!("written: {}", out));
  if let Some(d) = json_diff("$", &plain_binary(normal(&g.doc, false)), &plain_binary(normal(&out, false))) { return violated("document-changed", format!("{:?}: original vs re-written: {}", spec, d)) }
  let p2 = load(&out)?;
  check_old(p2.as_ref(), &g, spec)?;
  let out2 = write(p2.as_ref(), spec_of(spec))?;
  ensure!(out2.to_string() == out.to_string(), "not-a-fixed-point", "written {} then {}", short(&out), short(&out2));
  for d in g.doc["interactions"].as_array().unwrap() {
    cx.tick(match spec { Spec::V1 => "V1 interactions", Spec::V11 => "V1.1 interactions", Spec::V2 => "V2 interactions", Spec::V3 => "V3 interactions" });
    cx.saw((spec.ver(), d.to_string()));
  }
  cx.sample(|| g.doc.clone());
  Ok(())
}

/// Bodies of binary content types can be given in Base64 or, when it is not also valid Base64, as plain text
pub fn plain_binary(mut d: Value) -> Value {
  if let Some(a) = d.get_mut("interactions").and_then(|a| a.as_array_mut()) {
    for i in a.iter_mut() {
      for k in ["request", "response"] {
        let p = &mut i[k];
        let binary = p.get("headers").and_then(|h| h.as_object()).map(|h| h.iter().any(|(k, v)| k.eq_ignore_ascii_case("content-type") && gen::BINARY_CT.contains(&v.as_str().unwrap_or("")))).unwrap_or(false);
        if !binary { continue }
        if let Some(s) = p.get("body").and_then(|b| b.as_str()).map(|s| s.to_string()) {
          let bytes = moncore::b64d(&s).unwrap_or_else(|| s.into_bytes());
          p["body"] = json!({ "bytes": bytes });
        }
      }
    }
  }
  d
}

fn message_case(cx: &mut Cx) -> Verdict {
  let g = gen::message_pact_v3(&mut cx.rng);
  cx.note(format!("document: {}", g.doc));
  let p = load(&g.doc)?;
  check_top(p.as_ref(), &g.doc, PactSpecification::V3)?;
  let check = |p: &dyn Pact| -> Verdict {
    let mp = match p.as_message_pact() { Ok(p) => p, Err(e) => return violated("as-message", e.to_string()) };
    let docs = g.doc["messages"].as_array().unwrap();
    ensure!(mp.messages.len() == docs.len(), "message-count", "{} vs {}", docs.len(), mp.messages.len());
    for ((m, d), b) in mp.messages.iter().zip(docs).zip(&g.bodies) {
      ensure!(m.description == d["description"].as_str().unwrap(), "description", "{}", m.description);
      check_states(m, d, false)?;
      check_body("contents", &m.contents, &b[0])?;
      let md: Map<String, Value> = m.metadata.clone().into_iter().collect();
      if let Some(x) = json_diff("metadata", &Value::Object(md), &d["metadata"]) { return violated("message-metadata", x) }
    }
    Ok(())
  };
  check(p.as_ref())?;
  let out = write(p.as_ref(), PactSpecification::V3)?;
  cx.note(format!("written: {}", out));
  if let Some(d) = json_diff("$", &normal(&g.doc, false), &normal(&out, false)) { return violated("document-changed", format!("original vs re-written: {}", d)) }
  let p2 = load(&out)?;
  check(p2.as_ref())?;
  let out2 = write(p2.as_ref(), PactSpecification::V3)?;
  ensure!(out2.to_string() == out.to_string(), "not-a-fixed-point", "written {} then {}", short(&out), short(&out2));
  for d in g.doc["messages"].as_array().unwrap() { cx.tick("V3 messages"); cx.saw(d.to_string()); }
  cx.sample(|| g.doc.clone());
  Ok(())
}

fn null_content() -> Verdict {
  let doc = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": "4.0"}}, "interactions": [
    {"type": "Synchronous/HTTP", "description": "d", "request": {"method": "POST", "path": "/", "body": {"content": null, "contentType": "application/json", "encoded": false}}, "response": {"status": 200}}]});
  let p = load_pact_from_json("x", &doc).map_err(|e| Violation { sig: "null-content".into(), detail: e.to_string() })?;
  let out = p.to_json(PactSpecification::V4).map_err(|e| Violation { sig: "null-content".into(), detail: e.to_string() })?;
  let b = out["interactions"][0]["request"].get("body").cloned();
  ensure!(b.as_ref().and_then(|b| b.get("content")) == Some(&json!(null)), "null-content", "a body {} is written as {:?}", doc["interactions"][0]["request"]["body"], b);
  Ok(())
}

pub fn v4() -> Property {
  Property {
    id: "P01", level: "exploration",
    rule: "Seeded V4 documents (HTTP, asynchronous and synchronous message interactions; every body form, rule, generator, state, comment, plugin and markup attribute). Non-trivial: each distinct interaction document loaded, compared attribute by attribute, written, compared with its source, re-loaded and re-written.",
    assumptions: vec!["Equivalence ignores the specification/library version stamps and absent-vs-empty optional attributes."],
    phases: vec![phase("v4", 6000, v4_case)],
    floors: vec![("http interactions", 1000), ("async messages", 1000), ("sync messages", 1000), ("body bytes", 500), ("body json", 500)],
    probes: vec![("null-content", null_content)]
  }
}

pub fn old() -> Property {
  Property {
    id: "P02", level: "exploration",
    rule: "Seeded V1, V1.1, V2 and V3 request/response documents and V3 message documents. Non-trivial: each distinct interaction document loaded, compared attribute by attribute, written, compared with its source, re-loaded and re-written.",
    assumptions: vec!["Equivalence ignores the specification/library version stamps and absent-vs-empty optional attributes."],
    phases: vec![phase("http", 5000, old_case), phase("message", 2500, message_case)],
    floors: vec![("V1 interactions", 500), ("V2 interactions", 500), ("V3 interactions", 500), ("V3 messages", 500)],
    probes: vec![]
  }
}
