//! Conversion between specification versions keeps the meaning of every interaction.
use std::collections::BTreeMap;
use moncore::*;
use moncore::pred::json_diff;
use pact_models::bodies::OptionalBody;
use pact_models::http_parts::HttpPart;
use pact_models::interaction::Interaction;
use pact_models::matchingrules::matchers_to_json;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::sync_pact::RequestResponsePact;
use pact_models::PactSpecification;
use crate::gen::{self, BodyModel, Spec};
use crate::rt::{normal, plain_binary, spec_of, check_body};

/// JSON null contents can not be expressed in a V4 document (known finding of P01)
fn no_null(doc: &mut Value, bodies: &mut Vec<Vec<BodyModel>>) {
  let has: Vec<bool> = bodies.iter().map(|b| b.iter().any(|m| matches!(m, BodyModel::Null) || matches!(m, BodyModel::Json(Value::Null)))).collect();
  for k in ["interactions", "messages"] { if let Some(a) = doc.get_mut(k).and_then(|a| a.as_array_mut()) { let mut it = has.iter(); a.retain(|_| !it.next().unwrap()); } }
  let mut it = has.iter(); bodies.retain(|_| !it.next().unwrap());
}

type B = Box<dyn Pact + Send + Sync + std::panic::RefUnwindSafe>;
fn load(doc: &Value) -> Result<B, Violation> {
  match load_pact_from_json("gen", doc) { Ok(p) => Ok(p), Err(e) => violated("load-error", format!("{} loading {}", e, doc)) }
}
fn write(p: &dyn Pact, s: PactSpecification) -> Result<Value, Violation> {
  match p.to_json(s) { Ok(p) => Ok(p), Err(e) => violated("write-error", format!("{}", e)) }
}
fn ok<T>(r: anyhow::Result<T>, what: &str) -> Result<T, Violation> { r.or_else(|e| violated("convert-error", format!("{}: {}", what, e))) }

fn no_order(v: &mut Value) {
  for k in ["interactions", "messages"] { if let Some(a) = v.get_mut(k).and_then(|a| a.as_array_mut()) { a.sort_by_key(|i| i["description"].as_str().unwrap_or("").to_string()); } }
}
fn same(what: &str, a: &Value, b: &Value) -> Verdict {
  let (mut a, mut b) = (plain_binary(normal(a, false)), plain_binary(normal(b, false)));
  no_order(&mut a); no_order(&mut b);
  // fields of the pact itself that only the writer of the file controls
  if let Some(d) = json_diff("$", &a, &b) { return violated("meaning-changed", format!("{}: original vs converted: {}", what, d)) }
  Ok(())
}

fn old_case(cx: &mut Cx) -> Verdict {
  let spec = *cx.rng.pick(&gen::SPECS);
  let mut g = gen::pact_v123(&mut cx.rng, spec);
  no_null(&mut g.doc, &mut g.bodies);
  cx.note(format!("{:?} {}", spec, g.doc));
  let p = load(&g.doc)?;
  let v4 = ok(p.as_v4_pact(), "as_v4_pact")?;
  ensure!(v4.interactions.len() == p.interactions().len(), "interaction-lost", "{} of {} converted", v4.interactions.len(), p.interactions().len());
  // in memory
  let back: RequestResponsePact = ok(v4.as_request_response_pact(), "as_request_response_pact")?;
  same("V4 model and back", &g.doc, &write(&back, spec_of(spec))?)?;
  // through a V4 file
  for (what, j4) in [("model", write(&v4, PactSpecification::V4)?), ("written as V4", write(p.as_ref(), PactSpecification::V4)?)] {
    cx.note(format!("V4 {}: {}", what, j4));
    ensure!(j4["metadata"]["pactSpecification"]["version"] == "4.0", "version-stamp", "{}: {}", what, j4["metadata"]);
    let q = load(&j4)?;
    ensure!(q.specification_version() == PactSpecification::V4, "loaded-version", "{:?}", q.specification_version());
    let r = ok(q.as_request_response_pact(), "as_request_response_pact")?;
    for ((i, d), b) in {
      let mut v: Vec<(&pact_models::sync_interaction::RequestResponseInteraction, &Value, &Vec<BodyModel>)> = vec![];
      let docs = g.doc["interactions"].as_array().unwrap();
      ensure!(r.interactions.len() == docs.len(), "interaction-lost", "{} of {}", r.interactions.len(), docs.len());
      for (d, b) in docs.iter().zip(&g.bodies) {
        match r.interactions.iter().find(|i| d["description"] == i.description) { Some(i) => v.push((i, d, b)), None => return violated("interaction-lost", d.to_string()) }
      }
      v.into_iter().map(|(i, d, b)| ((i, d), b)).collect::<Vec<_>>()
    } {
      check_body("request", &i.request.body, &b[0])?;
      check_body("response", &i.response.body, &b[1])?;
      let _ = d;
    }
    same(&format!("{} and back", what), &g.doc, &write(&r, spec_of(spec))?)?;
    same(&format!("{} written down", what), &g.doc, &write(q.as_ref(), spec_of(spec))?)?;
  }
  for d in g.doc["interactions"].as_array().unwrap() { cx.tick("HTTP interactions taken to V4 and back"); cx.saw((spec.ver(), d.to_string())); }
  cx.sample(|| g.doc.clone());
  Ok(())
}

/// the specification version an interaction is written at does not change what it says, as far as
/// that version can say it
fn version_case(cx: &mut Cx) -> Verdict {
  let spec = *cx.rng.pick(&[Spec::V1, Spec::V11, Spec::V2]);
  let g = gen::pact_v123(&mut cx.rng, spec);
  cx.note(format!("{:?} {}", spec, g.doc));
  let p = load(&g.doc)?;
  let j3 = write(p.as_ref(), PactSpecification::V3)?;
  ensure!(j3["metadata"]["pactSpecification"]["version"] == "3.0.0", "version-stamp", "{}", j3["metadata"]);
  cx.note(format!("V3: {}", j3));
  let q = load(&j3)?;
  ensure!(q.specification_version() == PactSpecification::V3, "loaded-version", "{:?}", q.specification_version());
  same("V3 file and back", &g.doc, &write(q.as_ref(), spec_of(spec))?)?;
  for (a, b) in p.interactions().iter().zip(q.interactions()) {
    let (a, b) = (a.as_request_response().unwrap(), b.as_request_response().unwrap());
    ensure!(a.request.query == b.request.query, "query", "{:?} vs {:?}", a.request.query, b.request.query);
    ensure!(a.provider_states == b.provider_states, "provider-states", "{:?} vs {:?}", a.provider_states, b.provider_states);
    for (x, y) in [(&a.request.matching_rules, &b.request.matching_rules), (&a.response.matching_rules, &b.response.matching_rules)] {
      let (x, y) = (matchers_to_json(x, &PactSpecification::V3), matchers_to_json(y, &PactSpecification::V3));
      ensure!(x == y, "matching-rules", "{} vs {}", x, y);
    }
    cx.tick("interactions re-written at V3");
  }
  cx.saw(g.doc.to_string());
  Ok(())
}

fn message_case(cx: &mut Cx) -> Verdict {
  let mut g = gen::message_pact_v3(&mut cx.rng);
  no_null(&mut g.doc, &mut g.bodies);
  cx.note(format!("{}", g.doc));
  let p = load(&g.doc)?;
  let v4 = ok(p.as_v4_pact(), "as_v4_pact")?;
  let strip = |v: Value| {
    // a content type the contents were read with becomes explicit metadata
    let mut v = v;
    for m in v.get_mut("messages").and_then(|a| a.as_array_mut()).into_iter().flatten() {
      let d = m["description"].clone();
      let src = g.doc["messages"].as_array().unwrap().iter().find(|x| x["description"] == d).cloned().unwrap_or_default();
      let has = |k: &str| src["metadata"].get(k).is_some();
      if !has("contentType") { if let Some(md) = m["metadata"].as_object_mut() { md.remove("contentType"); } }
    }
    v
  };
  // the rules for the contents are those of the contents in either format
  for (o, n) in p.interactions().iter().zip(&v4.interactions) {
    let (o, n) = (o.as_message().unwrap(), match n.as_v4_async_message() { Some(n) => n, None => return violated("kind", format!("{:?}", n)) });
    let c = o.as_message_content();
    ensure!(c.contents == o.contents && c.metadata == o.metadata && c.matching_rules == o.matching_rules && c.generators == o.generators, "message-contents", "the contents of {:?} are {:?}", o, c);
    let b = n.contents.as_v3_message();
    ensure!(b.contents == n.contents.contents && b.metadata == n.contents.metadata && b.matching_rules == n.contents.matching_rules && b.generators == n.contents.generators, "message-contents", "{:?} became the message {:?}", n.contents, b);
    for (old, new) in [("body", "content"), ("metadata", "metadata")] {
      let (a, b) = (o.matching_rules.rules_for_category(old), n.contents.matching_rules.rules_for_category(new));
      ensure!(a.as_ref().map(|a| &a.rules) == b.as_ref().map(|b| &b.rules) || a.as_ref().map(|a| a.is_empty()).unwrap_or(true) && b.as_ref().map(|b| b.is_empty()).unwrap_or(true), "message-rules", "the {} rules {:?} became the {} rules {:?}", old, a, new, b);
      if a.map(|a| !a.is_empty()).unwrap_or(false) { cx.tick("message rule lists converted") }
    }
    let m = n.as_message().unwrap();
    ensure!(m.matching_rules == o.matching_rules, "message-rules", "{:?} became {:?}", o.matching_rules, m.matching_rules);
  }
  let back: MessagePact = ok(v4.as_message_pact(), "as_message_pact")?;
  same("V4 model and back", &strip(g.doc.clone()), &strip(write(&back, PactSpecification::V3)?))?;
  for (what, j4) in [("model", write(&v4, PactSpecification::V4)?), ("written as V4", write(p.as_ref(), PactSpecification::V4)?)] {
    cx.note(format!("V4 {}: {}", what, j4));
    ensure!(j4["metadata"]["pactSpecification"]["version"] == "4.0", "version-stamp", "{}: {}", what, j4["metadata"]);
    let q = load(&j4)?;
    let r = ok(q.as_message_pact(), "as_message_pact")?;
    ensure!(r.messages.len() == g.bodies.len(), "interaction-lost", "{} of {}", r.messages.len(), g.bodies.len());
    for (d, b) in g.doc["messages"].as_array().unwrap().iter().zip(&g.bodies) {
      match r.messages.iter().find(|m| d["description"] == m.description) { Some(m) => check_body("contents", &m.contents, &b[0])?, None => return violated("interaction-lost", d.to_string()) }
    }
    same(&format!("{} and back", what), &strip(g.doc.clone()), &strip(write(&r, PactSpecification::V3)?))?;
    // (a pact with no interactions does not say which kind it is)
    if !g.bodies.is_empty() { same(&format!("{} written down", what), &strip(g.doc.clone()), &strip(write(q.as_ref(), PactSpecification::V3)?))?; }
  }
  for d in g.doc["messages"].as_array().unwrap() { cx.tick("messages taken to V4 and back"); cx.saw(d.to_string()); }
  Ok(())
}

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> { v.sort(); v }

fn v4_down_case(cx: &mut Cx) -> Verdict {
  let g = gen::pact_v4(&mut cx.rng);
  let p = load(&g.doc)?;
  let kinds: std::collections::BTreeSet<String> = g.doc["interactions"].as_array().unwrap().iter().map(|i| i["type"].as_str().unwrap().to_string()).collect();
  let target = *cx.rng.pick(&[PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3]);
  cx.note(format!("{:?} {}", target, g.doc));
  if kinds.len() > 1 || kinds.contains("Synchronous/Messages") {
    ensure!(p.to_json(target).is_err(), "impossible-downgrade", "{:?} interactions were written as {:?}", kinds, target);
    cx.tick("impossible downgrades refused");
  }
  // the parts an older model can hold are taken over unchanged
  for i in p.interactions() {
    if let Some(h) = i.as_v4_http() {
      let r = match i.as_request_response() { Some(r) => r, None => return violated("as-request-response", "HTTP interaction refused") };
      ensure!(r.description == h.description && r.provider_states == h.provider_states && r.id == h.id, "attributes", "{:?} vs {:?}", h, r);
      ensure!(r.request.method == h.request.method && r.request.path == h.request.path && r.request.query == h.request.query && r.request.headers == h.request.headers
        && r.request.body == h.request.body && r.request.generators == h.request.generators && r.request.matching_rules == h.request.matching_rules, "request", "{:?} vs {:?}", h.request, r.request);
      ensure!(r.response.status == h.response.status && r.response.headers == h.response.headers && r.response.body == h.response.body
        && r.response.generators == h.response.generators && r.response.matching_rules == h.response.matching_rules, "response", "{:?} vs {:?}", h.response, r.response);
      let u = r.as_v4_http().unwrap();
      ensure!(u.request == h.request && u.response == h.response && u.provider_states == h.provider_states, "up-again", "{:?} vs {:?}", h, u);
      cx.tick("V4 HTTP interactions taken down");
    } else if let Some(m) = i.as_v4_async_message() {
      let r = match i.as_message() { Some(r) => r, None => return violated("as-message", "message refused") };
      ensure!(r.description == m.description && r.provider_states == m.provider_states && r.contents == m.contents.contents && r.generators == m.contents.generators, "message", "{:?} vs {:?}", m, r);
      for (k, v) in &m.contents.metadata { ensure!(r.metadata.get(k) == Some(v), "message-metadata", "{} {:?} vs {:?}", k, v, r.metadata.get(k)); }
      for (k, v) in r.metadata.iter().filter(|(k, _)| !m.contents.metadata.contains_key(*k)) {
        let ct = m.contents.contents.content_type().map(|c| c.to_string());
        ensure!(k == "contentType" && ct.is_some() && v.as_str() == ct.as_deref(), "message-metadata", "{} {} of contents of type {:?}", k, v, ct);
        cx.tick("content types made explicit");
      }
      ensure!(Interaction::content_type(&r) == Interaction::content_type(&m), "content-type", "{:?} became {:?}", Interaction::content_type(&m), Interaction::content_type(&r));
      ensure!(r.matching_rules.rename("body", "content") == m.contents.matching_rules, "matching-rules", "{:?} vs {:?}", m.contents.matching_rules, r.matching_rules);
      let u = r.as_v4_async_message().unwrap();
      ensure!(u.contents.matching_rules == m.contents.matching_rules && u.contents.contents == m.contents.contents && u.contents.generators == m.contents.generators, "up-again", "{:?} vs {:?}", m, u);
      cx.tick("V4 messages taken down");
    } else {
      ensure!(i.as_request_response().is_none() && i.as_message().is_none(), "sync-message-down", "a synchronous message was converted to a V3 interaction");
    }
    cx.saw(format!("{:?}", i));
  }
  // what the metadata says is kept, as text
  for (what, md) in [("HTTP", ok(p.as_request_response_pact(), "rr")?.metadata), ("message", ok(p.as_message_pact(), "mp")?.metadata)] {
    for (k, v) in g.doc["metadata"].as_object().unwrap() {
      let Value::Object(m) = v else { continue };
      if k == "pactSpecification" || k == "pactRust" { continue }
      let want: BTreeMap<String, String> = m.iter().map(|(k, v)| (k.clone(), match v { Value::String(s) => s.clone(), Value::Null => String::new(), v => v.to_string() })).collect();
      ensure!(md.get(k) == Some(&want), "metadata-lost", "metadata {}: {} is {:?} in the {} pact", k, v, md.get(k), what);
      cx.tick("metadata taken down");
    }
  }
  let names = |v: Vec<String>| sorted(v);
  let of = |t: &str| names(g.doc["interactions"].as_array().unwrap().iter().filter(|i| i["type"] == t).map(|i| i["description"].as_str().unwrap().to_string()).collect());
  ensure!(names(ok(p.as_request_response_pact(), "rr")?.interactions.iter().map(|i| i.description.clone()).collect()) == of("Synchronous/HTTP"), "rr-pact", "HTTP interactions of the pact");
  ensure!(names(ok(p.as_message_pact(), "mp")?.messages.iter().map(|i| i.description.clone()).collect()) == of("Asynchronous/Messages"), "message-pact", "messages of the pact");
  // and so is the file, when there is only one kind
  if kinds.len() == 1 && !kinds.contains("Synchronous/Messages") && target == PactSpecification::V3 {
    let j = write(p.as_ref(), PactSpecification::V3)?;
    cx.note(format!("V3 {}", j));
    ensure!(j["metadata"]["pactSpecification"]["version"] == "3.0.0", "version-stamp", "{}", j["metadata"]);
    let q = load(&j)?;
    let k: BTreeMap<String, &Value> = g.doc["interactions"].as_array().unwrap().iter().map(|i| (i["description"].as_str().unwrap().to_string(), i)).collect();
    ensure!(q.interactions().len() == k.len(), "interaction-lost", "{} of {}", q.interactions().len(), k.len());
    for i in q.interactions() {
      let src = k[&i.description()];
      if let Some(r) = i.as_request_response() {
        ensure!(r.request.method == src["request"]["method"].as_str().unwrap() && r.request.path == src["request"]["path"].as_str().unwrap() && r.response.status as i64 == src["response"]["status"].as_i64().unwrap(), "file-attributes", "{:?} vs {}", r, src);
        // each body as its value, its text, or the encoding of its bytes
        let h = p.interactions().iter().find(|x| x.description() == i.description()).and_then(|x| x.as_v4_http()).unwrap();
        let out = j["interactions"].as_array().unwrap().iter().find(|x| x["description"] == i.description()).unwrap();
        for (part, body, ct, w) in [("request", &h.request.body, h.request.content_type(), out["request"].get("body")), ("response", &h.response.body, h.response.content_type(), out["response"].get("body"))] {
          let want = match body {
            OptionalBody::Missing => None, OptionalBody::Empty => Some(json!("")), OptionalBody::Null => Some(Value::Null),
            OptionalBody::Present(b, ..) => Some(if ct.unwrap_or_default().is_json() { serde_json::from_slice(b).unwrap_or_else(|_| json!(b64(b))) } else { match std::str::from_utf8(b) { Ok(s) => json!(s), Err(_) => { cx.tick("binary bodies written as V3"); json!(b64(b)) } } }) };
          ensure!(w == want.as_ref(), "file-body", "the body of the {part} {:?} is written as {:?} and not {:?}", body, w, want);
        }
        cx.tick("V4 HTTP written as V3");
      } else if let Some(r) = i.as_message() {
        let m = p.interactions().iter().find(|x| x.description() == i.description()).and_then(|x| x.as_v4_async_message()).unwrap();
        let json = m.contents.contents.content_type().map(|c| c.is_json()).unwrap_or(false);
        let (a, b) = (&m.contents.contents, &r.contents);
        let value = |b: &OptionalBody| b.value().and_then(|b| serde_json::from_slice::<Value>(&b).ok());
        // (JSON strings can be spelled two ways)
        let alike = a.value() == b.value() || json && value(a).is_some() && value(a) == value(b);
        ensure!(alike || json && value(a).map(|v| v.is_string()).unwrap_or(true), "file-contents", "contents {:?} became {:?}", m.contents.contents, r.contents);
        let (a, b) = (Interaction::content_type(&m).map(|c| c.to_string()), Interaction::content_type(&r).map(|c| c.to_string()));
        ensure!(m.contents.contents.content_type().is_none() || a == b, "content-type", "{:?} became {:?}", a, b);
        cx.tick("V4 messages written as V3");
      }
    }
  }
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P06", level: "exploration",
    rule: "Seeded V1-V3 documents converted to V4 (model, file) and back, V1/V2 documents re-written at V3 and back, V4 pacts taken down to older models; compared with the source document. Non-trivial: each distinct interaction converted.",
    assumptions: vec!["A content type a message was read with may become an explicit metadata entry when it passes through V4."],
    phases: vec![phase("http", 3000, old_case), phase("versions", 2000, version_case), phase("messages", 2000, message_case), phase("v4-down", 3000, v4_down_case)],
    floors: vec![("HTTP interactions taken to V4 and back", 1500), ("messages taken to V4 and back", 1500), ("V4 HTTP interactions taken down", 1500), ("V4 messages taken down", 1000), ("impossible downgrades refused", 500), ("interactions re-written at V3", 1000), ("message rule lists converted", 500)],
    probes: vec![]
  }
}
