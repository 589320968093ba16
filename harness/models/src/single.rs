//! A pact read through every door and in every part (P27); conflicts and differences between
//! interactions against the changes made (P28).
use std::collections::HashMap;
use moncore::*;
use moncore::pred::{json_diff, short};
use pact_models::bodies::OptionalBody;
use pact_models::interaction::{http_interaction_from_json, message_interaction_from_json, Interaction};
use pact_models::matchingrules::{MatchingRule, RuleLogic};
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{load_pact_from_json, read_pact, read_pact_from_file, Pact, ReadWritePact};
use pact_models::path_exp::DocPath;
use pact_models::provider_states::ProviderState;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::interaction::{interaction_from_json, interactions_from_json};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::{DifferenceType, PactSpecification};
use crate::gen;
use crate::rt::spec_of;

/// Everything that can be told about a pact from outside
fn account(p: &dyn Pact, spec: PactSpecification) -> Result<Value, String> {
  Ok(json!({
    "consumer": p.consumer().name, "provider": p.provider().name, "spec": p.specification_version().to_string(),
    "ids": p.interactions().iter().map(|i| i.id()).collect::<Vec<_>>(),
    "types": p.interactions().iter().map(|i| i.type_of()).collect::<Vec<_>>(),
    "descriptions": p.interactions().iter().map(|i| i.description()).collect::<Vec<_>>(),
    "states": p.interactions().iter().map(|i| i.provider_states().iter().map(|s| s.to_json()).collect::<Vec<_>>()).collect::<Vec<_>>(),
    "contents": p.interactions().iter().map(|i| format!("{:?}", i.contents_for_verification())).collect::<Vec<_>>(),
    "pending": p.interactions().iter().map(|i| i.pending()).collect::<Vec<_>>(),
    "plugins": p.plugin_data().iter().map(|d| (d.name.clone(), d.version.clone())).collect::<Vec<_>>(),
    "metadata": p.metadata(),
    "document": p.to_json(spec).map_err(|e| e.to_string())?
  }))
}

fn part(what: &str, ok: bool, d: &Value, got: String, want: String) -> Verdict {
  ensure!(ok, "part-differs", "the {} read on its own from {} is {}, in the interaction it is {}", what, short(d), got, want);
  Ok(())
}

/// One interaction, as it is in the pact, against the same read on its own
fn alone(cx: &mut Cx, n: usize, d: &Value, whole: &dyn Interaction, spec: PactSpecification, message: bool) -> Verdict {
  let default = |n: usize| format!("{} {}", if message && spec != PactSpecification::V4 { "Message" } else { "Interaction" }, n);
  let named = |n: usize| d.get("description").map(|v| v.as_str().unwrap_or("?").to_string()).unwrap_or(default(n));
  ensure!(whole.description() == named(n), "description", "interaction {} {} is called {:?}", n, short(d), whole.description());
  if d.get("description").is_none() { cx.tick("interactions without a description") }
  // under the name the pact gave it, it must be the same altogether
  let same = |what: &str, i: &dyn Interaction, at: usize| -> Verdict {
    ensure!(i.description() == named(at), "description", "{} of {} is called {:?}, should be {:?}", what, short(d), i.description(), named(at));
    let mut i = i.boxed();
    i.set_description(&whole.description());
    ensure!(i.type_of() == whole.type_of() && i.id() == whole.id() && i.provider_states() == whole.provider_states() && i.pending() == whole.pending(), "interaction-differs",
      "{} of {} is {:?}, in the pact it is {:?}", what, short(d), i, whole);
    let equal = match (i.as_v4(), whole.as_v4()) { (Some(a), Some(b)) => json_diff("$", &a.to_json(), &b.to_json()).is_none() && a == b, _ => false };
    ensure!(equal, "interaction-differs", "{} of {} is {:?}, in the pact it is {:?}", what, short(d), i, whole);
    if spec != PactSpecification::V4 {
      let equal = match message { true => i.as_message() == whole.as_message(), false => i.as_request_response() == whole.as_request_response() };
      ensure!(equal, "interaction-differs", "{} of {} is {:?}, in the pact it is {:?}", what, short(d), i, whole);
    }
    Ok(())
  };
  let read = |what: &str, r: anyhow::Result<Box<dyn Interaction + Send + Sync + std::panic::RefUnwindSafe>>| match r { Ok(i) => Ok(i), Err(e) => violated("refused", format!("{} refused {}: {}", what, short(d), e)) };
  let index = 3 + n;
  if spec == PactSpecification::V4 {
    same("interaction_from_json", interaction_from_json("gen", index, d).or_else(|e| violated("refused", e.to_string()))?.to_super(), index)?;
    same("http_interaction_from_json", read("http_interaction_from_json", http_interaction_from_json("gen", d, &spec))?.as_ref(), 0)?;
    same("message_interaction_from_json", read("message_interaction_from_json", message_interaction_from_json("gen", d, &spec))?.as_ref(), 0)?;
    if let Some(h) = whole.as_v4_http() {
      match SynchronousHttp::from_json(d, index) { Ok(i) => same("SynchronousHttp::from_json", &i, index)?, Err(e) => return violated("refused", e.to_string()) }
      let q = HttpRequest::from_json(&d["request"]).map_err(|e| Violation::new("refused", e.to_string()))?;
      part("request", q == h.request, d, format!("{:?}", q), format!("{:?}", h.request))?;
      let s = HttpResponse::from_json(&d["response"]).map_err(|e| Violation::new("refused", e.to_string()))?;
      part("response", s == h.response, d, format!("{:?}", s), format!("{:?}", h.response))?;
    } else if let Some(m) = whole.as_v4_async_message() {
      match AsynchronousMessage::from_json(d, index) { Ok(i) => same("AsynchronousMessage::from_json", &i, index)?, Err(e) => return violated("refused", e.to_string()) }
      let c = MessageContents::from_json(d).map_err(|e| Violation::new("refused", e.to_string()))?;
      part("contents", c == m.contents, d, format!("{:?}", c), format!("{:?}", m.contents))?;
    } else if let Some(m) = whole.as_v4_sync_message() {
      match SynchronousMessage::from_json(d, index) { Ok(i) => same("SynchronousMessage::from_json", &i, index)?, Err(e) => return violated("refused", e.to_string()) }
      let c = MessageContents::from_json(&d["request"]).map_err(|e| Violation::new("refused", e.to_string()))?;
      part("request", c == m.request, d, format!("{:?}", c), format!("{:?}", m.request))?;
      let list = d["response"].as_array().cloned().unwrap_or_default();
      ensure!(list.len() == m.response.len(), "part-differs", "{} responses of {}", m.response.len(), short(d));
      for (x, y) in list.iter().zip(&m.response) {
        let c = MessageContents::from_json(x).map_err(|e| Violation::new("refused", e.to_string()))?;
        part("response", c == *y, d, format!("{:?}", c), format!("{:?}", y))?;
      }
      // the first response is the one verified
      let want = m.response.first().map(|r| r.contents.clone()).unwrap_or_default();
      ensure!(whole.contents_for_verification() == want, "contents-for-verification", "{:?} of {}", whole.contents_for_verification(), short(d));
    } else { return violated("kind", format!("{:?}", whole)) }
  } else if message {
    match Message::from_json(index, d, &spec) { Ok(i) => same("Message::from_json", &i, index)?, Err(e) => return violated("refused", e.to_string()) }
    same("message_interaction_from_json", read("message_interaction_from_json", message_interaction_from_json("gen", d, &spec))?.as_ref(), 0)?;
    ensure!(whole.contents_for_verification() == whole.as_message().unwrap().contents, "contents-for-verification", "{:?}", whole.contents_for_verification());
  } else {
    let h = whole.as_request_response().unwrap();
    match RequestResponseInteraction::from_json(index, d, &spec) { Ok(i) => same("RequestResponseInteraction::from_json", &i, index)?, Err(e) => return violated("refused", e.to_string()) }
    same("http_interaction_from_json", read("http_interaction_from_json", http_interaction_from_json("gen", d, &spec))?.as_ref(), 0)?;
    let q = Request::from_json(&d["request"], &spec).map_err(|e| Violation::new("refused", e.to_string()))?;
    part("request", q == h.request, d, format!("{:?}", q), format!("{:?}", h.request))?;
    let s = Response::from_json(&d["response"], &spec).map_err(|e| Violation::new("refused", e.to_string()))?;
    part("response", s == h.response, d, format!("{:?}", s), format!("{:?}", h.response))?;
    ensure!(whole.contents_for_verification() == h.response.body, "contents-for-verification", "{:?}", whole.contents_for_verification());
  }
  cx.tick("interactions read on their own");
  Ok(())
}

fn doors_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let (mut doc, spec, message) = match r.below(5) {
    0 | 1 => { let s = *r.pick(&gen::SPECS); (gen::pact_v123(r, s).doc, spec_of(s), false) }
    2 => (gen::message_pact_v3(r).doc, PactSpecification::V3, true),
    _ => (gen::pact_v4(r).doc, PactSpecification::V4, false)
  };
  let list = if message { "messages" } else { "interactions" };
  for i in doc[list].as_array_mut().unwrap() {
    if r.chance(1, 5) { i.as_object_mut().unwrap().remove("description"); }
    if r.chance(1, 4) { i["_id"] = json!(gen::word(r)); }
  }
  cx.note(format!("{}", doc));
  let refused = |what: &str, e: String| -> Violation { Violation::new("refused", format!("{}: {}", what, e)) };
  let p = load_pact_from_json("gen", &doc).map_err(|e| refused("load_pact_from_json", e.to_string()))?;
  let want = account(p.as_ref(), spec).map_err(|e| refused("writing", e))?;
  let ids: Vec<Option<&str>> = doc[list].as_array().unwrap().iter().map(|i| i.get("_id").and_then(|i| i.as_str())).collect();
  ensure!(want["ids"] == json!(ids), "ids", "{} for {:?}", want["ids"], ids);
  // every door
  let path = cx.scratch.join(format!("doors-{}.json", cx.case));
  let text = if r.bool() { doc.to_string() } else { serde_json::to_string_pretty(&doc).unwrap() };
  std::fs::write(&path, &text).unwrap();
  let mut seen: Vec<(&str, Result<Value, String>)> = vec![];
  { let mut door = |what: &'static str, p: anyhow::Result<Box<dyn Pact>>| seen.push((what, p.map_err(|e| e.to_string()).and_then(|p| account(p.as_ref(), spec))));
    door("read_pact", read_pact(&path).map(|p| p as Box<dyn Pact>));
    door("read_pact_from_file", std::fs::File::open(&path).map_err(|e| e.into()).and_then(|mut f| read_pact_from_file(&mut f, &path)).map(|p| p as Box<dyn Pact>));
    if spec == PactSpecification::V4 {
      door("V4Pact::read_pact", V4Pact::read_pact(&path).map(|p| Box::new(p) as Box<dyn Pact>));
      door("V4Pact::pact_from_json", V4Pact::pact_from_json(&doc, "gen").map(|p| Box::new(p) as Box<dyn Pact>));
      door("v4::pact::from_json", pact_models::v4::pact::from_json("gen", &doc).map(|p| p as Box<dyn Pact>));
      let all = interactions_from_json(&doc, "gen").map_err(|e| refused("interactions_from_json", e.to_string()))?;
      let v4 = p.as_v4_pact().map_err(|e| refused("as_v4_pact", e.to_string()))?;
      ensure!(all == v4.interactions, "interactions-differ", "{:?} and {:?}", all, v4.interactions);
    } else if message {
      door("MessagePact::read_pact", MessagePact::read_pact(&path).map(|p| Box::new(p) as Box<dyn Pact>));
      door("MessagePact::from_json", MessagePact::from_json("gen", &doc).map(|p| Box::new(p) as Box<dyn Pact>));
    } else {
      door("RequestResponsePact::read_pact", RequestResponsePact::read_pact(&path).map(|p| Box::new(p) as Box<dyn Pact>));
      door("RequestResponsePact::from_json", RequestResponsePact::from_json("gen", &doc).map(|p| Box::new(p) as Box<dyn Pact>));
    } }
  for (what, got) in seen {
    let got = got.map_err(|e| refused(what, e))?;
    if let Some(d) = json_diff("$", &want, &got) { std::fs::remove_file(&path).ok(); return violated("door-differs", format!("{} differs from load_pact_from_json: {}", what, d)) }
    cx.tick("pacts read through another door");
  }
  // a file that was cut short is refused
  let cut = { let mut n = r.us(text.trim_end().len()); while !text.is_char_boundary(n) { n -= 1 } n };
  std::fs::write(&path, &text[..cut]).unwrap();
  let got = read_pact(&path);
  std::fs::remove_file(&path).ok();
  ensure!(got.is_err(), "cut-short", "the first {} bytes of {} read as a pact", cut, text.len());
  cx.tick("files cut short");
  // every part
  for (n, (d, i)) in doc[list].as_array().unwrap().iter().zip(p.interactions()).enumerate() { alone(cx, n, d, i.as_ref(), spec, message)?; }
  cx.saw(doc.to_string());
  cx.sample(|| doc.clone());
  Ok(())
}

pub fn doors() -> Property {
  Property {
    id: "P27", level: "exploration",
    rule: "Everything observable of a pact loaded from its document against the same document read through each other reader, and every interaction, request, response and contents in it against the same fragment read on its own; truncated files must be refused.",
    assumptions: vec!["the document loaded as a whole is judged by P01 and P02"],
    phases: vec![phase("doors", 8_000, doors_case)],
    floors: vec![("pacts read through another door", 20_000), ("files cut short", 6_000), ("interactions read on their own", 8_000), ("interactions without a description", 1_000)],
    probes: vec![]
  }
}

// ---------------------------------------------------------------- conflicts

fn other_text(r: &mut Rng, old: &str) -> String { loop { let t = match r.below(4) { 0 => old.to_string() + "x", 1 => old.chars().skip(1).collect(), 2 => format!(" {}", old), _ => gen::text1(r) }; if t != old { return t } } }

fn other_headers(r: &mut Rng, h: &Option<HashMap<String, Vec<String>>>) -> Option<HashMap<String, Vec<String>>> {
  let mut m = h.clone().unwrap_or_default();
  let keys: Vec<String> = { let mut k: Vec<String> = m.keys().cloned().collect(); k.sort(); k };
  if keys.is_empty() || r.chance(1, 3) { m.insert("X-Another".into(), vec![gen::word(r)]); }
  else {
    let k = r.pick(&keys).clone();
    match r.below(4) {
      0 => { m.remove(&k); }
      1 => { m.get_mut(&k).unwrap().push("more".into()); }
      2 => { let v = m.remove(&k).unwrap(); m.insert(k + "-X", v); }
      _ => { let v = m.get_mut(&k).unwrap(); if v.is_empty() { v.push("a".into()) } else { let n = r.us(v.len()); v[n] = other_text(r, &v[n].clone()); } }
    }
  }
  Some(m)
}
fn other_body(r: &mut Rng, b: &OptionalBody) -> OptionalBody {
  loop {
    let n = match r.below(4) {
      0 => OptionalBody::Missing, 1 => OptionalBody::Null,
      2 => match b { OptionalBody::Present(x, t, h) => { let mut v = x.to_vec(); v.push(b'!'); OptionalBody::Present(v.into(), t.clone(), h.clone()) } _ => OptionalBody::from("{}") },
      _ => OptionalBody::from(gen::word(r).as_str())
    };
    if n.value() != b.value() || matches!((&n, b), (OptionalBody::Present(..), x) | (x, OptionalBody::Present(..)) if !matches!(x, OptionalBody::Present(..))) || std::mem::discriminant(&n) != std::mem::discriminant(b) { return n }
  }
}

fn loaded(r: &mut Rng) -> RequestResponseInteraction {
  loop {
    let s = *r.pick(&gen::SPECS);
    let doc = gen::pact_v123(r, s).doc;
    if let Ok(p) = RequestResponsePact::from_json("gen", &doc) { if let Some(i) = p.interactions.into_iter().next() { return i } }
  }
}

fn conflict_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let a = loaded(r);
  let mut b = a.clone();
  let (mut req, mut res): (Vec<&str>, Vec<&str>) = (vec![], vec![]);
  let p = r.range(1, 6);
  let mut other = false;
  macro_rules! maybe { ($list:ident, $name:literal, $do:expr) => { if r.chance(1, (2 + p) as u64) { $do; $list.push($name) } } }
  maybe!(req, "Method", b.request.method = other_text(r, &a.request.method.to_uppercase()));
  maybe!(req, "Path", b.request.path = other_text(r, &a.request.path));
  maybe!(req, "QueryParameters", {
    let mut q = b.request.query.clone().unwrap_or_default();
    let mut keys: Vec<String> = q.keys().cloned().collect(); keys.sort();
    match (keys.is_empty(), r.below(3)) { (true, _) | (_, 0) => { q.insert("another".into(), vec![Some("1".into())]); } (_, 1) => { let k = r.pick(&keys).clone(); q.remove(&k); } _ => { let k = r.pick(&keys).clone(); q.get_mut(&k).unwrap().push(None); } }
    b.request.query = if q.is_empty() { None } else { Some(q) };
  });
  maybe!(req, "Headers", b.request.headers = other_headers(r, &a.request.headers));
  maybe!(req, "Body", b.request.body = other_body(r, &a.request.body));
  maybe!(req, "MatchingRules", { b.request.matching_rules.add_category("body").add_rule(DocPath::root().join("another"), MatchingRule::MinType(31), RuleLogic::And); });
  maybe!(res, "Status", b.response.status = if a.response.status == 200 { 599 } else { a.response.status ^ 1 });
  maybe!(res, "Headers", b.response.headers = other_headers(r, &a.response.headers));
  maybe!(res, "Body", b.response.body = other_body(r, &a.response.body));
  maybe!(res, "MatchingRules", { b.response.matching_rules.add_category("header").add_rule(DocPath::root().join("another"), MatchingRule::Boolean, RuleLogic::And); });
  if r.chance(1, 5) {
    other = true;
    if r.bool() { b.description = other_text(r, &a.description) }
    else if b.provider_states.is_empty() || r.bool() { b.provider_states.push(ProviderState::default(gen::text1(r))) }
    else if r.bool() { b.provider_states[0].name.push('x') } else { b.provider_states[0].params.insert("another".into(), json!(1)); }
  }
  cx.note(format!("changed request {:?} response {:?} other {}: {:?} and {:?}", req, res, other, a, b));
  let name = |d: &DifferenceType| format!("{:?}", d);
  for (x, y, way) in [(&a, &b, "first to second"), (&b, &a, "second to first")] {
    let d = x.request.differences_from(&y.request);
    let mut got: Vec<String> = d.iter().map(|d| name(&d.0)).collect(); got.sort();
    let mut want = req.clone(); want.sort();
    ensure!(got == want, "request-differences", "{}: the requests differ in {:?}, changed were {:?}", way, got, want);
    let d = x.response.differences_from(&y.response);
    let mut got: Vec<String> = d.iter().map(|d| name(&d.0)).collect(); got.sort();
    let mut want = res.clone(); want.sort();
    ensure!(got == want, "response-differences", "{}: the responses differ in {:?}, changed were {:?}", way, got, want);
    let c = x.conflicts_with(y);
    let n = if other { 0 } else { req.iter().filter(|n| ["Method", "Path", "QueryParameters"].contains(n)).count() + res.iter().filter(|n| **n == "Status").count() };
    ensure!(c.len() == n, "conflicts", "{}: {} conflicts {:?}, {} were made", way, c.len(), c, n);
    for c in &c { ensure!(c.interaction == x.description, "conflict-name", "{:?} is about {:?}", c, x.description); }
    let says = |t: String| c.iter().any(|c| c.description.contains(&t));
    if !other {
      if req.contains(&"Path") { ensure!(says(format!("{} != {}", x.request.path, y.request.path)), "conflict-text", "{:?} does not name the paths", c); }
      if req.contains(&"Method") { ensure!(says(format!("{} != {}", x.request.method, y.request.method)), "conflict-text", "{:?} does not name the methods", c); }
      if res.contains(&"Status") { ensure!(says(format!("{} != {}", x.response.status, y.response.status)), "conflict-text", "{:?} does not name the statuses", c); }
    }
    // and pacts holding them do not merge
    let pact = |i: &RequestResponseInteraction| RequestResponsePact { interactions: vec![i.clone()], ..RequestResponsePact::default() };
    let m = pact(x).merge(&pact(y));
    ensure!(m.is_err() == (n > 0), "merge", "{}: merging gave {:?} with {} conflicts", way, m, n);
    let messages = x.conflicts_with(&Message::default());
    ensure!(messages.len() == 1 && messages[0].interaction == x.description, "message-conflict", "{:?}", messages);
  }
  for x in &req { cx.tick(match *x { "Method" => "methods changed", "Path" => "paths changed", "QueryParameters" => "queries changed", "Headers" => "request headers changed", "Body" => "request bodies changed", _ => "request rules changed" }); }
  for x in &res { cx.tick(match *x { "Status" => "statuses changed", "Headers" => "response headers changed", "Body" => "response bodies changed", _ => "response rules changed" }); }
  if other { cx.tick("another description or state") }
  if req.is_empty() && res.is_empty() { cx.tick("nothing changed") }
  cx.saw((req, res, other, a.to_json(&PactSpecification::V3).to_string()));
  Ok(())
}

pub fn conflicts() -> Property {
  Property {
    id: "P28", level: "exploration",
    rule: "The differences and conflicts reported between an interaction and a copy of it with a chosen set of changes, both ways round, against exactly that set; pacts holding the two merge only where there is no conflict.",
    assumptions: vec!["methods differing only in case are the same method"],
    phases: vec![phase("changes", 20_000, conflict_case)],
    floors: vec![("methods changed", 2_000), ("paths changed", 2_000), ("queries changed", 2_000), ("request headers changed", 2_000), ("request bodies changed", 2_000), ("request rules changed", 2_000), ("statuses changed", 2_000), ("response headers changed", 2_000), ("response bodies changed", 2_000), ("response rules changed", 2_000), ("another description or state", 2_000), ("nothing changed", 1_000)],
    probes: vec![]
  }
}
