//! Messages: metadata, several responses, and which kinds of interaction can be compared
use moncore::*;
use pact_matching::{match_interaction, match_interaction_request, match_interaction_response, match_message, match_sync_message, match_sync_message_request, match_sync_message_response, Mismatch};
use pact_models::interaction::{http_interaction_from_json, message_interaction_from_json};
use pact_models::pact::Pact;
use pact_models::v4::interaction::interaction_from_json;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::PactSpecification;

use crate::body;
use crate::tmpl::{self, step, Node};
use crate::util::*;

/// One entry of the metadata and what may stand in its place
#[derive(Clone, Debug)]
struct Item { key: String, rules: Option<(Vec<Value>, &'static str)>, ex: Value, ok: Vec<Value>, bad: Vec<Value>, label: &'static str }
/// One side of a message: its metadata and its contents, if any
#[derive(Clone, Debug)]
struct Side { items: Vec<Item>, body: Option<Node> }

const KEYS: [&str; 14] = ["id", "topic", "routing-key", "a.b", "with space", "ünï", "1", "UPPER", "upper", "x_y", "type", "content", "$ref", "traceparent"];
/// content types: (expected, also right, wrong)
const TYPES: [(&str, &[&str], &[&str]); 4] = [
  ("application/json;charset=utf-8", &["application/json;charset=utf-8", "application/json; charset=UTF-8", "application/json;v=1;charset=utf-8"], &["application/json", "application/json;charset=utf-16", "text/plain", ""]),
  ("application/json", &["application/json", "application/json;v=2"], &["application/xml", "application/json5", "json"]),
  ("text/plain", &["text/plain", "text/plain; charset=utf-8"], &["text/html", "plain", "text/*"]),
  ("application/vnd.a+json;v=1", &["application/vnd.a+json;v=1", "application/vnd.a+json; v=1;w=2"], &["application/vnd.a+json", "application/vnd.a+json;v=2", "application/vnd.b+json;v=1"])];

fn any_case(r: &mut Rng, s: &str) -> String { match r.below(3) { 0 => s.to_lowercase(), 1 => s.to_uppercase(), _ => s.into() } }

fn side(r: &mut Rng, v3: bool) -> Side {
  let mut names = KEYS.to_vec(); r.shuffle(&mut names);
  let mut items: Vec<Item> = names[..r.us(5)].iter().map(|k| { let Node::Leaf { label, ex, rules, ok, bad } = tmpl::leaf(r, false) else { unreachable!() }; Item { key: k.to_string(), rules, ex, ok, bad, label } }).collect();
  let body = if r.chance(1, 4) { let (ex, ok, bad) = *r.pick(&TYPES); let k = if r.bool() { any_case(r, "contentType") } else { any_case(r, "Content-Type") };
      let v = |l: &[&str]| l.iter().map(|s| json!(s)).collect::<Vec<_>>();
      let ruled = r.chance(1, 5);
      items.push(if ruled { Item { key: k, rules: Some((vec![json!({"match": "regex", "regex": "^[a-z]+/.*$"})], "AND")), ex: json!(ex), ok: v(&["a/b", ex]), bad: v(&["", "A/b", "1/x"]), label: "content type by a rule" } }
        else if r.chance(1, 6) { Item { key: k, rules: None, ex: json!([ex]), ok: vec![json!([ex])], bad: vec![json!([]), json!(["a/b"]), json!("a/b"), json!(1), Value::Null], label: "content type in a list" } }
        else if r.chance(1, 4) { Item { key: k, rules: None, ex: json!(ex), ok: v(ok), bad: vec![Value::Null, json!(1), json!({}), json!(["a/b"]), json!(true)], label: "content type replaced" } }
        else { Item { key: k, rules: None, ex: json!(ex), ok: v(ok), bad: v(bad), label: "content type" } });
      None }
    else { loop { let n = body::gen(r); let e = tmpl::example(&n); if !v3 || e.is_object() || e.is_array() { break Some(n) } } };
  Side { items, body }
}

impl Side {
  /// As it is written in a pact
  fn doc(&self, v3: bool, rules: bool) -> Value {
    let mut o = json!({}); let mut mr = json!({});
    if let Some(n) = &self.body { let e = tmpl::example(n); o["contents"] = if v3 { e } else { json!({"content": e, "contentType": "application/json", "encoded": false}) }; let m = body::rules_json(n); if !m.is_empty() { mr["body"] = Value::Object(m) } }
    if !self.items.is_empty() || v3 { o[if v3 { "metaData" } else { "metadata" }] = Value::Object(self.items.iter().map(|i| (i.key.clone(), i.ex.clone())).collect()) }
    for i in &self.items { if let Some((l, c)) = &i.rules { mr["metadata"][step("$", &i.key)] = json!({"matchers": l, "combine": c}) } }
    if rules { o["matchingRules"] = mr }
    o
  }
  /// An actual one, the entries of the metadata that differ, and whether the contents do
  fn actual(&self, r: &mut Rng, v3: bool, good: bool) -> (Value, Vec<String>, bool) {
    let mut o = json!({}); let mut bad = vec![]; let mut md = Map::new(); let mut b = false;
    let how = if good { 0 } else { r.range(1, 3) };
    for i in &self.items {
      let wrong = how & 1 == 1 && r.chance(1, 2);
      if wrong && r.chance(1, 3) { bad.push(i.key.clone()); if r.bool() { let k = if i.key.to_uppercase() == i.key { i.key.to_lowercase() } else { i.key.to_uppercase() }; if !self.items.iter().any(|j| j.key == k) { md.insert(k, i.ex.clone()); } } continue }
      if wrong && !i.bad.is_empty() { bad.push(i.key.clone()); md.insert(i.key.clone(), r.pick(&i.bad).clone()); } else { md.insert(i.key.clone(), if r.chance(1, 3) { i.ex.clone() } else { r.pick(&i.ok).clone() }); }
    }
    let mut extra = KEYS.to_vec(); extra.retain(|k| !self.items.iter().any(|i| i.key == *k));
    for _ in 0..r.us(3) { let k = r.pick(&extra).to_string(); md.entry(k).or_insert_with(|| tmpl::scalar(r)); }
    if let Some(n) = &self.body {
      let mut at = vec!["$".to_string()];
      let d = if how & 2 == 2 { tmpl::violate(n, r, true, &mut at).map(|v| v.doc).filter(|d| !v3 && !d.is_null() && d != "" || d.is_object() || d.is_array()) } else { None };
      b = d.is_some();
      let d = d.unwrap_or_else(|| { for _ in 0..4 { let d = tmpl::comply(n, r, true); if !v3 && !d.is_null() && d != "" || d.is_object() || d.is_array() { return d } } tmpl::example(n) });
      o["contents"] = if v3 { d } else { json!({"content": d, "contentType": "application/json", "encoded": false}) };
    }
    if !md.is_empty() || v3 { o[if v3 { "metaData" } else { "metadata" }] = Value::Object(md) }
    bad.sort();
    (o, bad, b)
  }
}

/// What is reported: the entries of the metadata, and whether anything else is about the contents
fn told(ms: &[Mismatch]) -> (Vec<String>, bool, Vec<&'static str>) {
  let mut k: Vec<String> = ms.iter().filter_map(|m| if let Mismatch::MetadataMismatch { key, .. } = m { Some(key.clone()) } else { None }).collect(); k.sort(); k.dedup();
  (k, ms.iter().any(|m| matches!(m, Mismatch::BodyMismatch { .. } | Mismatch::BodyTypeMismatch { .. })), kinds(ms).into_iter().filter(|k| !["metadata", "body", "body-type"].contains(k)).collect())
}
fn judge(ms: &[Mismatch], keys: &[String], body: bool, what: &dyn Fn() -> String) -> Verdict {
  let (k, b, other) = told(ms);
  for x in &k { ensure!(keys.contains(x), "metadata-refused", "the metadata '{x}' complies but is reported: {}; {}", show(ms), what()); }
  for x in keys { ensure!(k.contains(x), "metadata-missed", "the metadata '{x}' differs but is not reported: {}; {}", show(ms), what()); }
  ensure!(b == body, "contents", "the contents {} but {}: {}; {}", if body { "differ" } else { "comply" }, if b { "are reported" } else { "are not reported" }, show(ms), what());
  ensure!(other.is_empty(), "other", "a message is reported to differ in {other:?}: {}; {}", show(ms), what());
  for m in ms { if let Mismatch::MetadataMismatch { key, mismatch, .. } = m { ensure!(mismatch.contains(&format!("'{key}'")) && m.description().contains(key.as_str()), "unnamed", "the mismatch does not name the metadata '{key}': {mismatch}; {}", m.description()); } }
  Ok(())
}
fn v4() -> BoxP { V4Pact::default().boxed() }
fn wrap(kind: &str, o: &Value) -> Value { let mut o = o.clone(); o["type"] = json!(kind); o["description"] = json!("d"); o }
fn bad<T>(e: impl std::fmt::Display, o: &Value) -> Result<T, Violation> { violated("load", format!("{e}; {}", s(o))).map(|_: ()| unreachable!()) }
fn load_message(o: &Value, v3: bool) -> Result<BoxI, Violation> { match message_interaction_from_json("case", &if v3 { let mut o = o.clone(); o["description"] = json!("d"); o } else { wrap("Asynchronous/Messages", o) }, if v3 { &PactSpecification::V3 } else { &PactSpecification::V4 }) { Ok(i) => Ok(i), Err(e) => bad(e, o) } }
fn load_sync(o: &Value) -> Result<SynchronousMessage, Violation> { match interaction_from_json("case", 0, &wrap("Synchronous/Messages", o)) { Ok(i) => Ok(i.as_v4_sync_message().unwrap()), Err(e) => bad(e, o) } }

/// One message of either format
fn asynchronous(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let v3 = r.chance(1, 3); let sd = side(r, v3); let e = sd.doc(v3, true);
  let em = load_message(&e, v3)?; let p = v4();
  cx.saw((v3, sd.items.iter().map(|i| (i.label, i.key.clone())).collect::<Vec<_>>()));
  for n in 0..5 {
    let (a, keys, b) = if n == 0 { (sd.doc(v3, false), vec![], false) } else { sd.actual(r, v3, n < 3) };
    let what = || format!("{} expected {} actual {}", if v3 { "V3" } else { "V4" }, s(&e), s(&a));
    let am = load_message(&a, v3)?;
    let ms = match no_panic(std::panic::AssertUnwindSafe(|| wait(match_message(&em, &am, &p)))) { Ok(m) => m, Err(e) => return violated("panic", format!("{e}; {}", what())) };
    judge(&ms, &keys, b, &what)?;
    let mi = wait(match_interaction(load_message(&e, v3)?, am, v4(), &PactSpecification::V4)).map_err(|e| Violation { sig: "interaction".into(), detail: format!("{e}; {}", what()) })?;
    judge(&mi, &keys, b, &what)?;
    cx.add("metadata entries that differ", keys.len() as u64);
    cx.tick(if n == 0 { "messages matched with themselves" } else if keys.is_empty() && !b { "complying messages" } else { "differing messages" });
  }
  cx.sample(|| e.clone());
  Ok(())
}

/// Synchronous messages with any number of responses
fn synchronous(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let q = side(r, false); let rs: Vec<Side> = (0..r.us(4)).map(|_| side(r, false)).collect();
  let e = json!({"request": q.doc(false, true), "response": rs.iter().map(|x| x.doc(false, true)).collect::<Vec<_>>()});
  let em = load_sync(&e)?; let p = v4();
  ensure!(em.response.len() == rs.len(), "load", "{} responses loaded: {}", em.response.len(), s(&e));
  for n in 0..4 {
    let good = n == 0 || r.bool(); let (qa, qk, qb) = q.actual(r, false, good);
    let mut parts: Vec<_> = rs.iter().map(|x| { let good = n < 2 || r.bool(); x.actual(r, false, good) }).collect();
    if parts.len() > 1 && n == 1 { // each response is compared with the one at its place
      let k = parts.len(); let (a, b) = (r.us(k), r.us(k)); parts.swap(a, b);
      if a != b { // only judge that nothing panics and the request is right
        let a = json!({"request": qa, "response": parts.iter().map(|x| x.0.clone()).collect::<Vec<_>>()});
        let am = load_sync(&a)?; let one = |i: usize| wait(match_sync_message_response(&em, &em.response[i..i + 1], &am.response[i..i + 1], &p)).len();
        let each: usize = (0..k).map(one).sum(); let all = wait(match_sync_message_response(&em, &em.response, &am.response, &p)).len();
        ensure!(each == all, "response-places", "{all} mismatches for all responses and {each} for each at its place; expected {} actual {}", s(&e), s(&a));
        cx.tick("responses at other places"); continue } }
    let n_act = if n == 3 { r.us(5) } else { rs.len() };
    let mut acts: Vec<Value> = parts.iter().map(|x| x.0.clone()).collect(); acts.truncate(n_act); while acts.len() < n_act { let x = side(r, false); acts.push(x.doc(false, false)) }
    let a = json!({"request": qa, "response": acts});
    let what = || format!("expected {} actual {}", s(&e), s(&a));
    let am = load_sync(&a)?;
    let rq = wait(match_sync_message_request(&em, &am, &p)); judge(&rq, &qk, qb, &what)?;
    let resp = wait(match_sync_message_response(&em, &em.response, &am.response, &p));
    let all = match no_panic(std::panic::AssertUnwindSafe(|| wait(match_sync_message(em.clone(), am.clone(), &p)))) { Ok(m) => m, Err(e) => return violated("panic", format!("{e}; {}", what())) };
    ensure!(all.len() == rq.len() + resp.len(), "sum", "{} mismatches, but {} for the request and {} for the responses; {}", all.len(), rq.len(), resp.len(), what());
    if n_act == rs.len() {
      let mut keys: Vec<String> = parts.iter().flat_map(|x| x.1.clone()).collect(); keys.sort(); keys.dedup();
      judge(&resp, &keys, parts.iter().any(|x| x.2), &what)?;
      for (i, x) in parts.iter().enumerate() { judge(&wait(match_sync_message_response(&em, &em.response[i..i + 1], &am.response[i..i + 1], &p)), &x.1, x.2, &what)?; }
      cx.tick(if keys.is_empty() && !parts.iter().any(|x| x.2) { "complying responses" } else { "differing responses" });
    } else if rs.is_empty() { ensure!(resp.is_empty(), "no-responses", "no responses are expected but {}; {}", show(&resp), what()); cx.tick("unexpected responses"); }
    else { ensure!(kinds(&resp) == ["body-type"] && matches!(&resp[0], Mismatch::BodyTypeMismatch { mismatch, .. } if n_act == 0 || mismatch.contains(&rs.len().to_string()) && mismatch.contains(&n_act.to_string())), "response-count", "{} responses expected, {n_act} given, but {}; {}", rs.len(), show(&resp), what()); cx.tick("wrong numbers of responses"); }
    let mi = wait(match_interaction(em.boxed(), am.boxed(), v4(), &PactSpecification::V4)).map_err(|e| Violation { sig: "interaction".into(), detail: format!("{e}; {}", what()) })?;
    ensure!(told(&mi) == told(&all), "interaction", "matched as an interaction: {}; as a synchronous message: {}; {}", show(&mi), show(&all), what());
    cx.saw((rs.len(), n_act, q.items.len(), n));
  }
  Ok(())
}
use pact_models::interaction::Interaction;

/// Interactions are only compared with ones of their kind, and as the whole they are
fn interactions(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  const NAMES: [&str; 5] = ["V3 request/response", "V4 HTTP", "V3 message", "V4 message", "V4 synchronous message"];
  let doc = |k: usize, req: i64, resp: i64| -> Value { match k {
    0 => json!({"description": "d", "request": {"method": "GET", "path": format!("/{req}")}, "response": {"status": 200 + resp}}),
    1 => json!({"type": "Synchronous/HTTP", "description": "d", "request": {"method": "GET", "path": format!("/{req}")}, "response": {"status": 200 + resp}}),
    2 => json!({"description": "d", "contents": {"a": req}, "metaData": {"m": resp}}),
    3 => json!({"type": "Asynchronous/Messages", "description": "d", "contents": {"content": {"a": req}, "contentType": "application/json", "encoded": false}, "metadata": {"m": resp}}),
    _ => json!({"type": "Synchronous/Messages", "description": "d", "request": {"contents": {"content": {"a": req}, "contentType": "application/json", "encoded": false}}, "response": [{"metadata": {"m": resp}}]}) } };
  let load = |k: usize, req: i64, resp: i64| -> BoxI { let d = doc(k, req, resp); match k { 0 => http_interaction_from_json("case", &d, &PactSpecification::V3).unwrap(), 1 => http_interaction_from_json("case", &d, &PactSpecification::V4).unwrap(), 2 => message_interaction_from_json("case", &d, &PactSpecification::V3).unwrap(), 3 => message_interaction_from_json("case", &d, &PactSpecification::V4).unwrap(),
    _ => interaction_from_json("case", 0, &d).unwrap().as_v4_sync_message().unwrap().boxed() } };
  let (a, b) = (r.us(5), r.us(5)); let (q, t) = (r.range(0, 1), r.range(0, 1));
  let group = |k: usize| [0, 0, 1, 1, 2][k];
  let what = || format!("{} against {}, {} request or contents, {} response or metadata", NAMES[a], NAMES[b], if q == 0 { "same" } else { "different" }, if t == 0 { "same" } else { "different" });
  let run = |f: &dyn Fn() -> anyhow::Result<Vec<Mismatch>>| no_panic(std::panic::AssertUnwindSafe(f)).map_err(|e| Violation { sig: "panic".into(), detail: format!("{e}; {}", what()) });
  let m = run(&|| wait(match_interaction(load(a, 0, 0), load(b, q, t), v4(), &PactSpecification::V4)))?;
  let want: Vec<&str> = { let mut w = vec![]; match group(a) { 0 => { if q == 1 { w.push("path") } if t == 1 { w.push("status") } } _ => { if q == 1 { w.push("body") } if t == 1 { w.push("metadata") } } } w };
  if group(a) == group(b) {
    let m = m.map_err(|e| Violation { sig: "interaction".into(), detail: format!("{e}; {}", what()) })?;
    // a V4 message states the type of its contents in its metadata as well, a V3 message only if it is given there
    let m: Vec<Mismatch> = m.into_iter().filter(|m| !matches!(m, Mismatch::MetadataMismatch { key, .. } if key == "contentType" && (a, b) == (3, 2))).collect();
    ensure!(kinds(&m) == want, "interaction", "{}, but reported {}; {}", if want.is_empty() { "nothing differs".to_string() } else { format!("{want:?} differ") }, show(&m), what());
    cx.tick("interactions of the same kind");
  } else { ensure!(m.as_ref().map(|m| !m.is_empty()).unwrap_or(true), "kinds", "{} are accepted", what()); cx.tick("interactions of different kinds"); }
  let rq = run(&|| wait(match_interaction_request(load(a, 0, 0), load(b, q, t), v4(), &PactSpecification::V4)).map(|m| m.mismatches()))?;
  let rs = run(&|| wait(match_interaction_response(load(a, 0, 0), load(b, q, t), v4(), &PactSpecification::V4)))?;
  if group(a) == 0 && group(b) == 0 {
    ensure!(rq.as_ref().map(|m| kinds(m) == if q == 1 { vec!["path"] } else { vec![] }).unwrap_or(false), "request", "{:?}; {}", rq, what());
    ensure!(rs.as_ref().map(|m| kinds(m) == if t == 1 { vec!["status"] } else { vec![] }).unwrap_or(false), "response", "{:?}; {}", rs, what());
  } else { ensure!(rq.is_err() && rs.is_err(), "kinds", "the request or response of {} are compared: {:?} {:?}", what(), rq, rs); }
  cx.saw((a, b, q, t));
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P37", level: "exploration",
    rule: "Seeded messages of both formats and synchronous messages with up to three responses, with rules on metadata and contents; actual ones that comply, that differ in a known set of metadata entries and contents, and with other numbers of responses; every kind of interaction against every other. Non-trivial: each distinct set of entries and rules.",
    assumptions: vec!["Additional metadata is ignored, and keys of metadata are compared as they are written.", "A content type in the metadata is compared as a header with parameters."],
    phases: vec![phase("asynchronous", 4000, asynchronous), phase("synchronous", 2000, synchronous), phase("interactions", 600, interactions)],
    floors: vec![("messages matched with themselves", 3500), ("complying messages", 6000), ("differing messages", 4000), ("metadata entries that differ", 4000), ("complying responses", 800), ("differing responses", 800), ("wrong numbers of responses", 500), ("unexpected responses", 100), ("responses at other places", 300), ("interactions of the same kind", 150), ("interactions of different kinds", 200)],
    probes: vec![]
  }
}
