//! Requests, responses and messages with generators: what is bound is generated, and nothing else changes
use std::collections::HashMap;
use moncore::*;
use pact_matching::generators::{apply_generators_to_async_message, apply_generators_to_sync_message, generate_message};
use pact_matching::{generate_request, generate_response, match_message, match_sync_message};
use pact_models::bodies::OptionalBody;
use pact_models::generators::GeneratorTestMode;
use pact_models::http_parts::HttpPart;
use pact_models::interaction::{http_interaction_from_json, message_interaction_from_json, Interaction};
use pact_models::pact::Pact;
use pact_models::v4::interaction::interaction_from_json;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::PactSpecification;

use crate::tmpl::step;
use crate::util::*;

type Ctx = HashMap<&'static str, Value>;
const URL: &str = "http://mock:1234/sub";
fn context() -> Ctx { HashMap::from([("v", json!("state value")), ("n", json!(418)), ("mockServer", json!({"url": URL, "port": 1234}))]) }

/// A generator whose value is known, and that value where it applies
#[derive(Clone, Debug)]
struct Known { json: Value, value: Option<Value> }
fn known(r: &mut Rng, provider: bool, i: usize) -> Known {
  let k = |json: Value, value: Option<Value>| Known { json, value };
  match r.below(8) {
    0 => k(json!({"type": "ProviderState", "expression": if r.bool() { "v" } else { "${v}" }}), if provider { Some(json!("state value")) } else { None }),
    1 => k(json!({"type": "ProviderState", "expression": "/a/${v}/${n}"}), if provider { Some(json!("/a/state value/418")) } else { None }),
    2 => k(json!({"type": "ProviderState", "expression": "${missing}"}), None),
    3 => k(json!({"type": "MockServerURL", "example": "http://old:1/orders/7", "regex": ".*(/orders/\\d+)$"}), if provider { None } else { Some(json!(format!("{URL}/orders/7"))) }),
    4 | 5 => k(json!({"type": "RandomInt", "min": 1000 + i, "max": 1000 + i}), Some(json!(1000 + i))),
    6 => k(json!({"type": "Regex", "regex": format!("new{i}[x]{{3}}")}), Some(json!(format!("new{i}xxx")))),
    _ => k(json!({"type": "RandomInt", "min": 9, "max": 3}), None)
  }
}
fn plain(v: &Value) -> String { match v { Value::String(s) => s.clone(), o => o.to_string() } }
fn mode(p: bool) -> GeneratorTestMode { if p { GeneratorTestMode::Provider } else { GeneratorTestMode::Consumer } }
fn any_case(r: &mut Rng, s: &str) -> String { match r.below(4) { 0 => s.to_lowercase(), 1 => s.to_uppercase(), _ => s.into() } }

/// Contents with generators: how it is written, the generators, and what becomes of it
struct Contents { kind: &'static str, doc: Option<Value>, ct: Option<&'static str>, gens: Map<String, Value>, after: After, places: usize }
enum After { Same, Json(Value), Form(Vec<(String, String)>) }

fn contents(r: &mut Rng, provider: bool, message: bool) -> Contents {
  let mut gens = Map::new(); let mut n = 0;
  match r.below(8) {
    0 => { if r.bool() { gens.insert("$.a".into(), json!({"type": "RandomInt", "min": 1, "max": 1})); } Contents { kind: "no contents", doc: None, ct: None, gens, after: After::Same, places: 0 } }
    1 => { let (k, ct, t) = *r.pick(&[("text", "text/plain", "some text"), ("XML", "application/xml", "<a><b>c</b></a>"), ("unreadable JSON", "application/json", "{\"a\": "), ("unknown type", "application/x-thing", "a=b")]);
      gens.insert("$.a".into(), json!({"type": "RandomInt", "min": 1, "max": 1}));
      Contents { kind: k, doc: Some(json!({"content": b64(t.as_bytes()), "contentType": ct, "encoded": "base64"})), ct: Some(ct), gens, after: After::Same, places: 0 } }
    2 if !message => { let names = ["a", "b c", "d", "é"]; let mut l: Vec<(String, String)> = names.iter().filter(|_| r.bool()).map(|k| (k.to_string(), "old".to_string())).collect(); if l.is_empty() { l.push(("a".into(), "old".into())) }
      let text = l.iter().map(|(k, v)| format!("{}={v}", k.replace(' ', "+"))).collect::<Vec<_>>().join("&");
      for (i, (k, v)) in l.iter_mut().enumerate() { if r.bool() { let g = known(r, provider, i); gens.insert(step("$", k), g.json); if let Some(x) = g.value { *v = plain(&x); n += 1 } } }
      if r.chance(1, 4) { gens.insert("$.absent".into(), json!({"type": "RandomInt", "min": 1, "max": 1})); }
      let same = gens.is_empty();
      let ct = *r.pick(&["application/x-www-form-urlencoded", "application/x-www-form-urlencoded;charset=utf-8"]);
      Contents { kind: "form", doc: Some(json!({"content": text, "contentType": ct, "encoded": false})), ct: Some(ct), gens, after: if same { After::Same } else { After::Form(l) }, places: n } }
    _ => {
      let mut d = json!({"id": 1, "a-b": "old", "list": [{"x": "old", "y": 2}, {"x": "other", "y": 3}], "o": {"p q": null, "deep": {"é": true}}}); let mut want = d.clone();
      let ps: [(&str, &[&str]); 7] = [("$.id", &["/id"]), ("$['a-b']", &["/a-b"]), ("$.list[*].x", &["/list/0/x", "/list/1/x"]), ("$.list[1].y", &["/list/1/y"]), ("$.o['p q']", &["/o/p q"]), ("$.o.deep['é']", &["/o/deep/é"]), ("$.o.nothing", &[])];
      if r.chance(1, 10) { d["list"] = json!([]); want = d.clone() }
      for (i, (p, at)) in ps.iter().enumerate() { if r.chance(1, 3) { let g = known(r, provider, i); gens.insert(p.to_string(), g.json);
        if let Some(x) = g.value { for a in *at { if let Some(v) = want.pointer_mut(a) { *v = if v.is_string() { json!(plain(&x)) } else { x.clone() }; n += 1 } } } } }
      let ct = *r.pick(&["application/json", "application/hal+json", "application/vnd.siren+json", "application/json;charset=utf-8"]);
      let same = gens.is_empty();
      Contents { kind: "JSON", doc: Some(json!({"content": d, "contentType": ct, "encoded": if ct == "application/json" { json!(false) } else { json!("JSON") }})), ct: Some(ct), gens, after: if same { After::Same } else { After::Json(want) }, places: n }
    }
  }
}

fn decode(s: &str) -> Vec<(String, String)> {
  fn d(s: &str) -> String { let b = s.as_bytes(); let (mut o, mut i) = (vec![], 0); while i < b.len() { match b[i] { b'+' => o.push(b' '), b'%' => { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?')); i += 2 } c => o.push(c) } i += 1 } String::from_utf8_lossy(&o).to_string() }
  s.split('&').map(|p| { let (k, v) = p.split_once('=').unwrap_or((p, "")); (d(k), d(v)) }).collect()
}

fn check_contents(c: &Contents, before: &OptionalBody, after: &OptionalBody, types: (Option<String>, Option<String>), what: &dyn Fn() -> String) -> Verdict {
  match &c.after {
    After::Same => ensure!(before == after, "contents-changed", "the {} became {:?} from {:?}; {}", c.kind, after, before, what()),
    After::Json(v) => { let got: Option<Value> = after.value().and_then(|b| serde_json::from_slice(&b).ok()); ensure!(got.as_ref() == Some(v), "contents-generated", "the contents became {:?} and not {}; {}", got.map(|g| g.to_string()), v, what()) }
    After::Form(l) => { let got = after.value().map(|b| decode(&String::from_utf8_lossy(&b))); ensure!(got.as_ref() == Some(l), "contents-generated", "the form became {:?} and not {:?}; {}", got, l, what()) }
  }
  ensure!(types.0 == types.1, "content-type-changed", "the content type was {:?} and became {:?}; {}", types.0, types.1, what());
  Ok(())
}
fn types<T: HttpPart>(a: &T, b: &T) -> (Option<String>, Option<String>) { (a.content_type().map(|c| c.to_string()), b.content_type().map(|c| c.to_string())) }

fn load_http(v: &Value) -> SynchronousHttp { http_interaction_from_json("case", v, &PactSpecification::V4).unwrap().as_v4_http().unwrap() }

/// Requests and responses
fn http_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let provider = r.bool(); let response = r.bool();
  let c = contents(r, provider, false);
  let mut o = json!({}); let mut g = json!({});
  if let Some(d) = &c.doc { o["body"] = d.clone() } if !c.gens.is_empty() { g["body"] = Value::Object(c.gens.clone()) }
  let mut places = c.places;
  // headers: some under the name in another case, some that are absent
  let mut names = vec!["X-Id", "x-other", "Location", "X_3"]; r.shuffle(&mut names);
  let mut hs = Map::new(); let mut want_h: Vec<(String, Vec<String>)> = vec![];
  for (i, n) in names[..r.us(4)].iter().enumerate() {
    let many = *n != "Location" && r.chance(1, 5); let old: Vec<String> = if many { vec!["old".into(), "older".into()] } else { vec!["old".into()] };
    let absent = r.chance(1, 8);
    if !absent { hs.insert(n.to_string(), json!(old)); }
    let mut now = if absent { None } else { Some(old.clone()) };
    if absent || !many && r.chance(2, 3) { let k = known(r, provider, i); g["header"][any_case(r, n)] = k.json; if let Some(x) = k.value { now = Some(vec![plain(&x)]); places += 1 } }
    if let Some(v) = now { want_h.push((n.to_lowercase(), v)) }
  }
  if !hs.is_empty() { o["headers"] = Value::Object(hs) }
  let mut want_q: Vec<(String, Vec<String>)> = vec![]; let (mut want_path, mut want_status) = ("/old".to_string(), 200u16);
  if response {
    o["status"] = json!(200);
    if r.chance(1, 3) { let (j, v) = match r.below(4) { 0 => (json!({"type": "RandomInt", "min": 404, "max": 404}), Some(404)), 1 => (json!({"type": "ProviderState", "expression": "n"}), if provider { Some(418) } else { None }), 2 => (json!({"type": "ProviderState", "expression": "v"}), None), _ => (json!({"type": "RandomInt", "min": 70000, "max": 70000}), None) };
      g["status"] = j; if let Some(v) = v { want_status = v; places += 1 } }
  } else {
    o["method"] = json!("POST"); o["path"] = json!("/old");
    if r.chance(1, 3) { let k = known(r, provider, 50); g["path"] = k.json; if let Some(v) = k.value { want_path = plain(&v); places += 1 } }
    let mut names = vec!["q", "a.b", "x[]", "with space", "Q"]; r.shuffle(&mut names); let mut qs = Map::new();
    for (i, n) in names[..r.us(4)].iter().enumerate() {
      let old: Vec<String> = (0..r.range(1, 2)).map(|j| format!("old{j}")).collect(); let absent = r.chance(1, 8);
      if !absent { qs.insert(n.to_string(), json!(old)); }
      let mut now = if absent { None } else { Some(old.clone()) };
      if absent || r.chance(2, 3) { let k = known(r, provider, 20 + i); g["query"][*n] = k.json; if let Some(x) = k.value { now = Some(now.map(|l| l.len()).map(|l| vec![plain(&x); l]).unwrap_or(vec![plain(&x)])); places += 1 } }
      if let Some(v) = now { want_q.push((n.to_string(), v)) }
    }
    if !qs.is_empty() { o["query"] = Value::Object(qs) }
  }
  o["generators"] = g; o["matchingRules"] = json!({"body": {"$": {"matchers": [{"match": "type"}]}}});
  let key = if response { "response" } else { "request" };
  let i = load_http(&json!({"type": "Synchronous/HTTP", "description": "d", key: o}));
  cx.saw(o.to_string()); cx.add("places generated", places as u64);
  let ctx = context(); let what = || format!("{} in {:?}", s(&o), mode(provider));
  let headers = |h: &Option<HashMap<String, Vec<String>>>| { let mut l: Vec<(String, Vec<String>)> = h.iter().flatten().map(|(k, v)| (k.to_lowercase(), v.clone())).collect(); l.sort(); l };
  want_h.sort(); want_q.sort();
  let crash = |e: String| Violation { sig: "panic".into(), detail: format!("{e}; {}", what()) };
  if response {
    let b = &i.response; let a = no_panic(std::panic::AssertUnwindSafe(|| wait(generate_response(b, &mode(provider), &ctx)))).map_err(crash)?;
    ensure!(a.status == want_status, "status", "the status became {} and not {want_status}; {}", a.status, what());
    ensure!(headers(&a.headers) == want_h, "headers", "the headers became {:?} and not {:?}; {}", headers(&a.headers), want_h, what());
    ensure!(a.matching_rules == b.matching_rules && a.generators == b.generators, "rules", "rules or generators changed; {}", what());
    check_contents(&c, &b.body, &a.body, types(b, &a), &what)?; cx.tick("responses generated");
  } else {
    let b = &i.request; let a = no_panic(std::panic::AssertUnwindSafe(|| wait(generate_request(b, &mode(provider), &ctx)))).map_err(crash)?;
    ensure!(a.path == want_path && a.method == b.method, "path", "the path became {} and not {want_path}; {}", a.path, what());
    let mut q: Vec<(String, Vec<String>)> = a.query.iter().flatten().map(|(k, v)| (k.clone(), v.iter().map(|v| v.clone().unwrap_or_default()).collect())).collect(); q.sort();
    ensure!(q == want_q, "query", "the query became {q:?} and not {want_q:?}; {}", what());
    ensure!(headers(&a.headers) == want_h, "headers", "the headers became {:?} and not {:?}; {}", headers(&a.headers), want_h, what());
    ensure!(a.matching_rules == b.matching_rules && a.generators == b.generators, "rules", "rules or generators changed; {}", what());
    check_contents(&c, &b.body, &a.body, types(b, &a), &what)?; cx.tick("requests generated");
  }
  Ok(())
}

/// The three kinds of message
fn message_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let provider = r.bool(); let ctx = context(); let kind = r.below(3);
  let side = |r: &mut Rng, v3: bool| -> (Value, Contents, Vec<(String, Value)>, usize) {
    let c = loop { let c = contents(r, provider, true); if !v3 || c.kind == "JSON" && c.ct == Some("application/json") { break c } };
    let mut o = json!({}); let mut g = json!({}); let mut n = c.places;
    if let Some(d) = &c.doc { o["contents"] = if v3 { d["content"].clone() } else { d.clone() } } if !c.gens.is_empty() { g["body"] = Value::Object(c.gens.clone()) }
    let mut names = vec!["id", "a-b", "with space", "destination"]; r.shuffle(&mut names); let mut md = Map::new(); let mut want = vec![];
    for (i, k) in names[..r.us(4)].iter().enumerate() {
      let old = r.pick(&[json!("old"), json!(7), json!(null)]).clone(); let absent = r.chance(1, 8); if !absent { md.insert(k.to_string(), old.clone()); }
      let mut now = if absent { None } else { Some(old.clone()) };
      if absent || r.bool() { let x = known(r, provider, i); g["metadata"][step("$", k)] = x.json; if let Some(v) = x.value { now = Some(if old.is_string() && !absent { json!(plain(&v)) } else { v }); n += 1 } }
      if let Some(v) = now { want.push((k.to_string(), v)) }
    }
    if v3 { md.insert("contentType".into(), json!("application/json")); want.push(("contentType".into(), json!("application/json"))); }
    if !md.is_empty() { o[if v3 { "metaData" } else { "metadata" }] = Value::Object(md) }
    o["generators"] = g; want.sort_by(|a, b| a.0.cmp(&b.0)); (o, c, want, n)
  };
  let meta = |m: &HashMap<String, Value>| { let mut l: Vec<(String, Value)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(); l.sort_by(|a, b| a.0.cmp(&b.0)); l };
  let show = |o: &Value| format!("{} in {:?}", s(o), mode(provider));
  let judge = |o: &Value, c: &Contents, want: &Vec<(String, Value)>, b: (&OptionalBody, Option<String>), a: (&OptionalBody, Option<String>), m: &HashMap<String, Value>| -> Verdict {
    ensure!(&meta(m) == want, "metadata", "the metadata became {:?} and not {:?}; {}", meta(m), want, show(o));
    check_contents(c, b.0, a.0, (b.1, a.1), &|| show(o)) };
  let t = |c: Option<pact_models::content_types::ContentType>| c.map(|c| c.to_string());
  match kind {
    0 => { let (mut o, c, want, n) = side(r, true); o["description"] = json!("d"); cx.add("places generated", n as u64); cx.saw(o.to_string());
      let b = message_interaction_from_json("case", &o, &PactSpecification::V3).unwrap().as_message().unwrap();
      let a = wait(generate_message(&b, &mode(provider), &ctx, &vec![], &HashMap::new()));
      judge(&o, &c, &want, (&b.contents, t(b.message_content_type())), (&a.contents, t(a.message_content_type())), &a.metadata)?; cx.tick("V3 messages generated"); }
    1 => { let (mut o, c, want, n) = side(r, false); o["description"] = json!("d"); o["type"] = json!("Asynchronous/Messages"); cx.add("places generated", n as u64); cx.saw(o.to_string());
      let b = message_interaction_from_json("case", &o, &PactSpecification::V4).unwrap().as_v4_async_message().unwrap();
      let a = wait(apply_generators_to_async_message(&b, &mode(provider), &ctx, &vec![], &HashMap::new()));
      judge(&o, &c, &want, (&b.contents.contents, t(b.contents.message_content_type())), (&a.contents, t(a.message_content_type())), &a.metadata)?; cx.tick("V4 messages generated"); }
    _ => { let q = side(r, false); let rs: Vec<_> = (0..r.us(4)).map(|_| side(r, false)).collect();
      let o = json!({"type": "Synchronous/Messages", "description": "d", "request": q.0, "response": rs.iter().map(|x| x.0.clone()).collect::<Vec<_>>()}); cx.saw(o.to_string());
      let b: SynchronousMessage = interaction_from_json("case", 0, &o).unwrap().as_v4_sync_message().unwrap();
      let (aq, ar) = wait(apply_generators_to_sync_message(&b, &mode(provider), &ctx, &vec![], &HashMap::new()));
      ensure!(ar.len() == rs.len(), "responses", "{} responses; {}", ar.len(), show(&o));
      for (x, b, a) in std::iter::once((&q, &b.request, &aq)).chain(rs.iter().zip(&b.response).zip(&ar).map(|((x, b), a)| (x, b, a))) {
        cx.add("places generated", x.3 as u64);
        judge(&x.0, &x.1, &x.2, (&b.contents, t(b.message_content_type())), (&a.contents, t(a.message_content_type())), &a.metadata)?; }
      cx.tick("synchronous messages generated"); }
  }
  Ok(())
}

/// Values generated for a rule satisfy it
fn rules_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let provider = r.bool();
  // (rule, generator, example as text, example as JSON)
  let pair = |r: &mut Rng| -> (Value, Value, Value) { match r.below(10) {
    0 => (json!({"match": "regex", "regex": "^\\d{3}-[a-c]+$"}), json!({"type": "Regex", "regex": "^\\d{3}-[a-c]+$"}), json!("123-abc")),
    1 => (json!({"match": "integer"}), json!({"type": "RandomInt", "min": r.range(-50, 0), "max": r.range(0, 1000)}), json!(5)),
    2 => (json!({"match": "decimal"}), json!({"type": "RandomDecimal", "digits": r.range(2, 9)}), json!(1.5)),
    3 => (json!({"match": "boolean"}), json!({"type": "RandomBoolean"}), json!(true)),
    4 => { let f = *r.pick(&["yyyy-MM-dd", "dd/MM/yyyy", "yyyyMMdd"]); (json!({"match": "date", "date": f}), json!({"type": "Date", "format": f}), json!(match f { "yyyy-MM-dd" => "2020-01-02", "dd/MM/yyyy" => "02/01/2020", _ => "20200102" })) }
    5 => { let f = *r.pick(&["HH:mm:ss", "HH:mm"]); (json!({"match": "time", "time": f}), json!({"type": "Time", "format": f}), json!(if f == "HH:mm" { "10:11" } else { "10:11:12" })) }
    6 => { let f = "yyyy-MM-dd'T'HH:mm:ss.SSSZ"; (json!({"match": "timestamp", "timestamp": f}), json!({"type": "DateTime", "format": f}), json!("2020-01-02T10:11:12.345+0000")) }
    7 => (json!({"match": "type"}), json!({"type": "RandomString", "size": r.range(1, 12)}), json!("text")),
    8 => (json!({"match": "regex", "regex": "^[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}$"}), json!({"type": "Uuid"}), json!("936da01f-9abd-4d9d-80c7-02af85c822a8")),
    _ => { let d = r.range(1, 10); (json!({"match": "regex", "regex": format!("^[0-9A-F]{{{d}}}$")}), json!({"type": "RandomHexadecimal", "digits": d}), json!("A".repeat(d as usize))) }
  } };
  let text = |p: (Value, Value, Value)| (p.0, p.1, plain(&p.2));
  let m = |rule: &Value| json!({"matchers": [rule]});
  let mut body = Map::new(); let (mut br, mut bg) = (Map::new(), Map::new());
  for k in ["a", "b-c", "d"] { let (ru, ge, ex) = pair(r); body.insert(k.into(), ex); br.insert(step("$", k), m(&ru)); bg.insert(step("$", k), ge); }
  let (ru, ge, ex) = pair(r); body.insert("list".into(), json!([ex.clone(), ex])); br.insert("$.list".into(), json!({"matchers": [{"match": "type"}]})); br.insert("$.list[*]".into(), m(&ru)); bg.insert("$.list[*]".into(), ge);
  // an array with variants, each with a generator of its own
  let variants = r.bool();
  if variants {
    body.insert("links".into(), json!([{"rel": "self", "href": "http://x:1/orders/1"}, {"rel": "next", "href": "http://x:1/orders/2"}]));
    let v = |i: usize, rel: &str| json!({"index": i, "rules": {"$.rel": {"matchers": [{"match": "regex", "regex": format!("^{rel}$")}]}, "$.href": {"matchers": [{"match": "regex", "regex": ".*(/orders/\\d+)$"}]}},
      "generators": {"$.href": {"type": "Regex", "regex": format!("http://{rel}/orders/\\d{{4}}")}}});
    br.insert("$.links".into(), json!({"matchers": [{"match": "arrayContains", "variants": [v(0, "self"), v(1, "next")]}]}));
  }
  let check_links = |b: &OptionalBody, what: &dyn Fn() -> String| -> Verdict {
    if !variants { return Ok(()) }
    let v: Value = b.value().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
    for (i, rel) in ["self", "next"].iter().enumerate() { let h = v["links"][i]["href"].as_str().unwrap_or_default(); ensure!(v["links"][i]["rel"] == json!(rel) && h.starts_with(&format!("http://{rel}/orders/")) && h.len() == format!("http://{rel}/orders/").len() + 4, "variants", "the variant {rel} was not generated: {}; {}", v["links"], what()) }
    Ok(()) };
  let content = json!({"content": body, "contentType": "application/json", "encoded": false});
  let ctx = context(); let kind = r.below(5);
  if kind < 3 {
    let response = kind == 2; let mut o = json!({"body": content}); let mut mr = json!({"body": br}); let mut g = json!({"body": bg});
    let (ru, ge, ex) = text(pair(r)); o["headers"]["X-A"] = json!(ex); mr["header"]["X-A"] = m(&ru); g["header"]["X-A"] = ge;
    if response { o["status"] = json!(200); mr["status"] = json!({"matchers": [{"match": "statusCode", "status": "success"}]}); g["status"] = json!({"type": "RandomInt", "min": 200, "max": 299}); }
    else { o["method"] = json!("POST"); let (ru, ge, ex) = text(pair(r)); o["query"] = json!({"q": [ex.clone(), ex]}); mr["query"]["q"] = m(&ru); g["query"]["q"] = ge;
      o["path"] = json!("/p/77"); mr["path"] = m(&json!({"match": "regex", "regex": "^/p/\\d+$"})); g["path"] = json!({"type": "Regex", "regex": "/p/\\d{1,5}"}); }
    o["matchingRules"] = mr; o["generators"] = g;
    let key = if response { "response" } else { "request" };
    let i = load_http(&json!({"type": "Synchronous/HTTP", "description": "d", key: o})); let what = || format!("{} in {:?}", s(&o), mode(provider));
    let (ms, b, same) = if response { let a = wait(generate_response(&i.response, &mode(provider), &ctx)); (res(&i.response, &a), a.body.clone(), a.body == i.response.body) } else { let a = wait(generate_request(&i.request, &mode(provider), &ctx)); (req(&i.request, &a).mismatches(), a.body.clone(), a.body == i.request.body) };
    ensure!(ms.is_empty(), "generated-refused", "what was generated does not match: {}; {}; {:?}", show(&ms), what(), b.display_string());
    ensure!(!same, "not-generated", "nothing was generated for the body; {}", what()); check_links(&b, &what)?;
  } else {
    let mut o = json!({"contents": content}); let (ru, ge, ex) = pair(r); o["metadata"] = json!({"k-1": ex}); o["matchingRules"] = json!({"body": br, "metadata": {"$['k-1']": m(&ru)}}); o["generators"] = json!({"body": bg, "metadata": {"$['k-1']": ge}});
    let what = || format!("{} in {:?}", s(&o), mode(provider)); let p: BoxP = V4Pact::default().boxed();
    let (ms, b, same) = if kind == 3 {
      let mut d = o.clone(); d["type"] = json!("Asynchronous/Messages"); d["description"] = json!("d");
      let e = message_interaction_from_json("case", &d, &PactSpecification::V4).unwrap(); let em = e.as_v4_async_message().unwrap();
      let mut am = em.clone(); am.contents = wait(apply_generators_to_async_message(&em, &mode(provider), &ctx, &vec![], &HashMap::new()));
      let a: BoxI = am.boxed(); (wait(match_message(&e, &a, &p)), am.contents.contents.clone(), am.contents.contents == em.contents.contents)
    } else {
      let d = json!({"type": "Synchronous/Messages", "description": "d", "request": o, "response": [o]});
      let e = interaction_from_json("case", 0, &d).unwrap().as_v4_sync_message().unwrap(); let mut a = e.clone();
      let (q, rs) = wait(apply_generators_to_sync_message(&e, &mode(provider), &ctx, &vec![], &HashMap::new())); a.request = q; a.response = rs;
      check_links(&a.request.contents, &what)?;
      (wait(match_sync_message(e.clone(), a.clone(), &p)), a.response[0].contents.clone(), a.request.contents == e.request.contents || a.response[0].contents == e.response[0].contents)
    };
    ensure!(ms.is_empty(), "generated-refused", "what was generated does not match: {}; {}; {:?}", show(&ms), what(), b.display_string());
    ensure!(!same, "not-generated", "nothing was generated for the contents; {}", what()); check_links(&b, &what)?;
  }
  cx.tick("generated values matched with their rules"); if variants { cx.tick("variants generated") }
  cx.saw((kind, br.len(), s(&Value::Object(br.clone())), provider));
  Ok(())
}
use crate::util::show;

pub fn prop() -> Property {
  Property {
    id: "P34", level: "exploration",
    rule: "Seeded requests, responses and messages with generators of known value in every part, at present and absent places and names in other case, in both modes, and with generators of every kind next to the rule for the same place. Non-trivial: each distinct document.",
    assumptions: vec!["A header, parameter or metadata entry with a generator that is absent is added.", "A generator for a header with several values leaves one."],
    phases: vec![phase("http", 30000, http_case), phase("messages", 20000, message_case), phase("rules", 6000, rules_case)],
    floors: vec![("places generated", 15000), ("requests generated", 3000), ("responses generated", 3000), ("V3 messages generated", 1000), ("V4 messages generated", 1000), ("synchronous messages generated", 1000), ("generated values matched with their rules", 1000), ("variants generated", 400)],
    probes: vec![]
  }
}
