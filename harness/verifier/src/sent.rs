//! P41: the request a provider gets is the one in the pact.
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use bytes::Bytes;
use itertools::Either;
use moncore::*;
use serde_json::{json, Map, Value};
use pact_models::bodies::OptionalBody;
use pact_models::v4::http_parts::HttpRequest;
use pact_verifier::*;
use pact_verifier::callback_executors::{HttpRequestProviderStateExecutor, RequestFilterExecutor};
use crate::stub::*;
use crate::world::*;

#[derive(Debug)]
struct Filter { seen: Mutex<Vec<HttpRequest>> }
impl RequestFilterExecutor for Filter {
  fn call(self: Arc<Self>, q: &HttpRequest) -> HttpRequest {
    self.seen.lock().unwrap().push(q.clone());
    let mut q = q.clone();
    q.headers.get_or_insert_with(HashMap::new).insert("X-Filter".into(), vec!["was here".into()]);
    q.path = format!("{}/filtered", q.path.trim_end_matches('/'));
    q
  }
  fn call_non_http(&self, b: &OptionalBody, m: &HashMap<String, Either<Value, Bytes>>) -> (OptionalBody, HashMap<String, Either<Value, Bytes>>) { (b.clone(), m.clone()) }
}

const NAMES: [&str; 5] = ["a", "b c", "d[]", "é", "x-y"];
fn text(r: &mut Rng) -> String { r.string_from(&['a', 'Z', '1', ' ', '+', '&', '=', '%', 'é', '/', '?', '#', '"', '\\', ';'], 0, 6) }

fn case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let spec = r.range(2, 4) as u32;
  let kind = match spec { 2 => Kind::Http, 3 => if r.chance(1, 4) { Kind::Async } else { Kind::Http }, _ => *r.pick(&[Kind::Http, Kind::Http, Kind::Http, Kind::Async, Kind::Sync]) };
  let states: Vec<(String, Map<String, Value>)> = if r.bool() { vec![("s1".into(), if spec > 2 && r.bool() { [("p".to_string(), json!(1))].into_iter().collect() } else { Map::new() })] } else { vec![] };
  let mut i = inter(r, 0, spec, kind, false, states.clone());
  // the request
  let method = r.pick_s(&["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "post"]);
  let path: String = { let n = r.below(4); let mut p = String::new(); for _ in 0..n { p.push('/'); p.push_str(&r.string_from(&['a', 'B', '1', '-', '.', '_', '~', ' ', 'é', '&', '=', '+', ':', '@'], 1, 4)); } if n == 0 { p.push('/') } else if r.chance(1, 4) { p.push('/') } p };
  let path = path.trim_end().to_string();
  let path = if path.split('/').any(|s| s == "." || s == "..") { "/plain".to_string() } else { path };
  let mut query: BTreeMap<String, Vec<Option<String>>> = BTreeMap::new();
  for _ in 0..r.below(4) {
    let k = r.pick_s(&NAMES);
    let v = (0..r.range(1, 3)).map(|_| if spec > 2 && r.chance(1, 8) { None } else { Some(text(r)) }).collect();
    query.insert(k, v);
  }
  let mut headers: BTreeMap<String, Vec<String>> = BTreeMap::new();
  for k in r.subset(&["X-A", "x-b", "Accept", "Authorization", "X-List"], 1, 3) {
    headers.insert(k.into(), if k == "X-List" { vec!["v1".into(), "v 2".into()] } else { vec![r.string_from(&['a', '1', '/', '*', '=', ' ', ';', '-'], 1, 6).trim().to_string()] });
  }
  let mut ct = None;
  let mut bytes: Option<Vec<u8>> = None;
  if kind == Kind::Http {
    let (b, c) = match r.below(5) {
      0 => (Value::Null, None),
      1 => (json!(text(r)), Some("text/plain")),
      2 => (body(r), Some("application/vnd.x+json")),
      3 if spec == 4 => (Value::Null, Some("application/octet-stream")),
      _ => (body(r), Some("application/json"))
    };
    let raw: Vec<u8> = (0..r.range(1, 9)).map(|_| r.below(256) as u8).collect();
    let q = &mut i.json["request"];
    *q = json!({"method": method, "path": path});
    let binary = c == Some("application/octet-stream");
    if let Some(c) = c { headers.insert("Content-Type".into(), vec![c.into()]); ct = Some(c); }
    if binary {
      q["body"] = json!({"contentType": c, "encoded": "base64", "content": b64(&raw)});
      bytes = Some(raw);
    } else if !b.is_null() {
      bytes = Some(if let (Some("text/plain"), Value::String(s)) = (c, &b) { s.clone().into_bytes() } else { b.to_string().into_bytes() });
      q["body"] = if spec == 4 { json!({"contentType": c, "encoded": false, "content": b}) } else { b };
      if bytes.as_ref().unwrap().is_empty() { bytes = None; }
    }
    if !headers.is_empty() { q["headers"] = headers.iter().map(|(k, v)| (k.clone(), if spec == 4 { json!(v) } else { json!(v.join(", ")) })).collect(); }
    if !query.is_empty() {
      q["query"] = if spec == 2 {
        let enc = |s: &str| s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{:02X}", b) }).collect::<String>();
        json!(query.iter().flat_map(|(k, v)| v.iter().map(move |v| format!("{}={}", enc(k), enc(v.as_ref().unwrap())))).collect::<Vec<_>>().join("&"))
      } else { query.iter().map(|(k, v)| (k.clone(), json!(v))).collect() };
    }
  }
  // where it goes
  let log: Arc<Mutex<Vec<(u8, Req)>>> = Default::default();
  let mk = |which: u8| { let (log, a) = (log.clone(), i.answer.clone()); Stub::start(move |q| { log.lock().unwrap().push((which, q)); a.clone() }) };
  let (s0, s1) = (mk(0), mk(1));
  let mut info = provider("provider", s0.port);
  let (mut to, mut base) = (0u8, String::new());
  let basep = r.pick_s(&["", "/", "/base", "/base/v1/"]);
  let named = if spec == 4 && r.chance(1, 3) { i.json["transport"] = json!("special"); Some("special") } else { None };
  let t = match r.below(4) {
    0 => {
      #[allow(deprecated)] { info.path = basep.clone(); }
      base = basep.clone(); None
    }
    1 => Some("other"),
    _ => Some(named.unwrap_or(match kind { Kind::Http => "http", Kind::Async => *r.pick(&["message", "async-message"]), Kind::Sync => *r.pick(&["message", "sync-message"]) }))
  };
  if let Some(t) = t {
    // transports for something else come first
    if r.bool() { info.transports.push(ProviderTransport { transport: "other".into(), port: Some(s0.port), path: Some("/wrong".into()), scheme: None }); }
    info.transports.push(ProviderTransport { transport: t.into(), port: Some(s1.port), path: if basep.is_empty() { None } else { Some(basep.clone()) }, scheme: if r.bool() { Some("http".into()) } else { None } });
    if t != "other" { to = 1; base = basep.clone(); }
  }
  let mut custom: BTreeMap<String, String> = BTreeMap::new();
  for k in r.subset(&["Authorization", "X-Custom", "x-a", "X-B"], 1, 3) { custom.insert(k.into(), r.string_from(&['c', '9', ' '], 1, 4).trim().to_string() + "!"); }
  let filter = if r.chance(1, 4) { Some(Arc::new(Filter { seen: Default::default() })) } else { None };
  let opts = VerificationOptions { request_filter: filter.clone(), custom_headers: custom.clone().into_iter().collect(), ..options::<Filter>() };
  let doc = pact(spec, kind != Kind::Http, "consumer", "provider", &[&i]);
  cx.note(format!("pact {doc} transports {:?} custom {:?} filter {}", info, custom, filter.is_some()));
  cx.sample(|| doc.clone());
  let res = match no_panic(|| block(verify_provider_async(info, vec![PactSource::String(doc.to_string())], FilterInfo::None, vec![], &opts, None, &Arc::new(HttpRequestProviderStateExecutor::default()), None))) {
    Ok(Ok(v)) => v, Ok(Err(e)) => return violated("no-verdict", format!("{e}")), Err(p) => return violated("panic", p)
  };
  let log = log.lock().unwrap();
  ensure!(log.len() == 1, "requests", "{} requests for one interaction: {:?} ({:?})", log.len(), log, res.errors);
  ensure!(log[0].0 == to, "transport", "the request went to server {} and not {}", log[0].0, to);
  ensure!(res.result, "failed-good", "{:?}", res.errors);
  let q = &log[0].1;
  // what it has to be
  let tail = if filter.is_some() { "/filtered" } else { "" };
  let (want_path, want_method) = if kind == Kind::Http { (path.clone(), method.clone()) } else { ("/".to_string(), "POST".to_string()) };
  let want_path = if filter.is_some() { format!("{}{}", want_path.trim_end_matches('/'), tail) } else { want_path };
  let full = if want_path == "/" { let b = base.trim_end_matches('/'); if b.is_empty() { "/".to_string() } else { b.to_string() } } else { format!("{}{}", base.trim_end_matches('/'), want_path) };
  ensure!(unpct(q.path(), false) == full, "path", "path {} (decoded {}) and not {}", q.path(), unpct(q.path(), false), full);
  ensure!(q.method.to_uppercase() == want_method.to_uppercase(), "method", "method {} and not {}", q.method, want_method);
  if kind == Kind::Http {
    let mut got: BTreeMap<String, Vec<Option<String>>> = BTreeMap::new();
    for (k, v) in pairs(q.query().unwrap_or("")) { got.entry(k).or_default().push(v); }
    // no value and an empty one are the same thing on the wire
    let flat = |m: &BTreeMap<String, Vec<Option<String>>>| m.iter().map(|(k, v)| (k.clone(), v.iter().map(|v| v.clone().unwrap_or_default()).collect::<Vec<_>>())).collect::<BTreeMap<_, _>>();
    ensure!(flat(&got) == flat(&query), "query", "query {:?} and not {:?}", q.query(), query);
    if !query.is_empty() { cx.tick("queries sent"); }
    match &bytes {
      None => ensure!(q.body.is_empty(), "body", "body {:?} where there is none", String::from_utf8_lossy(&q.body)),
      Some(b) if ct.map(|c| c.ends_with("json")).unwrap_or(false) => ensure!(q.json() == serde_json::from_slice::<Value>(b).unwrap(), "body", "body {:?} and not {:?}", String::from_utf8_lossy(&q.body), String::from_utf8_lossy(b)),
      Some(b) => ensure!(&q.body == b, "body", "body {:?} and not {:?}", q.body, b)
    }
    if bytes.is_some() { cx.tick("bodies sent"); }
  } else {
    let j = q.json();
    ensure!(j["description"] == i.desc.as_str(), "message-request", "{j} for '{}'", i.desc);
    let want: Vec<Value> = states.iter().map(|(s, p)| if p.is_empty() { json!({"name": s}) } else { json!({"name": s, "params": p}) }).collect();
    let have: Vec<Value> = j["providerStates"].as_array().cloned().unwrap_or_default().into_iter().map(|mut s| { if s["params"].as_object().map(|p| p.is_empty()).unwrap_or(false) { s.as_object_mut().unwrap().remove("params"); } s }).collect();
    ensure!(have == want, "message-request", "provider states {:?} and not {:?}", have, want);
    if kind == Kind::Sync { ensure!(j["request"]["contents"]["content"] == json!({"ask": 0}), "message-request", "{j}"); }
    headers.clear(); headers.insert("Content-Type".into(), vec!["application/json".into()]);
    cx.tick("messages asked for");
  }
  if let Some(f) = &filter { ensure!(f.seen.lock().unwrap().len() == 1, "filter", "filter called {} times", f.seen.lock().unwrap().len()); headers.insert("X-Filter".into(), vec!["was here".into()]); cx.tick("filtered requests"); }
  // custom headers take the place of those of the pact, whatever the case of the name
  for (k, v) in &custom { headers.retain(|h, _| !h.eq_ignore_ascii_case(k)); headers.insert(k.clone(), vec![v.clone()]); cx.tick("custom headers"); }
  for (k, v) in &headers {
    let got = q.header(k).join(", ");
    ensure!(got == v.join(", "), "header", "header {k}: {:?} and not {:?}", q.header(k), v);
  }
  for (k, _) in &q.headers {
    ensure!(headers.keys().any(|h| h.eq_ignore_ascii_case(k)) || ["host", "accept", "content-length", "connection", "user-agent"].contains(&k.to_lowercase().as_str()), "header-added", "header {k} is not in the pact");
  }
  if to == 1 { cx.tick("sent by transport"); }
  cx.tick("requests compared");
  cx.saw((q.method.clone(), q.target.len(), q.headers.len(), q.body.len(), to, format!("{kind:?}"), custom.len()));
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P41", level: "exploration",
    rule: "One generated interaction (V2-V4; HTTP with paths, repeated and valueless query parameters, headers and JSON, text or binary bodies; messages with provider states) verified with generated transports, base paths, custom headers and request filter; the bytes the loopback provider received are decoded independently and compared with the pact. Non-trivial: each distinct shape of request received.",
    assumptions: vec!["HTTP over loopback through a stand-in for reqwest that serialises the request it is given.", "A query parameter without a value and one with an empty value count as the same."],
    phases: vec![phase("requests", 6000, case)],
    floors: vec![("requests compared", 5000), ("queries sent", 1000), ("bodies sent", 1000), ("messages asked for", 500), ("custom headers", 1000), ("filtered requests", 500), ("sent by transport", 1000)],
    probes: vec![]
  }
}
