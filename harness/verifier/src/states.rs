//! P42: provider states around each interaction.
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use async_trait::async_trait;
use moncore::*;
use serde_json::{json, Map, Value};
use pact_models::provider_states::ProviderState;
use pact_verifier::*;
use pact_verifier::callback_executors::{HttpRequestProviderStateExecutor, ProviderStateExecutor};
use crate::stub::*;
use crate::world::*;

#[derive(Clone, Debug, PartialEq)]
enum Ev { State { name: String, params: BTreeMap<String, Value>, setup: bool }, Request { n: usize, req: Box<(String, Vec<(String, String)>, Value)> } }
type Log = Arc<Mutex<Vec<Ev>>>;
/// what a state change answers: values or a failure
type Plan = HashMap<(String, bool), Result<Map<String, Value>, u16>>;

#[derive(Debug)]
struct Callbacks { log: Log, plan: Plan, teardown: bool }
#[async_trait]
impl ProviderStateExecutor for Callbacks {
  async fn call(self: Arc<Self>, _id: Option<String>, state: &ProviderState, setup: bool, _c: Option<&reqwest::Client>) -> anyhow::Result<HashMap<String, Value>> {
    self.log.lock().unwrap().push(Ev::State { name: state.name.clone(), params: state.params.clone().into_iter().collect(), setup });
    match self.plan.get(&(state.name.clone(), setup)) { None => Ok(HashMap::new()), Some(Ok(m)) => Ok(m.clone().into_iter().collect()), Some(Err(e)) => Err(anyhow::anyhow!("no such state {e}")) }
  }
  fn teardown(&self) -> bool { self.teardown }
}

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum How { Callback, Body, Query, NoUrl }

fn case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let spec = r.range(2, 4) as u32;
  let msgs = spec == 3 && r.chance(1, 4);
  let how = *r.pick(&[How::Callback, How::Callback, How::Body, How::Query, How::NoUrl]);
  let teardown = r.bool();
  let mut plan: Plan = HashMap::new();
  let mut all: Vec<Inter> = vec![];
  // values each interaction's states hand over, and where they belong
  let mut values: Vec<Option<Value>> = vec![];
  let mut flaky: HashMap<String, u32> = HashMap::new();
  let retries = *r.pick(&[0u8, 1, 2, 3, 4]);
  for n in 0..r.range(1, 4) as usize {
    let kind = match spec { 2 => Kind::Http, 3 => if msgs { Kind::Async } else { Kind::Http }, _ => *r.pick(&[Kind::Http, Kind::Http, Kind::Async, Kind::Sync]) };
    let count = if spec == 2 { r.below(2) } else { r.below(4) };
    let states: Vec<(String, Map<String, Value>)> = (0..count).map(|k| (format!("{n}.{k} {}", r.pick_s(&["is there", "é & \"x\" = +", "%41", "a/b?c"])),
      if spec > 2 && r.bool() { (0..r.range(1, 3)).map(|p| (format!("p{p}"), match r.below(4) { 0 => json!(r.range(-9, 99)), 1 => json!(r.bool()), 2 if how != How::Query => json!({"a": [1, null]}), _ => json!(r.string_from(&['a', ' ', 'é', '&', '"'], 1, 4)) })).collect() } else { Map::new() })).collect();
    let faulty = r.chance(1, 4);
    let mut i = inter(r, n, spec, kind, faulty, states.clone());
    let mut value = None;
    if kind == Kind::Http && spec > 2 {
      // example values, to be replaced when a state returns one
      let q = &mut i.json["request"];
      q["path"] = json!(format!("/i{n}/example"));
      q["headers"] = json!({"X-Id": if spec == 4 { json!(["example"]) } else { json!("example") }, "Content-Type": if spec == 4 { json!(["application/json"]) } else { json!("application/json") }});
      q["query"] = json!({"q": ["example"]});
      q["body"] = if spec == 4 { json!({"contentType": "application/json", "encoded": false, "content": {"v": "example", "w": 1}}) } else { json!({"v": "example", "w": 1}) };
      let g = |e: &str| json!({"type": "ProviderState", "expression": e});
      let plain = r.bool();
      let e = if plain { "id" } else { "${id}" };
      q["generators"] = json!({"path": if spec == 4 { g(&format!("/i{n}/${{id}}")) } else { g(&format!("/i{n}/${{id}}")) }, "header": {"X-Id": g(e)}, "query": {"q": g(e)}, "body": {"$.v": g(e)}});
      if count > 0 && r.chance(2, 3) {
        let v = if r.bool() { json!(r.range(1, 9999)) } else { json!(r.string_from(&['x', 'y', '7'], 1, 5)) };
        let at = r.us(count as usize);
        if how == How::NoUrl || r.chance(1, 3) {
          // through the parameters in the pact
          let mut s = i.states.clone(); s[at].1.insert("id".into(), v.clone()); i.states = s;
          i.json["providerStates"][at]["params"] = json!(i.states[at].1);
        } else { let mut m: Map<String, Value> = [("id".to_string(), v.clone()), ("other".to_string(), json!([1]))].into_iter().collect(); if r.bool() { m.remove("other"); } plan.insert((states[at].0.clone(), true), Ok(m)); }
        value = Some(v);
      }
    }
    for (s, _) in &states {
      if how == How::NoUrl { break }
      if r.chance(1, 8) { plan.insert((s.clone(), true), Err(*r.pick(&[400u16, 404, 422]))); }
      if teardown && r.chance(1, 12) { plan.insert((s.clone(), false), Err(404)); }
      if (how == How::Body || how == How::Query) && retries >= 2 && r.chance(1, 6) { flaky.insert(s.clone(), r.range(1, retries as i64 - 1) as u32); }
    }
    values.push(value);
    all.push(i);
  }
  let refs: Vec<&Inter> = all.iter().collect();
  let doc = pact(spec, msgs, "consumer", "provider", &refs);
  let log: Log = Default::default();
  let (w, l) = (all.clone(), log.clone());
  let stub = Stub::start(move |q| match whose(&w, &q) {
    Some(i) => { l.lock().unwrap().push(Ev::Request { n: i.n, req: Box::new((q.target.clone(), q.headers.clone(), q.json())) }); i.answer.clone() }
    None => send(599, &[], "")
  });
  let (l, p) = (log.clone(), plan.clone());
  let flaky_seen = flaky.clone();
  let mut left = flaky.clone();
  let state_stub = Stub::start(move |q| {
    let (name, params, action): (String, BTreeMap<String, Value>, String) = if how == How::Query {
      let mut m: BTreeMap<String, Value> = pairs(q.query().unwrap_or("")).into_iter().map(|(k, v)| (k, json!(v.unwrap_or_default()))).collect();
      let (s, a) = (m.remove("state"), m.remove("action"));
      (s.and_then(|s| s.as_str().map(String::from)).unwrap_or("?".into()), m, a.and_then(|s| s.as_str().map(String::from)).unwrap_or("?".into()))
    } else {
      let j = q.json();
      (j["state"].as_str().unwrap_or("?").into(), j["params"].as_object().cloned().unwrap_or_default().into_iter().collect(), j["action"].as_str().unwrap_or("?").into())
    };
    let setup = action == "setup";
    if q.method != "POST" || q.path() != "/change/state" || !(setup || action == "teardown") { return send(405, &[], "") }
    if setup { if let Some(n) = left.get_mut(&name) { if *n > 0 { *n -= 1; return send(503, &[], "") } } }
    l.lock().unwrap().push(Ev::State { name: name.clone(), params, setup });
    match p.get(&(name, setup)) { None => send(200, &[], ""), Some(Ok(m)) => send(200, &[("Content-Type", "application/json")], json!(m).to_string()), Some(Err(c)) => send(*c, &[], "no") }
  });
  cx.note(format!("pact {doc} how {how:?} teardown {teardown} retries {retries} plan {plan:?} flaky {flaky_seen:?}"));
  cx.sample(|| doc.clone());
  let info = provider("provider", stub.port);
  let opts: VerificationOptions<NullRequestFilterExecutor> = options();
  let src = vec![PactSource::String(doc.to_string())];
  let res = no_panic(|| if how == How::Callback {
    block(verify_provider_async(info, src, FilterInfo::None, vec![], &opts, None, &Arc::new(Callbacks { log: log.clone(), plan: plan.clone(), teardown }), None))
  } else {
    let url = if how == How::NoUrl { None } else { Some(format!("http://127.0.0.1:{}/change/state", state_stub.port)) };
    block(verify_provider_async(info, src, FilterInfo::None, vec![], &opts, None, &Arc::new(HttpRequestProviderStateExecutor { state_change_url: url, state_change_teardown: teardown, state_change_body: how != How::Query, reties: retries }), None))
  });
  let res = match res { Ok(Ok(v)) => v, Ok(Err(e)) => return violated("no-verdict", format!("{e}")), Err(p) => return violated("panic", p) };
  drop(stub); drop(state_stub);
  let log = log.lock().unwrap().clone();
  let mut at = log.iter().peekable();
  let as_sent = |p: &Map<String, Value>| -> BTreeMap<String, Value> { p.iter().map(|(k, v)| (k.clone(), if how == How::Query { json!(match v { Value::String(s) => s.clone(), v => v.to_string() }) } else { v.clone() })).collect() };
  let mut want_ok = true;
  for (i, got) in all.iter().zip(&res.interaction_results) {
    let names: Vec<(String, Map<String, Value>)> = if i.states.is_empty() { vec![(String::new(), Map::new())] } else { i.states.clone() };
    let change = |what: &str, setup: bool, at: &mut std::iter::Peekable<std::slice::Iter<Ev>>| -> Verdict {
      for (s, p) in &names {
        let e = at.next();
        ensure!(e == Some(&Ev::State { name: s.clone(), params: as_sent(p), setup }), if setup { "setup" } else { "teardown" }, "{what} of '{s}' {:?} expected for interaction {} but got {:?} (events {:?})", p, i.n, e, log);
      }
      Ok(())
    };
    if how != How::NoUrl { change("set-up", true, &mut at)?; cx.add("states set up", names.len() as u64); }
    let broken = names.iter().any(|(s, _)| matches!(plan.get(&(s.clone(), true)), Some(Err(_))));
    if broken {
      ensure!(!matches!(at.peek(), Some(Ev::Request { .. })), "request-without-state", "interaction {} was sent although a state could not be set up", i.n);
      ensure!(got.result.is_err(), "passed-without-state", "interaction {} passed although a state could not be set up", i.n);
      // clearing up what was set up is allowed
      while matches!(at.peek(), Some(Ev::State { setup: false, .. })) { at.next(); }
      cx.tick("states that could not be set up");
      if !i.pending { want_ok = false }
      continue;
    }
    match at.next() {
      Some(Ev::Request { n, req }) if *n == i.n => {
        if i.kind == Kind::Http && spec > 2 {
          let (target, headers, b) = &**req;
          let v = values[i.n].as_ref();
          let text = v.map(|v| v.as_str().map(String::from).unwrap_or_else(|| v.to_string())).unwrap_or("example".into());
          let (p, q) = target.split_once('?').unwrap_or((target, ""));
          ensure!(p == format!("/i{}/{}", i.n, text), "state-value", "path {p} with state value {:?}", v);
          ensure!(pairs(q) == vec![("q".to_string(), Some(text.clone()))], "state-value", "query {q} with state value {:?}", v);
          ensure!(headers.iter().any(|(k, h)| k.eq_ignore_ascii_case("x-id") && *h == text), "state-value", "headers {:?} with state value {:?}", headers, v);
          let want = json!({"v": v.cloned().unwrap_or(json!("example")), "w": 1});
          // a template gives text, unless it is nothing but the value
          ensure!(*b == want || (v.is_some() && *b == json!({"v": text, "w": 1})), "state-value", "body {b} with state value {:?}", v);
          cx.tick(if v.is_some() { "values of states in requests" } else { "example values kept" });
        }
      }
      e => return violated("request", format!("the request for interaction {} expected but got {:?} (events {:?})", i.n, e, log))
    }
    let mut ok = i.good();
    if teardown && how != How::NoUrl {
      change("tear-down", false, &mut at)?;
      cx.add("states torn down", names.len() as u64);
      if names.iter().any(|(s, _)| matches!(plan.get(&(s.clone(), false)), Some(Err(_)))) { ok = false; cx.tick("states that could not be torn down"); }
    }
    ensure!(got.result.is_ok() == ok, if ok { "failed-good" } else { "passed-broken" }, "interaction {} {:?}: {:?}", i.n, i.faults, got.result.as_ref().err());
    if !ok && !i.pending { want_ok = false }
    cx.saw((how, teardown, names.len(), i.faults.clone(), values[i.n].is_some(), format!("{:?}", i.kind)));
  }
  ensure!(at.peek().is_none(), "events-left", "{:?} after the last interaction", at.collect::<Vec<_>>());
  ensure!(res.interaction_results.len() == all.len(), "results-count", "{} results for {} interactions", res.interaction_results.len(), all.len());
  ensure!(res.result == want_ok, "verdict", "result {} where {} was due", res.result, want_ok);
  if how != How::Callback && how != How::NoUrl { cx.add("state changes retried", all.iter().flat_map(|i| &i.states).filter(|(s, _)| flaky.contains_key(s)).count() as u64); }
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P42", level: "exploration",
    rule: "1-4 generated interactions with 0-3 provider states with parameters, verified with state changes by callback, HTTP body, HTTP query or none, with and without teardown, failing and flaky state handlers and values returned by them; the one log of state changes and provider requests is checked in order against the pact, and returned values against the requests sent. Non-trivial: each distinct (way, teardown, states, faults, value).",
    assumptions: vec!["Whether states are torn down when setting up failed is not judged.", "Two states of one interaction do not return the same name."],
    phases: vec![phase("states", 5000, case)],
    floors: vec![("states set up", 10000), ("states torn down", 4000), ("states that could not be set up", 700), ("states that could not be torn down", 150), ("values of states in requests", 1000), ("example values kept", 1000), ("state changes retried", 200)],
    probes: vec![]
  }
}
