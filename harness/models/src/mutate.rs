//! Building pacts and interactions step by step (P23): a history of changes against a record of what was asked for.
use std::collections::{BTreeMap, HashMap};
use std::panic::RefUnwindSafe;
use moncore::*;
use pact_models::bodies::OptionalBody;
use pact_models::generators::Generators;
use pact_models::http_parts::HttpPart;
use pact_models::interaction::Interaction;
use pact_models::json_utils::json_deep_merge;
use pact_models::v4::interaction::{InteractionMarkup, V4Interaction};
use pact_models::matchingrules::{MatchingRule, RuleLogic};
use pact_models::message_pact::MessagePact;
use pact_models::pact::{load_pact_from_json, Pact, ReadWritePact};
use pact_models::path_exp::DocPath;
use pact_models::provider_states::ProviderState;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::V4InteractionType;
use pact_models::{Consumer, PactSpecification, Provider};
use serde_json::{json, Value};
use crate::gen;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Kind { Rr, Msg, Http, Async, Sync }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum PactKind { Rr, Msg, V4 }

type BoxInt = Box<dyn Interaction + Send + Sync + RefUnwindSafe>;
type BoxPact = Box<dyn Pact + Send + Sync + RefUnwindSafe>;

/// What an interaction should say
#[derive(Clone, Debug, PartialEq)]
struct Rec {
  kind: Kind, id: Option<String>, desc: String, states: Vec<(String, Value)>, pending: bool,
  key: Option<String>, comments: Value, plugin: Value, markup: (String, String), transport: Option<String>,
  /// the contents (request, response, message), as written
  parts: Value
}

fn obj(m: &HashMap<String, Value>) -> Value { Value::Object(m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()) }

/// Comments without contents are not written
fn said(comments: &Value) -> Value {
  Value::Object(comments.as_object().unwrap().iter().filter(|(_, v)| match v { Value::Null => false, Value::String(s) => !s.is_empty(), Value::Array(a) => !a.is_empty(), Value::Object(o) => !o.is_empty(), _ => true }).map(|(k, v)| (k.clone(), v.clone())).collect())
}

fn parts_of(mut j: Value) -> Value {
  let o = j.as_object_mut().unwrap();
  for k in ["description", "providerStates", "providerState", "key", "comments", "pluginConfiguration", "interactionMarkup", "transport", "pending", "type", "_id", "interactionId"] { o.remove(k); }
  j
}

/// What an interaction says
fn observe(i: &dyn Interaction) -> Result<Rec, String> {
  let states = |s: &Vec<ProviderState>| s.iter().map(|s| (s.name.clone(), obj(&s.params))).collect::<Vec<_>>();
  let mut r = Rec { kind: Kind::Rr, id: i.id(), desc: i.description(), states: states(&i.provider_states()), pending: i.pending(), key: None, comments: json!({}), plugin: json!({}), markup: Default::default(), transport: None, parts: Value::Null };
  let flags = (i.is_v4(), i.is_request_response(), i.is_message(), i.is_v4_http(), i.is_v4_async_message(), i.is_v4_sync_message());
  r.kind = match flags {
    (false, true, false, false, false, false) => Kind::Rr, (false, false, true, false, false, false) => Kind::Msg,
    (true, true, false, true, false, false) => Kind::Http, (true, false, true, false, true, false) => Kind::Async, (true, false, false, false, false, true) => Kind::Sync,
    f => return Err(format!("what kind is it? {:?}", f))
  };
  let conversions = (i.as_request_response().is_some(), i.as_message().is_some(), i.as_v4_http().is_some(), i.as_v4_async_message().is_some(), i.as_v4_sync_message().is_some(), i.as_v4().is_some());
  let want = match r.kind { Kind::Rr | Kind::Http => (true, false, true, false, false, true), Kind::Msg | Kind::Async => (false, true, false, true, false, true), Kind::Sync => (false, false, false, false, true, true) };
  if conversions != want { return Err(format!("a {:?} converts as {:?}", r.kind, conversions)) }
  let type_of = match r.kind { Kind::Rr => "V3 Synchronous/HTTP", Kind::Msg => "V3 Asynchronous/Messages", Kind::Http => "V4 Synchronous/HTTP", Kind::Async => "V4 Asynchronous/Messages", Kind::Sync => "V4 Synchronous/Messages" };
  if i.type_of() != type_of { return Err(format!("a {:?} calls itself {}", r.kind, i.type_of())) }
  r.parts = match r.kind {
    Kind::Rr => parts_of(i.as_request_response().unwrap().to_json(&PactSpecification::V3)),
    Kind::Msg => parts_of(i.as_message().unwrap().to_json(&PactSpecification::V3)),
    _ => {
      let v = i.as_v4().unwrap();
      r.key = v.key(); r.comments = obj(&v.comments()); r.plugin = serde_json::to_value(v.plugin_config().iter().map(|(k, v)| (k.clone(), obj(v))).collect::<BTreeMap<_, _>>()).unwrap();
      let m = v.interaction_markup(); r.markup = (m.markup, m.markup_type); r.transport = v.transport();
      let t = match v.v4_type() { V4InteractionType::Synchronous_HTTP => Kind::Http, V4InteractionType::Asynchronous_Messages => Kind::Async, V4InteractionType::Synchronous_Messages => Kind::Sync };
      if t != r.kind { return Err(format!("a {:?} has the V4 type {:?}", r.kind, v.v4_type())) }
      let j = v.to_json();
      if j["type"] != json!(v.v4_type().to_string()) || j["description"] != json!(r.desc) || j["pending"] != json!(r.pending) { return Err(format!("written as {}", j)) }
      parts_of(j)
    }
  };
  Ok(r)
}

/// What an interaction says once it is in a pact of the other format
fn upgraded(i: &dyn Interaction, to: PactKind) -> Result<Option<Rec>, String> {
  let r = observe(i)?;
  Ok(match (to, r.kind) {
    (PactKind::Rr, Kind::Rr | Kind::Http) => Some(Rec { kind: Kind::Rr, pending: false, key: None, comments: json!({}), plugin: json!({}), markup: Default::default(), transport: None, parts: parts_of(i.as_request_response().unwrap().to_json(&PactSpecification::V3)), ..r }),
    (PactKind::Msg, Kind::Msg | Kind::Async) => Some(Rec { kind: Kind::Msg, pending: false, key: None, comments: json!({}), plugin: json!({}), markup: Default::default(), transport: None, parts: parts_of(i.as_message().unwrap().to_json(&PactSpecification::V3)), ..r }),
    (PactKind::V4, Kind::Rr) => Some(Rec { kind: Kind::Http, parts: parts_of(i.as_v4().unwrap().to_json()), ..r }),
    (PactKind::V4, Kind::Msg) => Some(Rec { kind: Kind::Async, parts: parts_of(i.as_v4().unwrap().to_json()), ..r }),
    (PactKind::V4, _) => Some(r),
    _ => None
  })
}

fn an_interaction(r: &mut Rng) -> Result<BoxInt, String> {
  let doc = match r.below(5) {
    0 => { let s = *r.pick(&[gen::Spec::V1, gen::Spec::V2, gen::Spec::V3]); loop { let d = gen::pact_v123(r, s).doc; if !d["interactions"].as_array().unwrap().is_empty() { break d } } }
    1 => loop { let d = gen::message_pact_v3(r).doc; if !d["messages"].as_array().unwrap().is_empty() { break d } },
    n => {
      let mut i = gen::interaction_v4(r, n - 2).0;
      i["description"] = json!(gen::text(r));
      json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [i], "metadata": {"pactSpecification": {"version": "4.0"}}})
    }
  };
  let p = load_pact_from_json("gen", &doc).map_err(|e| e.to_string())?;
  let mut i = p.interactions().into_iter().next().ok_or("no interaction")?;
  if r.bool() { i.set_id(Some(gen::word(r))) }
  Ok(i)
}

struct Pacts { kind: PactKind, pact: BoxPact, recs: Vec<Rec>, versions: BTreeMap<String, String>, metadata: BTreeMap<String, BTreeMap<String, String>>, plugins: Vec<(String, String, Value)>, names: (String, String) }

impl Pacts {
  fn check(&self, pact: &dyn Pact, recs: &[Rec]) -> Result<(), String> {
    let got = pact.interactions();
    if got.len() != recs.len() { return Err(format!("{} interactions, {} were added", got.len(), recs.len())) }
    for (n, (g, w)) in got.iter().zip(recs).enumerate() {
      let g = observe(g.as_ref())?;
      if g != *w { return Err(format!("interaction {} is {:?}, should be {:?}", n, g, w)) }
    }
    if pact.is_v4() != (self.kind == PactKind::V4) || (self.kind == PactKind::V4) != (pact.specification_version() == PactSpecification::V4) { return Err("is_v4".into()) }
    if pact.consumer().name != self.names.0 || pact.provider().name != self.names.1 { return Err(format!("between {:?} and {:?}", pact.consumer(), pact.provider())) }
    Ok(())
  }

  fn check_all(&self) -> Result<(), String> {
    self.check(self.pact.as_ref(), &self.recs)?;
    let plugins: Vec<(String, String, Value)> = self.pact.plugin_data().iter().map(|p| (p.name.clone(), p.version.clone(), obj(&p.configuration))).collect();
    if plugins != self.plugins { return Err(format!("plugins are {:?}, should be {:?}", plugins, self.plugins)) }
    if self.pact.requires_plugins() != !self.plugins.is_empty() { return Err("requires_plugins".into()) }
    let md = self.pact.metadata();
    let mut want = self.metadata.clone();
    if !self.versions.is_empty() { want.entry("pactRust".into()).or_default().extend(self.versions.clone()); }
    if md != want { return Err(format!("metadata is {:?}, should be {:?}", md, want)) }
    if self.pact.default_file_name() != format!("{}-{}.json", self.names.0, self.names.1) { return Err(format!("file name {}", self.pact.default_file_name())) }
    // the written document says the same
    let spec = match self.kind { PactKind::V4 => PactSpecification::V4, _ => PactSpecification::V3 };
    let j = self.pact.to_json(spec).map_err(|e| e.to_string())?;
    let list = j[if self.kind == PactKind::Msg { "messages" } else { "interactions" }].as_array().ok_or("no interactions written")?.clone();
    let mut order: Vec<&Rec> = self.recs.iter().collect();
    if self.kind == PactKind::V4 { order.sort_by_key(|r| r.desc.clone()) }
    if list.len() != order.len() { return Err(format!("{} written of {}", list.len(), order.len())) }
    for (d, r) in list.iter().zip(&order) {
      let states: Vec<(String, Value)> = d.get("providerStates").and_then(|s| s.as_array()).map(|s| s.iter().map(|s| (s["name"].as_str().unwrap_or("?").to_string(), s.get("params").cloned().unwrap_or(json!({})))).collect()).unwrap_or_default();
      if d["description"] != json!(r.desc) || states != r.states { return Err(format!("description {:?} and states {:?} are written as {}", r.desc, r.states, d)) }
      if self.kind == PactKind::V4 {
        if d.get("transport").cloned().unwrap_or(Value::Null) != json!(r.transport) || d.get("key").cloned().unwrap_or(Value::Null) != json!(r.key)
          || d.get("pluginConfiguration").cloned().unwrap_or(json!({})) != r.plugin || d.get("comments").cloned().unwrap_or(json!({})) != said(&r.comments) { return Err(format!("transport {:?}, key {:?}, plugin configuration {} and comments {} are written as {}", r.transport, r.key, r.plugin, r.comments, d)) }
        if !r.markup.0.is_empty() && d["interactionMarkup"] != json!({"markup": r.markup.0, "markupType": r.markup.1}) { return Err(format!("markup {:?} is written as {}", r.markup, d)) }
      }
      if parts_of(d.clone()) != r.parts { return Err(format!("contents {} are written as {}", r.parts, parts_of(d.clone()))) }
    }
    for (k, v) in &self.versions { if k != "models" && j["metadata"]["pactRust"][k] != json!(v) { return Err(format!("metadata written as {}", j["metadata"])) } }
    if self.kind == PactKind::V4 {
      let p: Vec<(String, String, Value)> = j["metadata"].get("plugins").and_then(|p| p.as_array()).cloned().unwrap_or_default().iter().map(|p| (p["name"].as_str().unwrap_or("").into(), p["version"].as_str().unwrap_or("").into(), p["configuration"].clone())).collect();
      if p != self.plugins { return Err(format!("plugins written as {:?}, should be {:?}", p, self.plugins)) }
    }
    // and what it finds is what is there
    if let Ok(v4) = self.pact.as_v4_pact() {
      if self.kind == PactKind::V4 {
        let mut kinds: Vec<Kind> = vec![];
        for (t, k) in [(V4InteractionType::Synchronous_HTTP, Kind::Http), (V4InteractionType::Asynchronous_Messages, Kind::Async), (V4InteractionType::Synchronous_Messages, Kind::Sync)] {
          let want: Vec<&Rec> = self.recs.iter().filter(|r| r.kind == k).collect();
          let got = v4.filter_interactions(t.clone());
          if got.len() != want.len() { return Err(format!("{} interactions of type {}, there are {}", got.len(), t, want.len())) }
          for (g, w) in got.iter().zip(&want) { if observe(g.as_ref())? != **w { return Err(format!("filtering by {} gave {:?} for {:?}", t, g, w)) } }
          if v4.has_interactions(t) != !want.is_empty() { return Err("has_interactions".into()) }
          if !want.is_empty() { kinds.push(k) }
        }
        if v4.has_mixed_interactions() != (kinds.len() > 1) { return Err("has_mixed_interactions".into()) }
        for id in self.recs.iter().filter_map(|r| r.id.clone()).chain(["nobody".to_string(), String::new()]) {
          let want = self.recs.iter().find(|r| r.id.as_deref() == Some(&id));
          let got = match v4.find_interaction_with_id(&id) { Some(i) => Some(observe(i.to_super())?), None => None };
          if got.as_ref() != want { return Err(format!("looking for {:?} found {:?}, it is {:?}", id, got, want)) }
        }
      }
    }
    Ok(())
  }
}

fn config(r: &mut Rng) -> HashMap<String, Value> { let n = r.range(0, 2); (0..n).map(|_| (r.pick_s(&["a", "b", "conf"]), { let v = gen::jvalue(r, 2); v })).collect() }

fn set_in(parts: &mut Value, path: &[&str], v: Option<Value>) {
  let (last, front) = path.split_last().unwrap();
  let mut at = parts;
  for p in front { if !at.get(*p).map(|x| x.is_object()).unwrap_or(false) { at[*p] = json!({}); } at = at.get_mut(*p).unwrap(); }
  match v { Some(v) => { at[*last] = v; } None => { at.as_object_mut().unwrap().remove(*last); } }
}

fn history_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let kind = *r.pick(&[PactKind::Rr, PactKind::Msg, PactKind::V4, PactKind::V4, PactKind::V4]);
  let names = (gen::text1(r), gen::text1(r));
  let mut metadata: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
  for _ in 0..r.below(3) { let k = r.pick_s(&["pactRust", "x", "cli"]); metadata.entry(k).or_default().insert(r.pick_s(&["ffi", "models", "v"]), gen::word(r)); }
  let (c, p) = (Consumer { name: names.0.clone() }, Provider { name: names.1.clone() });
  let pact: BoxPact = match kind {
    PactKind::Rr => Box::new(RequestResponsePact { consumer: c, provider: p, metadata: metadata.clone(), .. RequestResponsePact::default() }),
    PactKind::Msg => Box::new(MessagePact { consumer: c, provider: p, metadata: metadata.clone(), .. MessagePact::default() }),
    PactKind::V4 => Box::new(V4Pact { consumer: c, provider: p, metadata: metadata.iter().map(|(k, v)| (k.clone(), json!(v))).collect(), .. V4Pact::default() })
  };
  let mut s = Pacts { kind, pact, recs: vec![], versions: BTreeMap::new(), metadata, plugins: vec![], names };
  let mut copies: Vec<(BoxPact, Vec<Rec>)> = vec![];
  let mut trace: Vec<String> = vec![];
  let steps = r.range(3, 12);
  macro_rules! fail { ($sig:expr, $($x:tt)*) => { return violated($sig, format!("{} after {:?}", format!($($x)*), trace)) } }
  for _ in 0..steps {
    let n = s.recs.len();
    let at = if n > 0 { r.us(n) } else { 0 };
    match if n == 0 { r.below(4) } else { r.below(16) } {
      0 | 1 | 10 => {
        let i = match an_interaction(r) { Ok(i) => i, Err(e) => fail!("not-loaded", "{}", e) };
        let want = match upgraded(i.as_ref(), kind) { Ok(w) => w, Err(e) => fail!("interaction-unclear", "{}", e) };
        let before = observe(i.as_ref());
        let ok = s.pact.add_interaction(i.as_ref());
        trace.push(format!("add {:?}", before.as_ref().map(|b| b.kind)));
        if ok.is_ok() != want.is_some() { fail!("add-accepted", "adding a {} to a {:?} pact gave {:?}", i.type_of(), kind, ok) }
        if let Some(mut w) = want { w.id = i.id(); s.recs.push(w); cx.tick("interactions added") } else { cx.tick("interactions refused") }
        if observe(i.as_ref()) != before { fail!("added-changed", "adding changed the interaction itself") }
      }
      2 => {
        let (name, version, data) = (r.pick_s(&["csv", "grpc"]), r.pick_s(&["1.0", "2.0"]), config(r));
        let ok = s.pact.add_plugin(&name, &version, if data.is_empty() && r.bool() { None } else { Some(data.clone()) });
        trace.push(format!("plugin {} {} {:?}", name, version, data));
        if ok.is_ok() != (kind == PactKind::V4) { fail!("plugin-accepted", "adding a plugin to a {:?} pact gave {:?}", kind, ok) }
        if kind == PactKind::V4 {
          match s.plugins.iter_mut().find(|p| p.0 == name && p.1 == version) {
            Some(p) => { for (k, v) in &data { let m = match p.2.get(k) { Some(old) => json_deep_merge(old, v), None => v.clone() }; p.2[k] = m; } cx.tick("plugin data merged") }
            None => s.plugins.push((name, version, obj(&data)))
          }
        }
      }
      3 => { let (k, v) = (r.pick_s(&["ffi", "mockserver", "verifier"]), gen::word(r)); s.pact.add_md_version(&k, &v); trace.push(format!("version {} {}", k, v)); s.versions.insert(k, v); cx.tick("versions added") }
      4 => { let id = if r.chance(1, 4) { None } else { Some(gen::word(r)) }; s.pact.interactions_mut()[at].set_id(id.clone()); trace.push(format!("id {} {:?}", at, id)); s.recs[at].id = id; cx.tick("ids set") }
      5 => { let d = gen::text(r); s.pact.interactions_mut()[at].set_description(&d); trace.push(format!("description {} {:?}", at, d)); s.recs[at].desc = d; cx.tick("descriptions set") }
      6 => {
        let st = ProviderState { name: gen::text1(r), params: config(r) };
        let mut all = s.pact.interactions_mut();
        let v = all[at].provider_states_mut();
        if r.chance(1, 4) { v.clear(); s.recs[at].states.clear(); trace.push(format!("no states {}", at)); }
        else { s.recs[at].states.push((st.name.clone(), obj(&st.params))); trace.push(format!("state {} {:?}", at, st)); v.push(st); }
        cx.tick("states changed")
      }
      7 | 8 => {
        let mut all = s.pact.interactions_mut();
        let rec = &mut s.recs[at];
        match all[at].as_v4_mut() {
          None => if kind == PactKind::V4 { fail!("no-v4-access", "interaction {} of a V4 pact", at) },
          Some(v) => {
            if kind != PactKind::V4 { fail!("v4-access", "interaction {} of a {:?} pact", at, kind) }
            match r.below(4) {
              0 => { let (k, x) = (gen::word(r), gen::jvalue(r, 2)); v.comments_mut().insert(k.clone(), x.clone()); trace.push(format!("comment {} {}", at, k)); rec.comments[k] = x; }
              1 => { let (k, x) = (gen::word(r), config(r)); v.plugin_config_mut().insert(k.clone(), x.clone()); trace.push(format!("plugin config {} {}", at, k)); rec.plugin[k] = obj(&x); }
              2 if r.chance(1, 3) => {
                let (m, t) = (format!("{}{}{}", r.pick_s(&["", "  ", "\n", "\t- "]), gen::text1(r), r.pick_s(&["", " ", "\n\n"])), r.pick_s(&["COMMON_MARK", "HTML"]));
                let other = InteractionMarkup { markup: m.clone(), markup_type: t.clone() };
                let mu = v.interaction_markup_mut(); let joined = mu.merge(other); *mu = joined;
                trace.push(format!("join markup {}", at)); cx.tick("markup joined");
                rec.markup = if rec.markup.0.is_empty() { (m, t) } else { (format!("{}\n{}", rec.markup.0, m), rec.markup.1.clone()) };
              }
              2 => { let (m, t) = (gen::text1(r), r.pick_s(&["COMMON_MARK", "HTML"])); let mu = v.interaction_markup_mut(); mu.markup = m.clone(); mu.markup_type = t.clone(); trace.push(format!("markup {}", at)); rec.markup = (m, t); }
              _ => { let t = if r.chance(1, 4) { None } else { Some(gen::word(r)) }; v.set_transport(t.clone()); trace.push(format!("transport {} {:?}", at, t)); rec.transport = t; }
            }
            cx.tick("V4 attributes changed")
          }
        }
      }
      9 | 11 | 12 => {
        // the contents of one interaction
        let text = format!("x{}", gen::word(r));
        let body = OptionalBody::from(text.as_str());
        let rule = MatchingRule::MinType(r.us(9));
        let path = DocPath::root().join(r.pick_s(&["a", "b"]));
        let what = r.below(3);
        let mut all = s.pact.interactions_mut();
        let rec = &mut s.recs[at];
        let kinds = (all[at].as_v4_http_mut().is_some(), all[at].as_v4_async_message_mut().is_some(), all[at].as_v4_sync_message_mut().is_some());
        if kinds != (rec.kind == Kind::Http, rec.kind == Kind::Async, rec.kind == Kind::Sync) { fail!("wrong-access", "a {:?} gives access as {:?}", rec.kind, kinds) }
        let response = r.bool();
        let n_res = rec.parts.get("response").and_then(|x| x.as_array()).map(|a| a.len()).unwrap_or(0);
        let (part, place): (&mut dyn HttpPart, Vec<String>) = match rec.kind {
          Kind::Http => { let h = all[at].as_v4_http_mut().unwrap(); if response { (&mut h.response, vec!["response".into()]) } else { (&mut h.request, vec!["request".into()]) } }
          Kind::Async => (&mut all[at].as_v4_async_message_mut().unwrap().contents, vec![]),
          Kind::Sync => { let m = all[at].as_v4_sync_message_mut().unwrap(); if response && n_res > 0 { (&mut m.response[0], vec!["response".into(), "0".into()]) } else { (&mut m.request, vec!["request".into()]) } }
          _ => continue
        };
        let body_name = if rec.kind == Kind::Http { "body" } else { "contents" };
        trace.push(format!("{} of {} {:?}", ["body", "rule", "header"][what as usize], at, place));
        let mut expect = rec.parts.clone();
        { let mut here = &mut expect;
          for p in &place { here = if p == "0" { &mut here[0] } else { here.get_mut(p.as_str()).unwrap() }; }
          match what {
            0 => { *part.body_mut() = body.clone(); set_in(here, &[body_name], None); }
            1 => { part.matching_rules_mut().add_category("body").add_rule(path.clone(), rule.clone(), RuleLogic::And); set_in(here, &["matchingRules"], None); }
            _ => { if rec.kind == Kind::Http { part.add_header("X-Set", vec!["v", &text]); set_in(here, &["headers"], None); } }
          } }
        let said = match what {
          0 => *part.body() == body && part.body().value().map(|b| b.to_vec()) == Some(text.clone().into_bytes()),
          1 => part.matching_rules().rules_for_category("body").map(|c| c.rules.get(&path).map(|l| l.rules.contains(&rule)).unwrap_or(false)).unwrap_or(false),
          _ => rec.kind != Kind::Http || part.lookup_header_value("x-set") == Some(format!("v, {}", text)) && part.headers().as_ref().unwrap().keys().filter(|k| k.eq_ignore_ascii_case("x-set")).count() == 1
        };
        let g: Generators = part.generators().clone();
        part.generators_mut().add_generators(g.clone());
        if *part.generators() != g { fail!("generators-changed", "adding generators to themselves gave {:?} for {:?}", part.generators(), g) }
        if !said { fail!("change-lost", "the {} of interaction {} was not changed", ["body", "rule", "header"][what as usize], at) }
        drop(all);
        // nothing else changed
        let now = match observe(s.pact.interactions()[at].as_ref()) { Ok(n) => n, Err(e) => fail!("interaction-unclear", "{}", e) };
        let mut got = now.parts.clone();
        let mut here = &mut got;
        for p in &place { here = if p == "0" { &mut here[0] } else { here.get_mut(p.as_str()).unwrap() }; }
        set_in(here, &[match what { 0 => body_name, 1 => "matchingRules", _ => "headers" }], None);
        if what == 2 && s.recs[at].kind != Kind::Http { expect = got.clone(); if now.parts != s.recs[at].parts { fail!("other-parts-changed", "{} became {}", s.recs[at].parts, now.parts) } }
        if got != expect { fail!("other-parts-changed", "{} became {}", expect, got) }
        s.recs[at].parts = now.parts;
        cx.tick("contents changed")
      }
      13 => {
        let copy = match r.below(3) { 0 => s.pact.boxed(), 1 => s.pact.arced().boxed(), _ => s.pact.thread_safe().lock().unwrap().boxed() };
        let (a, b): (Box<dyn Pact>, Box<dyn Pact>) = (s.pact.boxed(), copy.boxed());
        let c = a.clone();
        if !(&a == &b && &b == &a && &a == &c) { fail!("copy-differs", "a copy is not equal to its pact") }
        trace.push("copy".into());
        copies.push((copy, s.recs.clone())); cx.tick("copies")
      }
      14 => {
        // copies of one interaction
        let i = &s.pact.interactions()[at];
        let (a, b, c) = (i.boxed(), i.arced(), i.thread_safe());
        let z = c.lock().unwrap();
        for o in [observe(a.as_ref()), observe(b.as_ref()), observe(&*z)] { match o { Ok(o) if o == s.recs[at] => (), o => fail!("copy-differs", "a copy of an interaction is {:?}, should be {:?}", o, s.recs[at]) } }
        let d = format!("{}", a.as_ref() as &dyn Interaction);
        if !d.contains(&s.recs[at].desc) && !d.contains(&format!("{:?}", s.recs[at].desc)) { fail!("display", "{} displays as {}", s.recs[at].desc, d) }
        let d = a.as_v4().map(|v| format!("{}", v.as_ref() as &dyn V4Interaction)).unwrap_or_default();
        if s.recs[at].pending != d.contains("[PENDING]") { fail!("display-pending", "pending is {}, displayed as {}", s.recs[at].pending, d) }
        cx.tick("interaction copies")
      }
      _ => {
        // a different description makes a different pact
        let a: Box<dyn Pact> = s.pact.boxed();
        let mut b: Box<dyn Pact> = s.pact.boxed();
        let d = format!("{}!", s.recs[at].desc);
        b.interactions_mut()[at].set_description(&d);
        if &a == &b { fail!("different-pacts-equal", "two pacts of which interaction {} has another description are equal", at) }
        cx.tick("pacts told apart")
      }
    }
    match no_panic(|| s.check_all()) { Ok(Ok(())) => (), Ok(Err(e)) => fail!("pact-differs", "{}", e), Err(e) => fail!("pact-panics", "{}", e) }
    cx.tick("states compared");
  }
  for (c, recs) in &copies { if let Err(e) = s.check(c.as_ref(), recs) { fail!("copy-changed", "a copy was changed by later steps: {}", e) } }
  cx.saw(&(kind, s.recs.iter().map(|r| r.kind).collect::<Vec<_>>(), trace.len()));
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P23", level: "exploration",
    rule: "after every step of a seeded history of additions and changes, everything the pact and its interactions report and write against a record of exactly the steps asked for; copies against the record at the time of copying",
    assumptions: vec!["the contents an interaction has after conversion to the format of the pact are taken from the interaction's own conversion, which P06 judges"],
    phases: vec![phase("histories", 6_000, history_case)],
    floors: vec![("interactions added", 3_000), ("interactions refused", 300), ("plugin data merged", 100), ("versions added", 500), ("ids set", 500), ("descriptions set", 500), ("states changed", 500), ("V4 attributes changed", 500), ("contents changed", 500), ("copies", 500), ("markup joined", 50), ("pacts told apart", 300), ("states compared", 20_000)],
    probes: vec![]
  }
}
