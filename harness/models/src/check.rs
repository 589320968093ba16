//! Checking pact files (P21): a document with a known set of faults is reported with exactly those faults.
use moncore::*;
use pact_models::message_pact::MessagePact;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::pact::V4Pact;
use pact_models::verify_json::{json_type_of, PactFileVerificationResult, PactJsonVerifier, ResultLevel};
use pact_models::PactSpecification;
use serde_json::{json, Map, Value};
use crate::gen;

#[derive(Clone, Debug, PartialEq)]
struct Want { path: String, level: ResultLevel, says: Vec<String> }

struct Faults { strict: bool, want: Vec<Want>, kinds: Vec<&'static str> }

impl Faults {
  fn add(&mut self, kind: &'static str, path: impl Into<String>, level: ResultLevel, says: &[&str]) {
    self.kinds.push(kind);
    self.want.push(Want { path: path.into(), level, says: says.iter().map(|s| s.to_string()).collect() });
  }
  fn soft(&mut self, kind: &'static str, path: impl Into<String>, says: &[&str]) { let l = if self.strict { ResultLevel::ERROR } else { ResultLevel::WARNING }; self.add(kind, path, l, says) }
  fn hard(&mut self, kind: &'static str, path: impl Into<String>, says: &[&str]) { self.add(kind, path, ResultLevel::ERROR, says) }
  fn warn(&mut self, kind: &'static str, path: impl Into<String>, says: &[&str]) { self.add(kind, path, ResultLevel::WARNING, says) }
}

fn type_name(v: &Value) -> &'static str { match v { Value::Null => "Null", Value::Bool(_) => "Bool", Value::Number(_) => "Number", Value::String(_) => "String", Value::Array(_) => "Array", Value::Object(_) => "Object" } }

/// A value of a type other than those named
fn not(r: &mut Rng, allowed: &[&str]) -> Value {
  loop {
    let v = match r.below(6) { 0 => Value::Null, 1 => json!(r.bool()), 2 => gen::number(r), 3 => json!(gen::text(r)), 4 => json!([gen::jscalar(r)]), _ => gen::jobject(r, 1) };
    if !allowed.contains(&type_name(&v)) { return v }
  }
}

fn odd_name(r: &mut Rng, taken: &[&str]) -> String { loop { let k = match r.below(3) { 0 => gen::ident(r), 1 => gen::text1(r), _ => r.pick_s(&["Name", "names", "messages", "state", "_id2", "key", "version", "interaction", "meta", "provider_states", "consumers"]) }; if !taken.contains(&k.as_str()) { return k } } }

fn pacticipant(r: &mut Rng, doc: &mut Map<String, Value>, who: &str, f: &mut Faults) {
  let at = format!("/{}", who);
  match r.below(8) {
    0 => { doc.remove(who); f.soft("pacticipant missing", at, &[who]); return }
    1 => { let v = not(r, &["Object"]); f.hard("pacticipant of another type", at, &["Object", type_name(&v)]); doc.insert(who.into(), v); return }
    2 | 3 => { doc[who].as_object_mut().unwrap().remove("name"); f.soft("name missing", format!("{}/name", at), &["name"]) }
    4 | 5 => { let v = not(r, &["String"]); f.hard("name of another type", format!("{}/name", at), &["String", type_name(&v)]); doc[who]["name"] = v; }
    _ => ()
  }
  for _ in 0..r.below(3) { let k = odd_name(r, &["name"]); if doc[who].get(&k).is_some() { continue } f.soft("unknown attribute of a pacticipant", at.clone(), &[&k]); doc[who][&k] = gen::jscalar(r); }
}

fn state(r: &mut Rng, at: &str, f: &mut Faults) -> Value {
  let mut s = json!({"name": gen::text1(r)});
  if r.bool() { s["params"] = gen::jobject(r, 1); }
  match r.below(9) {
    0 => { let v = not(r, &["String", "Object"]); f.hard("state of another type", at, &[type_name(&v)]); return v }
    1 => return json!(gen::text(r)),
    _ => ()
  }
  // the faults of a state do not depend on each other
  match r.below(6) {
    0 => { s.as_object_mut().unwrap().remove("name"); f.hard("state without a name", at, &["name"]) }
    1 => { let v = not(r, &["String"]); f.hard("state name of another type", at, &["name", "String", type_name(&v)]); s["name"] = v; }
    _ => ()
  }
  if r.chance(1, 5) { let v = not(r, &["Object"]); f.hard("state parameters of another type", at, &["params", "Object", type_name(&v)]); s["params"] = v; }
  for _ in 0..r.below(6).saturating_sub(3) { let k = odd_name(r, &["name", "params"]); if s.get(&k).is_some() { continue } f.soft("unknown attribute of a state", at, &[&k]); s[&k] = gen::jscalar(r); }
  s
}

fn interaction(r: &mut Rng, i: &mut Value, n: usize, spec: PactSpecification, f: &mut Faults) {
  let at = format!("/interactions/{}", n);
  if r.chance(1, 12) { let v = not(r, &["Object"]); f.hard("interaction of another type", at, &["Object", type_name(&v)]); *i = v; return }
  let o = i.as_object_mut().unwrap();
  match r.below(6) {
    0 => { o.remove("description"); f.soft("description missing", at.clone(), &["description"]) }
    1 => { let v = not(r, &["String"]); f.hard("description of another type", format!("{}/description", at), &["String", type_name(&v)]); o.insert("description".into(), v); }
    _ => ()
  }
  if r.chance(1, 4) { o.insert("_id".into(), json!(gen::word(r))); }
  o.remove("providerState"); o.remove("providerStates");
  match r.below(8) {
    0 => { let v = not(r, &["Array"]); f.hard("states of another type", at.clone(), &["providerStates", "Array", type_name(&v)]); o.insert("providerStates".into(), v); }
    1 | 2 => { let n = r.below(4); let v: Vec<Value> = (0..n).map(|k| state(r, &format!("{}/providerStates/{}", at, k), f)).collect(); o.insert("providerStates".into(), json!(v)); }
    3 => { let v = state(r, &format!("{}/providerStates/0", at), f); if spec >= PactSpecification::V3 { f.warn("old name of the states", at.clone(), &["providerState"]) } o.insert("providerState".into(), v); }
    4 => { let v = state(r, &format!("{}/providerStates/0", at), f); f.warn("old name of the states", at.clone(), &["provider_state"]); o.insert("provider_state".into(), v); }
    _ => ()
  }
  if r.chance(1, 5) { let k = odd_name(r, &["_id", "description", "providerState", "provider_state", "providerStates", "request", "response"]); if !o.contains_key(&k) { f.soft("unknown attribute of an interaction", at, &[&k]); let v = gen::jscalar(r); o.insert(k, v); } }
}

fn metadata(r: &mut Rng, doc: &mut Map<String, Value>, f: &mut Faults) {
  let good = ["1.0.0", "1.1.0", "2.0.0", "3.0.0", "4.0", "4.0.0", "3.0", "2", "1.1", "3"];
  let md = doc.get_mut("metadata").unwrap().as_object_mut().unwrap();
  md.insert("pactSpecification".into(), json!({"version": r.pick_s(&good)}));
  let at = "/metadata/pactSpecification";
  match r.below(10) {
    0 => { let v = not(r, &["Object"]); f.hard("metadata of another type", "/metadata", &["Object", type_name(&v)]); doc.insert("metadata".into(), v); return }
    1 => { doc.remove("metadata"); return }
    2 => { md.remove("pactSpecification"); }
    3 => { let v = not(r, &["Object"]); f.hard("specification of another type", at, &["Object", type_name(&v)]); md.insert("pactSpecification".into(), v); }
    4 => { f.warn("specification without a version", at, &["version"]); md.insert("pactSpecification".into(), json!({ (odd_name(r, &["version"])): "2.0.0" })); }
    5 => { f.warn("version of null", format!("{}/version", at), &["version"]); md["pactSpecification"]["version"] = Value::Null; }
    6 => { let v = not(r, &["String", "Null"]); f.hard("version of another type", format!("{}/version", at), &["String", type_name(&v)]); md["pactSpecification"]["version"] = v; }
    7 => { let v = r.pick_s(&["", "x", "5.0.0", "0.9", "1.2.0", "2.1.0", "3.1.0", "4.1", "one", "latest", "-1", "99999999999999999999.0.0"]); f.hard("version that is none", format!("{}/version", at), &[&v]); md["pactSpecification"]["version"] = json!(v); }
    _ => ()
  }
  if r.chance(1, 6) { f.warn("old name of the version", "/metadata", &["pactSpecificationVersion"]); md.insert("pactSpecificationVersion".into(), json!(r.pick_s(&good))); }
  if r.chance(1, 6) && !md.contains_key("pactSpecification") { f.warn("old name of the specification", "/metadata", &["pact-specification"]); md.insert("pact-specification".into(), json!({"version": r.pick_s(&good)})); }
}

fn spec_of(s: gen::Spec) -> PactSpecification { match s { gen::Spec::V1 => PactSpecification::V1, gen::Spec::V11 => PactSpecification::V1_1, gen::Spec::V2 => PactSpecification::V2, gen::Spec::V3 => PactSpecification::V3 } }

/// Every expected fault is reported once and nothing else is
fn compare(want: &[Want], got: &[PactFileVerificationResult]) -> Result<(), String> {
  // a pairing of faults and reports (one report can fit several faults)
  fn find(w: usize, fits: &dyn Fn(usize, usize) -> bool, n: usize, seen: &mut [bool], of: &mut [Option<usize>]) -> bool {
    for g in 0..n {
      if seen[g] || !fits(w, g) { continue }
      seen[g] = true;
      let free = match of[g] { None => true, Some(o) => find(o, fits, n, seen, of) };
      if free { of[g] = Some(w); return true }
    }
    false
  }
  let fits = |w: usize, g: usize| { let (w, g) = (&want[w], &got[g]); g.path == w.path && g.level == w.level && w.says.iter().all(|s| g.message.contains(s.as_str())) };
  let mut of = vec![None; got.len()];
  for w in 0..want.len() { if !find(w, &fits, got.len(), &mut vec![false; got.len()], &mut of) { return Err(format!("{:?} is not reported", want[w])) } }
  let left: Vec<_> = of.iter().zip(got).filter(|(o, _)| o.is_none()).map(|(_, g)| g).collect();
  if left.is_empty() { Ok(()) } else { Err(format!("reported for no reason: {:?}", left)) }
}

fn file_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let spec = *r.pick(&[gen::Spec::V1, gen::Spec::V11, gen::Spec::V2, gen::Spec::V3]);
  let clean = gen::pact_v123(r, spec).doc;
  let as_spec = spec_of(spec);
  let strict = r.bool();
  // a document that follows the format
  let got = match no_panic(|| RequestResponsePact::verify_json("/", &clean, strict, as_spec)) { Ok(g) => g, Err(e) => return violated("check-panics", format!("checking {} panicked: {}", clean, e)) };
  let empty = clean["interactions"].as_array().unwrap().is_empty();
  ensure!(got.iter().all(|g| empty && g.path == "/interactions" && g.level == ResultLevel::WARNING) && got.len() == empty as usize, "clean-file-reported", "a document that follows the {} format is reported: {:?}\n{}", as_spec, got, clean);
  cx.tick("documents without faults");
  // the same document with known faults
  let mut doc = clean.clone();
  let mut f = Faults { strict, want: vec![], kinds: vec![] };
  if r.chance(1, 25) {
    let v = not(r, &["Object"]);
    f.hard("document of another type", "/", &["Object", type_name(&v)]);
    doc = v;
  } else {
    let o = doc.as_object_mut().unwrap();
    if r.chance(1, 3) { pacticipant(r, o, "consumer", &mut f) }
    if r.chance(1, 3) { pacticipant(r, o, "provider", &mut f) }
    if empty { f.warn("no interactions", "/interactions", &["nteractions"]) }
    if r.chance(1, 8) {
      f.want.retain(|w| w.path != "/interactions");
      if r.bool() { o.remove("interactions"); f.warn("interactions missing", "/interactions", &["nteractions"]) }
      else { let v = not(r, &["Array"]); f.hard("interactions of another type", "/interactions", &["Array", type_name(&v)]); o.insert("interactions".into(), v); }
    } else {
      let all = o.get_mut("interactions").unwrap().as_array_mut().unwrap();
      for (n, i) in all.iter_mut().enumerate() { if r.chance(1, 2) { interaction(r, i, n, as_spec, &mut f) } }
    }
    if r.chance(1, 2) { metadata(r, o, &mut f) }
    if r.chance(1, 5) { let k = odd_name(r, &["consumer", "provider", "interactions", "metadata"]); if !o.contains_key(&k) { f.soft("unknown attribute of the document", format!("/{}", k), &[&k]); let v = gen::jscalar(r); o.insert(k, v); } }
  }
  let got = match no_panic(|| RequestResponsePact::verify_json("/", &doc, strict, as_spec)) { Ok(g) => g, Err(e) => return violated("check-panics", format!("checking {} panicked: {}", doc, e)) };
  if let Err(e) = compare(&f.want, &got) { return violated("faults-misreported", format!("{} (strict: {}, as {}); reported were {:?}; document {}", e, strict, as_spec, got, doc)) }
  for k in &f.kinds { cx.tick(k) }
  if f.kinds.len() > 1 { cx.tick("documents with several faults") }
  cx.saw(&(strict, { let mut k = f.kinds.clone(); k.sort(); k }));
  // leniency only lowers the level of what is tolerated
  let other = RequestResponsePact::verify_json("/", &doc, !strict, as_spec);
  let key = |v: &[PactFileVerificationResult]| { let mut k: Vec<(String, String)> = v.iter().map(|g| (g.path.clone(), g.message.clone())).collect(); k.sort(); k };
  ensure!(key(&got) == key(&other), "strictness-changes-findings", "strict {} reports {:?}, strict {} reports {:?} for {}", strict, got, !strict, other, doc);
  let errs = |v: &[PactFileVerificationResult]| v.iter().filter(|g| g.level == ResultLevel::ERROR).count();
  let (s, l) = if strict { (errs(&got), errs(&other)) } else { (errs(&other), errs(&got)) };
  ensure!(s >= l, "lenient-check-is-stricter", "{} errors when strict, {} when lenient, for {}", s, l, doc);
  // results survive being passed on as JSON
  for g in got.iter().take(2) {
    let j = serde_json::to_value(g).unwrap();
    let back: PactFileVerificationResult = match serde_json::from_value(j.clone()) { Ok(b) => b, Err(e) => return violated("result-not-readable", format!("{}: {}", j, e)) };
    ensure!(back.path == g.path && back.level == g.level && back.message == g.message && j["level"] == json!(g.level.to_string()), "result-changed", "{:?} became {:?}", g, back);
  }
  Ok(())
}

fn other_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let v = match r.below(3) { 0 => not(r, &["Object"]), 1 => gen::pact_v4(r).doc, _ => gen::message_pact_v3(r).doc };
  ensure!(json_type_of(&v) == type_name(&v), "type-misnamed", "{} is called {}", v, json_type_of(&v));
  for strict in [true, false] {
    for (what, got) in [("message pact", MessagePact::verify_json("/", &v, strict, PactSpecification::V3)), ("V4 pact", V4Pact::verify_json("/", &v, strict, PactSpecification::V4))] {
      let ok = if v.is_object() { got.is_empty() } else { got.len() == 1 && got[0].path == "/" && got[0].level == ResultLevel::ERROR && got[0].message.contains(type_name(&v)) };
      ensure!(ok, "other-kinds", "{}: {} is reported as {:?}", what, v, got);
    }
  }
  cx.tick("message and V4 documents"); cx.saw(&type_name(&v));
  Ok(())
}

/// What a JSON schema (the keywords the format needs) says about a value: the first place it objects to.
fn schema_objects(schema: &Value, root: &Value, v: &Value, at: &str) -> Option<String> {
  let s = match schema { Value::Object(s) => s, Value::Bool(true) => return None, _ => return Some(format!("{}: no schema", at)) };
  if let Some(Value::String(to)) = s.get("$ref") {
    return match root.pointer(to.trim_start_matches('#')) { Some(d) => schema_objects(d, root, v, at), None => Some(format!("{}: reference {} leads nowhere", at, to)) };
  }
  if let Some(Value::String(t)) = s.get("type") {
    let fits = match t.as_str() { "object" => v.is_object(), "array" => v.is_array(), "string" => v.is_string(), "number" => v.is_number(), "integer" => v.is_i64() || v.is_u64(), "boolean" => v.is_boolean(), "null" => v.is_null(), _ => false };
    if !fits { return Some(format!("{}: is not of type {}", at, t)) }
  }
  if let Some(Value::Array(e)) = s.get("enum") { if !e.contains(v) { return Some(format!("{}: is none of the values", at)) } }
  if let Value::Object(o) = v {
    if let Some(Value::Array(req)) = s.get("required") { for k in req { if !o.contains_key(k.as_str().unwrap_or("")) { return Some(format!("{}: {} is required", at, k)) } } }
    let none = Map::new();
    let props = s.get("properties").and_then(|p| p.as_object()).unwrap_or(&none);
    for (k, m) in o {
      let here = format!("{}/{}", at, k);
      if let Some(p) = props.get(k) { if let Some(e) = schema_objects(p, root, m, &here) { return Some(e) } }
      else { match s.get("additionalProperties") { None | Some(Value::Bool(true)) => {}, Some(Value::Bool(false)) => return Some(format!("{}: is not foreseen", here)), Some(p) => if let Some(e) = schema_objects(p, root, m, &here) { return Some(e) } } }
    }
  }
  if let (Value::Array(a), Some(items)) = (v, s.get("items")) { for (i, m) in a.iter().enumerate() { if let Some(e) = schema_objects(items, root, m, &format!("{}/{}", at, i)) { return Some(e) } } }
  None
}

fn schema_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let spec = *r.pick(&[gen::Spec::V1, gen::Spec::V11, gen::Spec::V2, gen::Spec::V3]);
  let as_spec = spec_of(spec);
  let given = gen::pact_v123(r, spec).doc;
  let schema = match no_panic(|| RequestResponsePact::schema(as_spec)) { Ok(s) => s, Err(e) => return violated("schema-panics", format!("the {} schema panicked: {}", as_spec, e)) };
  let pact = match RequestResponsePact::from_json("", &given) { Ok(p) => p, Err(e) => return violated("schema-load", format!("{} for {}", e, given)) };
  let doc = match pact_models::pact::Pact::to_json(&pact, as_spec) { Ok(d) => d, Err(e) => return violated("schema-write", format!("{} for {}", e, given)) };
  for (what, d) in [("given", &given), ("written", &doc)] {
    if let Some(e) = schema_objects(&schema, &schema, d, "") { return violated("schema-refuses-file", format!("the schema published for {} refuses the {} file at {}: {}\nschema {}", as_spec, what, e, d, schema)) }
  }
  cx.tick("files the schema accepts");
  let mut bad = doc.clone();
  let old = as_spec < PactSpecification::V3;
  let what: &'static str = *r.pick(&["consumer missing", "provider missing", "interactions missing", "consumer of another type", "provider of another type", "interactions of another type", "consumer without name", "provider without name", "consumer name of another type", "provider name of another type", "metadata of another type", "specification of another type", "specification without version", "specification version of another type", "specification with more members", "old specification version of another type", "old specification without version", "plain version of another type"]);
  let o = bad.as_object_mut().unwrap();
  let who = if what.starts_with("consumer") { "consumer" } else { "provider" };
  match what {
    "consumer missing" | "provider missing" => { o.remove(who); }
    "interactions missing" => { o.remove("interactions"); }
    "consumer of another type" | "provider of another type" => { let v = not(r, &["Object"]); o.insert(who.into(), v); }
    "interactions of another type" => { let v = not(r, &["Array"]); o.insert("interactions".into(), v); }
    "consumer without name" | "provider without name" => { let mut m = Map::new(); if r.bool() { m.insert(odd_name(r, &["name"]), gen::jscalar(r)); } o.insert(who.into(), Value::Object(m)); }
    "consumer name of another type" | "provider name of another type" => { let v = not(r, &["String"]); o.insert(who.into(), json!({ "name": v })); }
    "metadata of another type" => { let v = not(r, &["Object"]); o.insert("metadata".into(), v); }
    w => {
      let m = o.entry("metadata").or_insert_with(|| json!({})).as_object_mut().unwrap();
      let key = if w.starts_with("old") { "pact-specification" } else { "pactSpecification" };
      let v = match w {
        "specification of another type" => not(r, &["Object"]),
        "specification without version" | "old specification without version" => json!({}),
        "specification version of another type" | "old specification version of another type" => json!({ "version": not(r, &["String"]) }),
        "plain version of another type" => not(r, &["String"]),
        _ => { let mut s = json!({ "version": "2.0.0" }); s.as_object_mut().unwrap().insert(odd_name(r, &["version"]), gen::jscalar(r)); s }
      };
      m.insert(if w.starts_with("plain") { "pactSpecificationVersion" } else { key }.into(), v);
    }
  }
  // the older spellings are only part of the formats before V3
  let fault = old || !(what.starts_with("old") || what.starts_with("plain"));
  let got = schema_objects(&schema, &schema, &bad, "");
  ensure!(got.is_some() == fault, "schema-misses-fault", "{}: the schema published for {} says {:?} about {}\nschema {}", what, as_spec, got, bad, schema);
  cx.tick(what); cx.saw(&(what, old));
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P21", level: "exploration",
    rule: "documents of V1 to V3 that follow the format are reported clean; documents with a seeded set of faults are reported with exactly those faults, each at its own path, with its level and naming what was expected and found",
    assumptions: vec!["the members of requests and responses are not examined by the checker and are left valid", "message texts are only required to name the attribute and the types"],
    phases: vec![phase("faults", 30_000, file_case), phase("other kinds", 2_000, other_case), phase("schemas", 6_000, schema_case)],
    floors: vec![("documents without faults", 5_000), ("documents with several faults", 2_000), ("state without a name", 100), ("version that is none", 200), ("name of another type", 200), ("files the schema accepts", 2_000), ("specification without version", 50)],
    probes: vec![]
  }
}
