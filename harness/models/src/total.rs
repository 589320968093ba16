//! Loader totality: whatever JSON arrives, the library answers with a pact or an error.
use moncore::*;
use pact_models::interaction::Interaction;
use pact_models::pact::{load_pact_from_json, read_pact, Pact};
use pact_models::verify_json::PactJsonVerifier;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::pact::V4Pact;
use pact_models::interaction::{http_interaction_from_json, message_interaction_from_json};
use pact_models::v4::interaction::interaction_from_json;
use pact_models::PactSpecification;
use pact_models::http_parts::HttpPart;
use crate::gen;

pub const ALL_SPECS: [PactSpecification; 5] = [PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V4];

fn weird(r: &mut Rng) -> Value {
  match r.below(16) {
    0 => Value::Null, 1 => json!([]), 2 => json!({}), 3 => json!(""), 4 => json!(-1), 5 => json!(1e300), 6 => json!(u64::MAX), 7 => json!(i64::MIN),
    8 => json!(99999), 9 => json!(true), 10 => json!(0.5), 11 => json!([[]]), 12 => json!([null]), 13 => json!("$"),
    14 => { let n = r.below(3) as u32; gen::jvalue(r, n) }
    _ => json!(gen::text(r))
  }
}

fn size(v: &Value) -> usize { match v { Value::Object(m) => 1 + m.values().map(size).sum::<usize>(), Value::Array(a) => 1 + a.iter().map(size).sum::<usize>(), _ => 1 } }

/// Applies f to the n-th node (pre-order)
fn at(v: &mut Value, n: &mut usize, f: &mut dyn FnMut(&mut Value)) -> bool {
  if *n == 0 { f(v); return true }
  *n -= 1;
  match v {
    Value::Object(m) => { for (_, x) in m.iter_mut() { if at(x, n, f) { return true } } false }
    Value::Array(a) => { for x in a.iter_mut() { if at(x, n, f) { return true } } false }
    _ => false
  }
}

pub fn mutate(r: &mut Rng, doc: &mut Value) {
  for _ in 0..r.range(1, 4) {
    let mut n = r.us(size(doc));
    let op = r.below(6);
    let w = weird(r);
    let k = r.next() as usize;
    let t = gen::text(r);
    at(doc, &mut n, &mut |v| match (op, &mut *v) {
      (0, Value::Object(m)) if !m.is_empty() => { let key = m.keys().nth(k % m.len()).unwrap().clone(); m.remove(&key); }
      (1, Value::Object(m)) if !m.is_empty() => { let key = m.keys().nth(k % m.len()).unwrap().clone(); let x = m.remove(&key).unwrap(); m.insert(t.clone(), x); }
      (2, Value::Array(a)) if !a.is_empty() => { let i = k % a.len(); a.remove(i); }
      (3, Value::Array(a)) => a.push(w.clone()),
      (3, Value::Object(m)) => { m.insert(t.clone(), w.clone()); }
      (4, Value::String(s)) => { let cs: Vec<char> = s.chars().collect(); *s = cs[..(if cs.is_empty() { 0 } else { k % cs.len() })].iter().collect::<String>() + &t; }
      _ => *v = w.clone()
    });
  }
}

fn doc(r: &mut Rng) -> Value {
  match r.below(8) {
    0 | 1 | 2 => gen::pact_v4(r).doc,
    3 | 4 | 5 => { let s = *r.pick(&gen::SPECS); gen::pact_v123(r, s).doc }
    6 => gen::message_pact_v3(r).doc,
    _ => gen::jvalue(r, 4)
  }
}

fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
  match no_panic(f) { Ok(v) => Ok(v), Err(d) => { let loc = d.rsplit(" at ").next().unwrap_or("").rsplit("/src/").next().unwrap_or("").split(':').next().unwrap_or("").to_string();
    violated(format!("panic:{}:{}", what, loc), d) } }
}

fn exercise(cx: &mut Cx, p: &(dyn Pact + Send + Sync)) -> Verdict {
  for s in &ALL_SPECS { guard("to_json", || { let _ = p.to_json(*s); })?; }
  guard("convert", || {
    let _ = p.as_v4_pact().map(|p| p.to_json(PactSpecification::V4));
    let _ = p.as_request_response_pact().map(|p| p.to_json(PactSpecification::V3));
    let _ = p.as_message_pact().map(|p| p.to_json(PactSpecification::V3));
    let _ = (p.consumer(), p.provider(), p.metadata(), p.plugin_data(), p.requires_plugins(), p.specification_version());
  })?;
  for i in p.interactions() {
    cx.tick("interactions exercised");
    guard("interaction", || {
      let _ = (i.description(), i.provider_states(), i.contents(), i.contents_for_verification(), i.content_type(), i.matching_rules(), i.pending(), i.type_of(), format!("{:?}", i));
      if let Some(v) = i.as_v4() { let _ = (v.to_json(), v.key(), v.unique_key(), v.with_unique_key().key(), v.comments()); }
      let _ = i.as_message().map(|m| (Interaction::content_type(&m), HttpPart::content_type(&m)));
      let _ = i.as_request_response().map(|m| (m.request.content_type(), m.response.content_type()));
    })?;
  }
  Ok(())
}

fn load_case(cx: &mut Cx) -> Verdict {
  let mut d = doc(&mut cx.rng);
  if !cx.rng.chance(1, 20) { mutate(&mut cx.rng, &mut d); }
  cx.note(format!("document: {}", d));
  let r = guard("load", || load_pact_from_json("gen", &d))?;
  match r {
    Ok(p) => { cx.tick("loaded"); exercise(cx, p.as_ref())?; }
    Err(e) => { cx.tick("rejected"); ensure!(!e.to_string().trim().is_empty(), "empty-error", "rejected without saying why"); }
  }
  for s in &ALL_SPECS {
    let strict = cx.rng.bool();
    let a = guard("verify", || RequestResponsePact::verify_json("/", &d, strict, *s).len())?;
    let b = guard("verify", || V4Pact::verify_json("/", &d, strict, *s).len())?;
    cx.add("schema results", (a + b) as u64);
  }
  cx.saw(d.to_string());
  cx.sample(|| d.clone());
  Ok(())
}

/// single interactions, as received over the FFI and from brokers
fn interaction_case(cx: &mut Cx) -> Verdict {
  let kind = cx.rng.below(3);
  let (mut d, _) = gen::interaction_v4(&mut cx.rng, kind);
  d["description"] = json!("d");
  mutate(&mut cx.rng, &mut d);
  cx.note(format!("interaction: {}", d));
  for s in &ALL_SPECS {
    if let Ok(i) = guard("http_interaction_from_json", || http_interaction_from_json("gen", &d, s))? { guard("use", || (i.content_type(), i.description()))?; cx.tick("loaded"); }
    if let Ok(i) = guard("message_interaction_from_json", || message_interaction_from_json("gen", &d, s))? { guard("use", || (i.content_type(), i.description()))?; cx.tick("loaded"); }
  }
  if let Ok(i) = guard("v4 interaction_from_json", || interaction_from_json("gen", 0, &d))? { guard("use", || (i.to_json(), i.unique_key()))?; cx.tick("loaded"); }
  cx.saw(d.to_string());
  Ok(())
}

/// files: truncated, corrupted, arbitrary bytes
fn file_case(cx: &mut Cx) -> Verdict {
  let d = doc(&mut cx.rng);
  let mut b = if cx.rng.bool() { serde_json::to_vec(&d).unwrap() } else { serde_json::to_vec_pretty(&d).unwrap() };
  match cx.rng.below(5) {
    0 => { let n = cx.rng.us(b.len() + 1); b.truncate(n); }
    1 => { for _ in 0..cx.rng.range(1, 5) { if b.is_empty() { break } let i = cx.rng.us(b.len()); b[i] = cx.rng.next() as u8; } }
    2 => { b = gen::bytes(&mut cx.rng, 0, 200); }
    3 => { let n = cx.rng.us(b.len() + 1); let t = b[n..].to_vec(); b.extend(t); }
    _ => {}
  }
  let f = cx.scratch.join("p.json");
  std::fs::write(&f, &b).unwrap();
  cx.note(format!("file: {}", String::from_utf8_lossy(&b)));
  let valid = serde_json::from_slice::<Value>(&b).is_ok();
  let r = guard("read_pact", || read_pact(&f))?;
  if !valid { ensure!(r.is_err(), "accepted-non-json", "a file that is not JSON was read as a pact"); cx.tick("not JSON"); }
  if let Ok(p) = r { exercise(cx, p.as_ref())?; cx.tick("loaded"); }
  cx.saw(b);
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P03", level: "exploration",
    rule: "Seeded valid documents of every version with 1-4 random structural mutations (wrong types, extreme numbers, emptied/removed/renamed members), single mutated interactions, and truncated or corrupted files. Non-trivial: each distinct mutated document that was loaded (or rejected), exercised through every accessor and conversion, written at every version and schema-checked under a panic monitor with overflow checks on.",
    assumptions: vec!["Recursion depth of documents is bounded (serde_json's own limit is 128)."],
    phases: vec![phase("documents", 12000, load_case), phase("interactions", 6000, interaction_case), phase("files", 2000, file_case)],
    floors: vec![("loaded", 3000), ("rejected", 200), ("interactions exercised", 3000), ("not JSON", 200)],
    probes: vec![]
  }
}
