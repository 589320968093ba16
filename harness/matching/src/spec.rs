//! The published specification cases
use moncore::*;
use pact_matching::{match_interaction, match_interaction_request, match_interaction_response};
use pact_models::interaction::{http_interaction_from_json, message_interaction_from_json};
use pact_models::pact::Pact;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::message_pact::MessagePact;
use pact_models::PactSpecification;

use crate::util::*;

static CASES: &str = include_str!("../../../corpus/spec_cases.jsonl");

pub struct Case { pub spec: PactSpecification, pub part: String, pub name: String, pub matches: bool, pub expected: Value, pub actual: Value }

pub fn cases() -> Vec<Case> {
  CASES.lines().map(|l| { let v: Value = serde_json::from_str(l).unwrap();
    Case {
      spec: match v["spec"].as_str().unwrap() { "v1" => PactSpecification::V1, "v1_1" => PactSpecification::V1_1, "v2" => PactSpecification::V2, "v3" => PactSpecification::V3, _ => PactSpecification::V4 },
      part: v["part"].as_str().unwrap().into(), name: format!("{}/{}/{}/{}", v["spec"].as_str().unwrap(), v["part"].as_str().unwrap(), v["group"].as_str().unwrap(), v["name"].as_str().unwrap()),
      matches: v["match"].as_bool().unwrap(), expected: v["expected"].clone(), actual: v["actual"].clone() } }).collect()
}

pub fn load(part: &str, spec: &PactSpecification, v: &Value) -> anyhow::Result<BoxI> {
  if part == "message" { let mut o = v.as_object().unwrap().clone(); o.insert("type".into(), json!("Asynchronous/Messages")); message_interaction_from_json("case", &Value::Object(o), spec) }
  else { http_interaction_from_json("case", &json!({"type": "Synchronous/HTTP", part: v}), spec) }
}

pub fn classic(part: &str, spec: &PactSpecification, e: &Value, a: &Value) -> anyhow::Result<Vec<pact_matching::Mismatch>> {
  let expected = load(part, spec, e)?; let actual = load(part, spec, a)?;
  match part {
    "message" => { let p = MessagePact { messages: vec![expected.as_message().unwrap_or_default()], ..MessagePact::default() }.boxed(); wait(match_interaction(expected, actual, p, spec)) }
    "request" => { let p = RequestResponsePact { interactions: vec![expected.as_request_response().unwrap_or_default()], ..RequestResponsePact::default() }.boxed();
      Ok(wait(match_interaction_request(expected, actual, p, spec))?.mismatches()) }
    _ => { let p = RequestResponsePact { interactions: vec![expected.as_request_response().unwrap_or_default()], ..RequestResponsePact::default() }.boxed();
      wait(match_interaction_response(expected, actual, p, spec)) }
  }
}

pub fn dump() {
  let mut n = 0; let mut bad = 0; let mut bad2 = 0;
  for c in cases() {
    n += 1;
    match classic(&c.part, &c.spec, &c.expected, &c.actual) {
      Ok(m) => if m.is_empty() != c.matches { bad += 1; println!("CLASSIC {} expected {} got {}", c.name, c.matches, show(&m)) },
      Err(e) => { bad += 1; println!("CLASSIC {} error {e}", c.name) }
    }
    if c.part == "request" {
      let e = load(&c.part, &c.spec, &c.expected).unwrap().as_v4_http().unwrap().request; let a = load(&c.part, &c.spec, &c.actual).unwrap().as_v4_http().unwrap().request;
      match moncore::no_panic(|| req2(&e, &a)) {
        Ok(Ok(r)) => if r.mismatches().is_empty() != c.matches { bad2 += 1; println!("PLAN {} expected {} got {}", c.name, c.matches, show(&r.mismatches())) },
        Ok(Err(e)) => { bad2 += 1; println!("PLAN {} error {e}", c.name) }
        Err(p) => { bad2 += 1; println!("PLAN {} PANIC {p}", c.name) }
      }
    }
  }
  println!("{n} cases, classic wrong {bad}, plan wrong {bad2}");
}

// ---- the same case in other presentations

fn recase(r: &mut Rng, s: &str) -> String { match r.below(4) { 0 => s.to_uppercase(), 1 => s.to_lowercase(), 2 => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(), _ => s.to_string() } }

fn encode(r: &mut Rng, s: &str) -> String {
  let mut o = String::new();
  let mut it = s.chars().peekable();
  while let Some(c) = it.next() {
    if c.is_ascii_alphanumeric() && r.chance(1, 6) { o.push_str(&format!("%{:02X}", c as u32)) }
    else if c == '%' { o.push(c); for _ in 0..2 { if let Some(d) = it.next() { o.push(d) } } }
    else { o.push(c) }
  }
  o
}

/// A query string with its different parameters in another order and other characters encoded
fn requery(r: &mut Rng, q: &str) -> String {
  let mut groups: Vec<(String, Vec<String>)> = vec![];
  for p in q.split('&') {
    let n = p.split('=').next().unwrap_or("").to_string();
    match groups.iter_mut().find(|g| g.0 == n) { Some(g) => g.1.push(p.to_string()), None => groups.push((n, vec![p.to_string()])) }
  }
  r.shuffle(&mut groups);
  // groups may be interleaved as long as the order within each is kept
  let mut out = vec![];
  while !groups.is_empty() { let i = r.us(groups.len()); let x = groups[i].1.remove(0); out.push(match x.split_once('=') { Some((k, v)) => format!("{}={}", encode(r, k), encode(r, v)), None => encode(r, &x) }); if groups[i].1.is_empty() { groups.remove(i); } }
  out.join("&")
}

fn bracketed(p: &str) -> String {
  let mut o = p.split('.').next().unwrap().to_string();
  for part in p.split('.').skip(1) {
    let (name, rest) = match part.find('[') { Some(i) => (&part[..i], &part[i..]), None => (part, "") };
    if name == "*" { o.push_str(".*") } else if !name.is_empty() { o.push_str(&format!("['{}']", name)) }
    o.push_str(rest);
  }
  o
}

fn represent(r: &mut Rng, c: &Case, v: &Value, actual: bool, did: &mut Vec<&'static str>) -> Value {
  let mut v = v.clone();
  if r.bool() { if let Some(m) = v.get("method").and_then(|m| m.as_str()) { v["method"] = json!(recase(r, m)); did.push("method in another case"); } }
  if r.bool() { if let Some(q) = v.get("query").and_then(|q| q.as_str()).filter(|q| !q.is_empty()) { v["query"] = json!(requery(r, q)); did.push("query written otherwise"); } }
  if r.bool() { if let Some(h) = v.get("headers").and_then(|h| h.as_object()).filter(|h| !h.is_empty()).cloned() {
    v["headers"] = Value::Object(h.into_iter().map(|(k, x)| (recase(r, &k), x)).collect()); did.push("headers in another case");
  } }
  if actual && c.part != "message" && r.bool() {
    if !v.get("headers").map(|h| h.is_object()).unwrap_or(false) { v["headers"] = json!({}); }
    v["headers"]["X-Unrelated-Header"] = json!("1"); did.push("unrelated header");
  }
  // rule paths in their other notation
  if !actual && r.bool() { if let Some(rules) = v.get("matchingRules").and_then(|m| m.as_object()).cloned() {
    let v3 = !rules.keys().any(|k| k.starts_with('$'));
    let plain = |k: &str| k.starts_with('$') && !k.contains('\'') && !k.contains("..");
    if v3 {
      for part in ["body", "contents", "content"] { if let Some(b) = rules.get(part).and_then(|b| b.as_object()) {
        v["matchingRules"][part] = Value::Object(b.iter().map(|(k, x)| (if plain(k) { bracketed(k) } else { k.clone() }, x.clone())).collect()); did.push("rule paths in brackets");
      } }
    } else {
      v["matchingRules"] = Value::Object(rules.into_iter().map(|(k, x)| (if k.starts_with("$.body.") && plain(&k) { format!("$.body{}", &bracketed(&format!("$.{}", &k[7..]))[1..]) } else { k }, x)).collect()); did.push("rule paths in brackets");
    }
  } }
  // V4 bodies in their encoded form
  if c.spec == PactSpecification::V4 && r.bool() {
    let key = if c.part == "message" { "contents" } else { "body" };
    if let Some(b) = v.get(key).and_then(|b| b.as_object()).cloned() {
      if b.get("encoded") == Some(&json!(false)) || b.get("encoded").is_none() {
        if let Some(content) = b.get("content").filter(|x| !x.is_null()) {
          let json_type = b.get("contentType").and_then(|t| t.as_str()).map(|t| t.contains("json")).unwrap_or(false);
          let text = match content { Value::String(s) if !json_type => Some(s.clone()), x if json_type => Some(if r.bool() { serde_json_pretty(x) } else { x.to_string() }), _ => None };
          if let Some(t) = text { v[key]["content"] = json!(b64(t.as_bytes())); v[key]["encoded"] = json!("base64"); did.push("encoded body"); }
        }
      }
    }
  }
  v
}
fn serde_json_pretty(v: &Value) -> String { serde_json::to_string_pretty(v).unwrap() }

static ALL: std::sync::OnceLock<Vec<Case>> = std::sync::OnceLock::new();

fn run(part: &str, spec: &PactSpecification, e: &Value, a: &Value, up: bool) -> anyhow::Result<Vec<pact_matching::Mismatch>> {
  if !up { return classic(part, spec, e, a) }
  // as interactions of the current format, written and read again
  let mut x = vec![];
  for v in [e, a] { let i = load(part, spec, v)?; let j = i.as_v4().ok_or_else(|| anyhow::anyhow!("no V4 form"))?.to_json(); x.push(pact_models::v4::interaction::interaction_from_json("case", 0, &j)?) }
  let (a, e) = (x.pop().unwrap(), x.pop().unwrap());
  let p = pact_models::v4::pact::V4Pact { interactions: vec![e.boxed_v4()], ..Default::default() }.boxed();
  match part {
    "message" => wait(match_interaction(e.boxed(), a.boxed(), p, &PactSpecification::V4)),
    "request" => Ok(wait(match_interaction_request(e.boxed(), a.boxed(), p, &PactSpecification::V4))?.mismatches()),
    _ => wait(match_interaction_response(e.boxed(), a.boxed(), p, &PactSpecification::V4))
  }
}

fn case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let all = ALL.get_or_init(cases);
  let n = (cx.case as usize) % all.len();
  let c = &all[n];
  let mut did = vec![];
  let plain = (cx.case as usize) < all.len();
  let (e, a) = if plain { (c.expected.clone(), c.actual.clone()) } else { let e = represent(r, c, &c.expected, false, &mut did); let a = represent(r, c, &c.actual, true, &mut did); (e, a) };
  // (a null body has no V4 form: the known finding null-content of P01)
  let nothing = |v: &Value| v.get("body").or(v.get("contents")).map(|b| b.is_null() || b.get("content") == Some(&Value::Null)).unwrap_or(false);
  let up = !plain && !nothing(&e) && !nothing(&a) && r.chance(1, 3);
  if up { did.push("as V4") }
  cx.note(format!("{} {:?}: {} / {}", c.name, did, e, a));
  let got = match no_panic(|| run(&c.part, &c.spec, &e, &a, up)) { Ok(Ok(g)) => g, Ok(Err(x)) => return violated("case-not-matched", format!("{} {:?}: {}", c.name, did, x)), Err(x) => return violated("case-panics", format!("{} {:?}: {}", c.name, did, x)) };
  ensure!(got.is_empty() == c.matches, "verdict", "{} ({:?}) should {}match, differences: {}; expected {} actual {}", c.name, did, if c.matches { "" } else { "not " }, show(&got), e, a);
  cx.tick(if c.matches { "matching cases" } else { "differing cases" });
  if plain && c.part == "request" {
    let (e, a) = (load("request", &c.spec, &e).unwrap().as_v4_http().unwrap().request, load("request", &c.spec, &a).unwrap().as_v4_http().unwrap().request);
    match no_panic(|| req2(&e, &a)) {
      Ok(Ok(g)) => { ensure!(g.mismatches().is_empty() == c.matches, "plan-verdict", "{} should {}match by the plan, differences: {}", c.name, if c.matches { "" } else { "not " }, show(&g.mismatches())); cx.tick("cases by plan") }
      x => return violated("plan-fails", format!("{}: {:?}", c.name, x.map(|y| y.map(|_| ()))))
    }
  }
  did.sort(); did.dedup();
  for d in &did { cx.tick(d) }
  cx.saw((n, did));
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P38", level: "exploration",
    rule: "every published specification case gives the verdict it states, as published (request cases by both engines) and in other presentations: case of methods and header names, order and encoding of query parameters, additional headers, notation of rule paths, encoded bodies, converted to the current format and written and read again",
    assumptions: vec!["the cases are those of the specification's repository held in this repository's tests"],
    phases: vec![phase("cases", 16_060, case)],
    floors: vec![("matching cases", 3_000), ("differing cases", 3_000), ("cases by plan", 300), ("method in another case", 500), ("query written otherwise", 100), ("headers in another case", 500), ("unrelated header", 500), ("rule paths in brackets", 300), ("encoded body", 100), ("as V4", 1_000)],
    probes: vec![]
  }
}
