//! JSON bodies against their matching rules
use moncore::*;
use pact_matching::{match_message, Mismatch};
use pact_models::interaction::{http_interaction_from_json, message_interaction_from_json};
use pact_models::pact::Pact;
use pact_models::path_exp::DocPath;
use pact_models::v4::pact::V4Pact;
use pact_models::PactSpecification;

use crate::tmpl::{self, Node};
use crate::util::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode { Request, Response, Message, Sync }

pub fn gen(r: &mut Rng) -> Node { let d = r.range(1, 4) as u32; loop { let n = tmpl::node(r, d, false); if !nothing(&tmpl::example(&n)) && (!matches!(n, Node::Leaf { .. }) || r.chance(1, 6)) { return n } } }

/// Not a body: a null or an empty string stands for none
fn nothing(v: &Value) -> bool { v.is_null() || v == "" }

pub fn rules_json(n: &Node) -> Map<String, Value> { let mut m = Map::new(); tmpl::rules(n, "$", &mut m); m }

fn content(v: &Value) -> Value { json!({"content": v, "contentType": "application/json", "encoded": false}) }

/// Mismatches between a document and the example with its rules
pub fn run(mode: Mode, example: &Value, rules: &Map<String, Value>, actual: &Value) -> anyhow::Result<Vec<Mismatch>> {
  let mr = json!({"body": rules});
  match mode {
    Mode::Request | Mode::Response => {
      let key = if mode == Mode::Request { "request" } else { "response" };
      let load = |v: &Value, rules: bool| { let mut p = json!({"body": content(v)}); if rules { p["matchingRules"] = mr.clone() }
        http_interaction_from_json("case", &json!({"type": "Synchronous/HTTP", "description": "d", key: p}), &PactSpecification::V4).map(|i| i.as_v4_http().unwrap()) };
      let e = load(example, true)?; let a = load(actual, false)?;
      Ok(if mode == Mode::Request { req(&e.request, &a.request).mismatches() } else { res(&e.response, &a.response) })
    }
    Mode::Message => {
      let load = |v: &Value, rules: bool| { let mut p = json!({"type": "Asynchronous/Messages", "description": "d", "contents": content(v)}); if rules { p["matchingRules"] = mr.clone() } message_interaction_from_json("case", &p, &PactSpecification::V4) };
      let e = load(example, true)?; let a = load(actual, false)?;
      let p: BoxP = V4Pact::default().boxed();
      Ok(wait(match_message(&e, &a, &p)))
    }
    Mode::Sync => {
      let load = |v: &Value, rules: bool| { let mut q = json!({"contents": content(v)}); if rules { q["matchingRules"] = mr.clone() }
        pact_models::v4::interaction::interaction_from_json("case", 0, &json!({"type": "Synchronous/Messages", "description": "d", "request": q.clone(), "response": [q]})).map(|i| i.as_v4_sync_message().unwrap()) };
      let e = load(example, true)?; let a = load(actual, false)?;
      let p: BoxP = V4Pact::default().boxed();
      Ok(wait(pact_matching::match_sync_message(e, a, &p)))
    }
  }
}

/// The paths the mismatches point at
fn path_of(m: &Mismatch) -> Option<Vec<String>> { match m { Mismatch::BodyMismatch { path, .. } => DocPath::new(path.as_str()).ok().map(|p| p.to_vec()), _ => None } }
fn related(a: &[String], b: &[String]) -> bool { let n = a.len().min(b.len()); a[..n] == b[..n] }

fn case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let n = gen(r); let rules = rules_json(&n); let ex = tmpl::example(&n);
  let mode = *r.pick(&[Mode::Request, Mode::Request, Mode::Response, Mode::Response, Mode::Message, Mode::Sync]);
  let extra = mode != Mode::Request;
  let mut l = vec![]; tmpl::labels(&n, &mut l); l.sort(); l.dedup(); cx.saw((&l, mode as u8));
  let ctx = |a: &Value| format!("{mode:?} example {} rules {} actual {}", s(&ex), s(&Value::Object(rules.clone())), s(a));
  let go = |a: &Value| -> Result<Vec<Mismatch>, Violation> { match no_panic(|| run(mode, &ex, &rules, a)) { Ok(Ok(v)) => Ok(v), Ok(Err(e)) => violated("load", format!("{e}; {}", ctx(a))), Err(p) => violated("panic", format!("{p}; {}", ctx(a))) } };
  let m = go(&ex)?; cx.tick("examples matched with themselves");
  ensure!(m.is_empty(), "example", "an example does not match itself: {}; {}", show(&m), ctx(&ex));
  for _ in 0..3 {
    let a = tmpl::comply(&n, r, extra); if nothing(&a) { continue } let m = go(&a)?; cx.tick("complying documents");
    ensure!(m.is_empty(), "refused", "a document that complies with the rules is refused: {}; {}", show(&m), ctx(&a));
  }
  for _ in 0..4 {
    let mut p = vec!["$".to_string()];
    if let Some(v) = tmpl::violate(&n, r, extra, &mut p).filter(|v| !nothing(&v.doc)) {
      let m = go(&v.doc)?; cx.tick("documents with one difference");
      ensure!(!m.is_empty(), "missed", "a difference is not reported ({} at {:?}); {}", v.what, v.at, ctx(&v.doc));
      for x in &m {
        let p = path_of(x);
        ensure!(p.as_ref().map(|p| related(p, &v.at)).unwrap_or(false), "place", "the difference ({} at {:?}) is reported somewhere else: {}; {}", v.what, v.at, show(&m), ctx(&v.doc));
      }
      cx.tick("differences located");
    }
  }
  cx.sample(|| json!({"example": ex, "rules": rules, "mode": format!("{mode:?}")}));
  Ok(())
}

/// The size of arrays, whatever the example holds
fn sizes(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let n = r.us(4); let ex: Vec<i64> = (0..n).map(|i| 10 + i as i64).collect();
  let c = r.us(6); let same = r.bool(); let act: Vec<i64> = if same { ex.clone() } else { (0..c).map(|_| r.range(1, 99)).collect() };
  let lo = r.us(4); let hi = lo + r.us(3);
  let which = r.below(6);
  let judge = |a: &Vec<i64>| match which { 0 => true, 1 => a.len() >= lo, 2 => a.len() <= hi, 3 => a.len() >= lo && a.len() <= hi, 4 => *a == ex, _ => !a.is_empty() };
  if !judge(&ex) { return Ok(()) }
  let want = judge(&act);
  let rule = match which { 0 => json!({"match": "type"}), 1 => json!({"match": "type", "min": lo}), 2 => json!({"match": "type", "max": hi}), 3 => json!({"match": "type", "min": lo, "max": hi}), 4 => json!({"match": "equality"}), _ => json!({"match": "notEmpty"}) };
  let mode = *r.pick(&[Mode::Request, Mode::Response, Mode::Message]);
  let nest = r.bool(); let wrap = |v: &Vec<i64>| if nest { json!({"a": v}) } else { json!(v) };
  let mut rules = Map::new(); rules.insert(if nest { "$.a" } else { "$" }.into(), json!({"matchers": [rule], "combine": "AND"}));
  let (e, a) = (wrap(&ex), wrap(&act));
  let m = match no_panic(|| run(mode, &e, &rules, &a)) { Ok(Ok(m)) => m, Ok(Err(e)) => return violated("load", e.to_string()), Err(p) => return violated("panic", p) };
  cx.saw((rule["match"].as_str().map(str::to_string), n, act.len(), lo, hi)); cx.tick("array sizes judged");
  ensure!(m.is_empty() == want, if n == 0 { format!("empty-example-{which}") } else { format!("size-{which}") }, "{mode:?} {rule} on an array, example {e}, actual {a}: {} but {}", if m.is_empty() { "accepted".into() } else { show(&m) }, if want { "it complies" } else { "it does not comply" });
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P30", level: "exploration",
    rule: "Seeded document templates nesting objects, arrays, maps, contained variants and leaves of every kind of rule, given as the body of requests, responses and messages; documents drawn to comply, and to differ in one known place. Non-trivial: each distinct set of rules in a template and kind of interaction.",
    assumptions: vec!["Additional keys are allowed in responses and messages and not in requests.", "Items missing from an array that a rule applies to are only limited by its size rules.", "A null or empty string stands for no body and is not used as a document."],
    phases: vec![phase("templates", 8000, case), phase("sizes", 4000, sizes)],
    floors: vec![("examples matched with themselves", 7000), ("complying documents", 20000), ("documents with one difference", 15000), ("differences located", 15000), ("array sizes judged", 2000)],
    probes: vec![]
  }
}
