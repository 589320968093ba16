//! Equality, hashing, copies and unique keys of interactions.
use std::collections::BTreeMap;
use std::panic::RefUnwindSafe;
use moncore::*;
use moncore::pred::short;
use pact_models::bodies::OptionalBody;
use pact_models::interaction::Interaction;
use pact_models::matchingrules::{matchers_to_json, MatchingRules};
use pact_models::message::Message;
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::PactSpecification;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::v4::interaction::{interaction_from_json, V4Interaction};
use crate::gen;
use crate::rules::h;

pub type V4I = Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>;

fn load(j: &Value) -> Result<V4I, Violation> {
  interaction_from_json("gen", 0, j).map_err(|e| Violation { sig: "load-error".into(), detail: e.to_string() })
}

fn eq(a: &V4I, b: &V4I) -> bool { a == b }
fn plain(p: &dyn Pact) -> Box<dyn Pact> { p.boxed() }

fn hash_of(i: &V4I) -> u64 {
  if let Some(x) = i.as_v4_http() { h(&x) } else if let Some(x) = i.as_v4_async_message() { h(&x) } else if let Some(x) = i.as_v4_sync_message() { h(&x) } else { 0 }
}

fn body(b: &OptionalBody) -> Value {
  match b {
    OptionalBody::Missing => json!("missing"), OptionalBody::Empty => json!("empty"), OptionalBody::Null => json!("null"),
    OptionalBody::Present(b, _, _) => json!(b.to_vec())
  }
}

/// What an interaction says, as opposed to how it is annotated: the parts equality is about.
fn meaning(i: &V4I) -> Value {
  let mut v = i.to_json();
  let o = v.as_object_mut().unwrap();
  for k in ["key", "comments", "pluginConfiguration", "interactionMarkup", "transport", "interactionId"] { o.remove(k); }
  if let Some(x) = i.as_v4_http() {
    v["request"]["body"] = body(&x.request.body); v["response"]["body"] = body(&x.response.body);
    v["request"]["method"] = json!(x.request.method.to_uppercase());
  }
  if let Some(x) = i.as_v4_async_message() { v["contents"] = body(&x.contents.contents); }
  if let Some(x) = i.as_v4_sync_message() {
    v["request"]["contents"] = body(&x.request.contents);
    for (n, r) in x.response.iter().enumerate() { v["response"][n]["contents"] = body(&r.contents); }
  }
  v
}

/// Same document with the members of every object in another order
fn reorder(r: &mut Rng, v: &Value) -> Value {
  match v {
    Value::Object(m) => { let mut e: Vec<_> = m.iter().collect(); r.shuffle(&mut e); Value::Object(e.into_iter().map(|(k, v)| (k.clone(), reorder(r, v))).collect()) }
    Value::Array(a) => Value::Array(a.iter().map(|x| reorder(r, x)).collect()),
    _ => v.clone()
  }
}

fn leaves(v: &Value, at: String, out: &mut Vec<String>) {
  match v {
    Value::Object(m) => for (k, x) in m {
      if at.is_empty() && ["type", "key", "comments", "pluginConfiguration", "interactionMarkup", "transport"].contains(&k.as_str()) { continue }
      leaves(x, format!("{}/{}", at, k.replace('~', "~0").replace('/', "~1")), out)
    },
    Value::Array(a) if !a.is_empty() => for (i, x) in a.iter().enumerate() { leaves(x, format!("{}/{}", at, i), out) },
    _ => out.push(at)
  }
}

fn tweak(r: &mut Rng, v: &mut Value) -> bool {
  let mut p = vec![]; leaves(v, String::new(), &mut p);
  if p.is_empty() { return false }
  // pick a part of the interaction first, bodies are most of the leaves
  let at = match r.below(3) {
    0 => r.pick(&p).clone(),
    1 => { let q: Vec<_> = p.iter().filter(|x| !x.contains("/content")).cloned().collect(); if q.is_empty() { return false } r.pick(&q).clone() }
    _ => {
      let part = |x: &String| x.split('/').take(3).filter(|s| s.parse::<usize>().is_err()).collect::<Vec<_>>().join("/");
      let parts: std::collections::BTreeSet<String> = p.iter().map(part).collect();
      let parts: Vec<_> = parts.into_iter().collect();
      let s = r.pick(&parts).clone();
      let q: Vec<_> = p.iter().filter(|x| part(x) == s).cloned().collect(); r.pick(&q).clone()
    }
  };
  // values of a header or parameter in another order, or one that is there without a value
  if r.chance(1, 4) {
    if let Some((up, _)) = at.rsplit_once('/') {
      if ["/headers/", "/query/"].iter().any(|k| up.contains(k)) {
        if let Some(Value::Array(a)) = v.pointer_mut(up) { if a.len() > 1 && a[0] != a[a.len() - 1] { let n = a.len(); a.swap(0, n - 1); return true } }
      }
    }
  }
  let in_query = at.starts_with("/request/query/");
  let x = v.pointer_mut(&at).unwrap();
  if in_query && r.bool() { if x.is_null() { *x = json!(""); return true } if *x == json!("") { *x = Value::Null; return true } }
  match x {
    Value::String(s) => match r.below(5) {
      0 if !s.is_empty() => { s.remove(0); }
      1 => *s = if s.to_uppercase() == *s { s.to_lowercase() } else { s.to_uppercase() },
      2 if !s.is_empty() => { let mut c: Vec<char> = s.chars().collect(); let i = r.us(c.len()); c[i] = if c[i] == 'q' { 'z' } else { 'q' }; *s = c.into_iter().collect(); }
      _ => s.push('1') },
    Value::Number(n) => *x = match (n.as_i64(), n.as_f64()) { (Some(i), _) => if r.bool() { json!(i.wrapping_add(1)) } else { json!(i.wrapping_neg().wrapping_sub(1)) },
      (_, Some(f)) => json!(if r.bool() && f.abs() < 1e9 { f + 0.125 } else { -f - 1.5 }), _ => json!(7) },
    Value::Bool(b) => *b = !*b,
    _ => *x = json!("1")
  }
  true
}

fn copies(i: &V4I, d: &Value, cx: &mut Cx) -> Verdict {
  let m = meaning(i);
  let check = |what: &str, c: &V4I| -> Verdict {
    ensure!(c == i && i == c, "copy-not-equal", "{} of {} is not equal to it", what, short(d));
    ensure!(c.to_json() == i.to_json() && meaning(c) == m && c.key() == i.key() && c.id() == i.id(), "copy-differs", "{}: {} became {}", what, short(&i.to_json()), short(&c.to_json()));
    ensure!(c.unique_key() == i.unique_key() && hash_of(c) == hash_of(i), "copy-key", "{} of {} has another key", what, short(d));
    Ok(())
  };
  check("clone", &i.clone())?;
  check("boxed_v4", &i.boxed_v4())?;
  let v4 = |x: &dyn Interaction| -> Result<V4I, Violation> { x.as_v4().ok_or(Violation { sig: "copy-lost".into(), detail: "not a V4 interaction any more".into() }) };
  check("boxed", &v4(i.boxed().as_ref())?)?;
  check("arced", &v4(i.arced().as_ref())?)?;
  check("thread safe", &v4(&*i.thread_safe().lock().unwrap())?)?;
  let plain: Box<dyn Interaction> = if let Some(x) = i.as_v4_http() { Box::new(x) } else if let Some(x) = i.as_v4_async_message() { Box::new(x) } else { Box::new(i.as_v4_sync_message().unwrap()) };
  let c = no_panic(|| plain.clone()).map_err(|e| Violation { sig: "clone-panics".into(), detail: format!("{}: {}", i.type_of(), e) })?;
  check("clone of plain box", &v4(c.as_ref())?)?;
  use std::fmt::Write;
  let mut s = String::new();
  ensure!(write!(s, "{}", plain.as_ref()).is_ok() && write!(s, "{}", i.as_ref() as &dyn V4Interaction).is_ok() && !s.is_empty(), "display", "{} can not be displayed", i.type_of());
  cx.add("copies", 6);
  Ok(())
}

/// Whether two things are equal, with every way of asking giving the same answer
fn alike<T: PartialEq + std::fmt::Debug>(a: &T, b: &T) -> Result<bool, Violation> {
  let e = a == b;
  ensure!(a == a && b == b && !(a != a) && !(b != b), "not-equal-to-itself", "{:?} or {:?}", a, b);
  ensure!((b == a) == e && (a != b) != e && (b != a) != e, "equality-differs", "==: {} and {}, !=: {} and {} for {:?} and {:?}", e, b == a, a != b, b != a, a, b);
  Ok(e)
}

fn part<T: PartialEq + std::fmt::Debug>(cx: &mut Cx, what: &str, a: &T, b: &T, same: bool) -> Verdict {
  ensure!(alike(a, b)? == same, "equality", "the {} compare {} but mean {}: {:?} and {:?}", what, if same { "different" } else { "equal" }, if same { "the same" } else { "different things" }, a, b);
  cx.tick("parts compared");
  Ok(())
}

fn rules(cx: &mut Cx, a: &MatchingRules, b: &MatchingRules) -> Verdict {
  let (ja, jb) = (matchers_to_json(a, &PactSpecification::V4), matchers_to_json(b, &PactSpecification::V4));
  part(cx, "matching rules", a, b, ja == jb)?;
  for (c, x) in &a.rules {
    if let Some(y) = b.rules.get(c) {
      let (jx, jy) = (x.to_v3_json(), y.to_v3_json());
      let e = alike(x, y)?;
      // (the same rules can have a written form in another order)
      ensure!(e || jx != jy || x.is_empty(), "equality", "equal categories of rules compare different: {} {}", jx, jy);
      ensure!(!e || jx == jy, "equality", "different categories of rules compare equal: {} {}", jx, jy);
      cx.tick("rule categories compared");
    }
  }
  Ok(())
}

fn parts(cx: &mut Cx, a: &V4I, b: &V4I) -> Verdict {
  let (m, n) = (meaning(a), meaning(b));
  let (ps, qs) = (a.provider_states(), b.provider_states());
  part(cx, "provider states", &ps, &qs, m.get("providerStates") == n.get("providerStates"))?;
  if let (Some(x), Some(y)) = (a.as_v4_http(), b.as_v4_http()) {
    part(cx, "requests", &x.request, &y.request, m["request"] == n["request"])?;
    part(cx, "responses", &x.response, &y.response, m["response"] == n["response"])?;
    rules(cx, &x.request.matching_rules, &y.request.matching_rules)?;
    rules(cx, &x.response.matching_rules, &y.response.matching_rules)?;
    part(cx, "generators", &x.request.generators, &y.request.generators, m["request"].get("generators") == n["request"].get("generators"))?;
    let (x, y) = (x.as_request_response().unwrap(), y.as_request_response().unwrap());
    alike(&x, &y)?;
    part(cx, "requests", &x.request, &y.request, m["request"] == n["request"])?;
    part(cx, "responses", &x.response, &y.response, m["response"] == n["response"])?;
    ensure!(x.request != y.request || h(&x.request) == h(&y.request), "hash-of-equal", "{:?}", x.request);
    ensure!(x.response != y.response || h(&x.response) == h(&y.response), "hash-of-equal", "{:?}", x.response);
  }
  if let (Some(x), Some(y)) = (a.as_v4_async_message(), b.as_v4_async_message()) {
    rules(cx, &x.contents.matching_rules, &y.contents.matching_rules)?;
    let of = |v: &Value| json!([v.get("contents"), v.get("metadata"), v.get("matchingRules"), v.get("generators")]);
    part(cx, "contents", &x.contents, &y.contents, of(&m) == of(&n))?;
    let (x, y) = (x.as_message().unwrap(), y.as_message().unwrap());
    alike(&x, &y)?;
  }
  if let (Some(x), Some(y)) = (a.as_v4_sync_message(), b.as_v4_sync_message()) {
    part(cx, "requests", &x.request, &y.request, m["request"] == n["request"])?;
    part(cx, "responses", &x.response, &y.response, m["response"] == n["response"])?;
    rules(cx, &x.request.matching_rules, &y.request.matching_rules)?;
  }
  Ok(())
}

fn keys_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let kind = r.below(3);
  let (mut d, _) = gen::interaction_v4(r, kind);
  d["description"] = json!(gen::text(r));
  if r.chance(2, 3) { d.as_object_mut().unwrap().remove("key"); }
  cx.note(d.to_string());
  let a = load(&d)?;
  let d2 = reorder(r, &d);
  let b = load(&d2)?;
  ensure!(eq(&a, &b) && eq(&b, &a), "equal-documents", "two loads of {} are not equal", short(&d));
  ensure!(hash_of(&a) == hash_of(&b), "hash-of-equal", "equal interactions hash differently: {}", short(&d));
  ensure!(a.unique_key() == b.unique_key(), "key-of-equal", "equal interactions have keys {} and {}: {}", a.unique_key(), b.unique_key(), short(&d));
  match d.get("key").and_then(|k| k.as_str()) {
    Some(k) => ensure!(a.unique_key() == k, "key-ignored", "key {} but unique key {}", k, a.unique_key()),
    None => ensure!(a.key().is_none() && !a.unique_key().is_empty(), "key-invented", "{:?}", a.key())
  }
  let k = a.with_unique_key();
  let mut nd = d.clone(); nd.as_object_mut().unwrap().remove("key");
  let fresh = load(&nd)?.unique_key();
  ensure!(k.key() == Some(fresh.clone()) && k.unique_key() == fresh && meaning(&k) == meaning(&a), "with-key", "{:?} with key {}: {}", k.key(), a.unique_key(), short(&k.to_json()));
  let kk = k.with_unique_key();
  ensure!(kk.key() == k.key() && eq(&kk, &k) && load(&k.to_json())?.unique_key() == fresh, "key-not-stable", "{:?} then {:?}", k.key(), kk.key());
  copies(&a, &d, cx)?;
  // a method is the same in any case
  if let Some(x) = a.as_v4_http() {
    let mut y = x.clone();
    y.request.method = y.request.method.chars().map(|c| if r.bool() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect();
    ensure!(x == y && y == x && x.request == y.request, "method-case", "{} and {} are different methods", x.request.method, y.request.method);
    ensure!(h(&x) == h(&y) && h(&x.request) == h(&y.request) && x.unique_key() == y.unique_key(), "hash-of-equal", "equal but for the case of the method, {} and {}, and hash differently", x.request.method, y.request.method);
    cx.tick("methods in other case");
  }
  // one changed attribute
  d.as_object_mut().unwrap().remove("key");
  let a = load(&d)?;
  let mut e = d.clone();
  if tweak(r, &mut e) {
    if let Ok(c) = interaction_from_json("gen", 0, &e) {
      let same = meaning(&a) == meaning(&c);
      parts(cx, &a, &c)?;
      ensure!(eq(&a, &c) == same && eq(&c, &a) == same, "equality", "compare {} but mean {}: {} and {}", if eq(&a, &c) { "equal" } else { "different" }, if same { "the same" } else { "different things" }, d, e);
      if same { ensure!(a.unique_key() == c.unique_key() && hash_of(&a) == hash_of(&c), "hash-of-equal", "{} and {}", d, e); }
      else { ensure!(a.unique_key() != c.unique_key(), "key-collision", "the same key {} for {} and {}", a.unique_key(), d, e); cx.tick("changed interactions"); }
      cx.saw(e.to_string());
    }
  }
  cx.tick(match kind { 0 => "http interactions", 1 => "async messages", _ => "sync messages" });
  cx.sample(|| json!({"interaction": d, "key": a.unique_key()}));
  Ok(())
}

/// V1-V3 interactions and whole pacts
fn old_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let which = r.below(3);
  let doc = match which { 0 => { let s = *r.pick(&gen::SPECS); gen::pact_v123(r, s).doc }, 1 => gen::message_pact_v3(r).doc, _ => gen::pact_v4(r).doc };
  cx.note(doc.to_string());
  let ld = |d: &Value| load_pact_from_json("gen", d).map_err(|e| Violation { sig: "load-error".into(), detail: e.to_string() });
  let p: Box<dyn Pact + Send + Sync + RefUnwindSafe> = ld(&doc)?;
  let q = ld(&reorder(r, &doc))?;
  let spec = p.specification_version();
  ensure!(plain(p.as_ref()) == plain(q.as_ref()) && plain(q.as_ref()) == plain(p.as_ref()), "equal-documents", "two loads of {} are not equal", short(&doc));
  let out = p.to_json(spec).map_err(|e| Violation { sig: "write-error".into(), detail: e.to_string() })?;
  for (what, c) in [("boxed", p.boxed().to_json(spec)), ("arced", p.arced().to_json(spec)), ("thread safe", p.thread_safe().lock().unwrap().to_json(spec)), ("other load", q.to_json(spec))] {
    let c = c.map_err(|e| Violation { sig: "write-error".into(), detail: e.to_string() })?;
    ensure!(c.to_string() == out.to_string(), "copy-differs", "{} copy is written {} not {}", what, short(&c), short(&out));
  }
  for (i, j) in p.interactions().iter().zip(q.interactions()) {
    if which == 0 {
      let (a, b): (RequestResponseInteraction, RequestResponseInteraction) = (i.as_request_response().unwrap(), j.as_request_response().unwrap());
      ensure!(a == b && a.request == b.request && a.response == b.response && h(&a) == h(&b) && h(&a.request) == h(&b.request), "hash-of-equal", "{:?}", a);
      ensure!(!(a.request != b.request) && !(a.response != b.response), "ne", "{:?}", a);
      let plain: Box<dyn Interaction> = Box::new(a.clone());
      ensure!(plain.clone().as_request_response() == Some(a), "clone", "{}", i.description());
    } else if which == 1 {
      let (a, b): (Message, Message) = (i.as_message().unwrap(), j.as_message().unwrap());
      ensure!(a == b, "equal-documents", "{:?}", a);
      let plain: Box<dyn Interaction> = Box::new(a.clone());
      ensure!(plain.clone().as_message() == Some(a), "clone", "{}", i.description());
    }
    cx.tick("older interactions");
  }
  // one changed value makes it another pact
  let mut e = doc.clone();
  let list = if which == 1 { "messages" } else { "interactions" };
  let n = e[list].as_array().unwrap().len();
  if n > 0 {
    let k = r.us(n);
    if tweak(r, &mut e[list][k]) {
      if let Ok(o) = load_pact_from_json("gen", &e) {
        let w = o.to_json(spec).map_err(|e| Violation { sig: "write-error".into(), detail: e.to_string() })?;
        let strip = |v: &Value, p: &dyn Pact| { let mut v = v[list].clone(); for (n, x) in v.as_array_mut().unwrap().iter_mut().enumerate() {
            let i = &p.interactions()[n];
            if let Some(i) = i.as_v4() { if which == 2 { *x = meaning(&i); x["key"] = json!(i.key()); } }
            if which == 0 { let i = i.as_request_response().unwrap(); x["request"]["body"] = body(&i.request.body); x["response"]["body"] = body(&i.response.body);
              x["request"]["method"] = json!(i.request.method); }
            if which == 1 { x["contents"] = body(&i.as_message().unwrap().contents); }
          } v };
        let same = strip(&out, p.as_ref()) == strip(&w, o.as_ref());
        for (x, y) in p.interactions().iter().zip(o.interactions()) {
          if let (0, Some(x), Some(y)) = (which, x.as_request_response(), y.as_request_response()) { if alike(&x, &y)? { ensure!(h(&x) == h(&y), "hash-of-equal", "{:?}", x) } alike(&x.request, &y.request)?; alike(&x.response, &y.response)?; }
          if let (1, Some(x), Some(y)) = (which, x.as_message(), y.as_message()) { alike(&x, &y)?; }
        }
        if !same { ensure!(plain(p.as_ref()) != plain(o.as_ref()) && plain(o.as_ref()) != plain(p.as_ref()), "equality", "different pacts compare equal: {} and {}", doc[list][k], e[list][k]); cx.tick("changed pacts"); }
        else { cx.tick("unchanged pacts") }
      }
    }
  }
  // and so does another consumer or provider
  let mut e = doc.clone();
  let side = if r.bool() { "consumer" } else { "provider" };
  if let Some(Value::String(s)) = e.pointer_mut(&format!("/{}/name", side)) {
    match r.below(3) { 0 => s.push('x'), 1 => s.insert(0, '-'), _ => *s = if s.to_uppercase() == *s { s.to_lowercase() } else { s.to_uppercase() } }
    let o = ld(&e)?;
    let same = e == doc;
    ensure!((plain(p.as_ref()) == plain(o.as_ref())) == same && (plain(o.as_ref()) == plain(p.as_ref())) == same, "equality", "pacts with {} {} and {} compare {}", side, doc[side], e[side], !same);
    cx.tick("other parties");
  }
  cx.saw(doc.to_string());
  Ok(())
}

/// Keys do not depend on the process that calculates them
pub fn process(path: &std::path::Path) {
  let docs: Vec<Value> = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
  let keys: Vec<String> = docs.iter().map(|d| interaction_from_json("gen", 0, d).map(|i| i.unique_key()).unwrap_or_default()).collect();
  println!("{}", serde_json::to_string(&keys).unwrap());
}

fn process_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let docs: Vec<Value> = (0..60).map(|n| { let (mut d, _) = gen::interaction_v4(r, n % 3); d["description"] = json!(gen::text(r)); d.as_object_mut().unwrap().remove("key"); d }).collect();
  let here: Vec<String> = docs.iter().map(|d| load(d).map(|i| i.unique_key())).collect::<Result<_, _>>()?;
  let there: Vec<Value> = docs.iter().map(|d| reorder(r, d)).collect();
  let f = cx.scratch.join(format!("keys-{}", cx.case));
  std::fs::write(&f, serde_json::to_string(&there).unwrap()).unwrap();
  let out = std::process::Command::new(std::env::current_exe().unwrap()).env("PACTMON_KEYS", &f).output().unwrap();
  let _ = std::fs::remove_file(&f);
  let keys: Vec<String> = serde_json::from_slice(&out.stdout).map_err(|e| Violation { sig: "process".into(), detail: format!("{} {}", e, String::from_utf8_lossy(&out.stderr)) })?;
  let mut seen: BTreeMap<String, Value> = BTreeMap::new();
  for ((a, b), d) in here.iter().zip(&keys).zip(&docs) {
    ensure!(a == b, "key-of-process", "key {} here, {} in another process: {}", a, b, short(d));
    if let Some(o) = seen.insert(a.clone(), d.clone()) { ensure!(meaning(&load(&o)?) == meaning(&load(d)?), "key-collision", "the same key for {} and {}", o, d); }
    cx.tick("keys compared between processes");
  }
  cx.saw(here);
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P20", level: "exploration",
    rule: "Seeded interactions and pacts of every kind, loaded twice with their members in different orders, copied in every way, and loaded with one attribute changed. Non-trivial: each distinct pair of documents whose equality, hash and unique key were compared.",
    assumptions: vec!["Two interactions mean the same when their written forms are the same apart from key, annotations, and how body bytes are encoded."],
    phases: vec![phase("keys", 9000, keys_case), phase("pacts", 2500, old_case), phase_t("processes", 12, 4, process_case)],
    floors: vec![("changed interactions", 3000), ("changed pacts", 500), ("copies", 10000), ("methods in other case", 1000), ("keys compared between processes", 500), ("parts compared", 20000), ("rule categories compared", 3000)],
    probes: vec![]
  }
}
#[allow(dead_code)] fn _s(_: PactSpecification) {}
