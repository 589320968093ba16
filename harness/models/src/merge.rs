//! Merging: the result holds exactly the union of the interactions of both pacts.
use std::collections::BTreeMap;
use std::panic::RefUnwindSafe;
use moncore::*;
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::PactSpecification;

pub type BoxPact = Box<dyn Pact + Send + Sync + RefUnwindSafe>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { V1, V2, V3, Msg, V4 }

pub fn spec(k: Kind) -> PactSpecification {
  match k { Kind::V1 => PactSpecification::V1, Kind::V2 => PactSpecification::V2, Kind::V3 | Kind::Msg => PactSpecification::V3, Kind::V4 => PactSpecification::V4 }
}

/// One interaction a consumer test could define. Two items are the same interaction when all
/// of this is equal.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Id { pub typ: usize, pub desc: String, pub states: String }

const DESCS: [&str; 7] = ["a request", "b request", "a request ", "A request", "z", "", "é"];

/// typ: 0 HTTP, 1 message, 2 synchronous message
pub fn pool(r: &mut Rng, k: Kind, n: usize) -> Vec<Id> {
  let st3 = ["[]", r#"[{"name":"s1"}]"#, r#"[{"name":"s2"}]"#, r#"[{"name":"s1"},{"name":"s2"}]"#, r#"[{"name":"s2"},{"name":"s1"}]"#,
    r#"[{"name":"s1","params":{"id":1}}]"#, r#"[{"name":"s1","params":{"id":2}}]"#, r#"[{"name":"s1","params":{"id":"1"}}]"#,
    r#"[{"name":"s1","params":{"id":1,"n":{"x":[1]}}}]"#, r#"[{"name":"s1","params":{"id":1,"n":{"x":[2]}}}]"#];
  let mut v: Vec<Id> = vec![];
  let nd = r.range(1, 4) as usize;
  let descs: Vec<String> = (0..nd).map(|_| r.pick_s(&DESCS)).collect();
  for _ in 0..n * 3 {
    if v.len() == n { break }
    let typ = match k { Kind::Msg => 1, Kind::V4 => r.us(3), _ => 0 };
    let states = match k { Kind::V1 | Kind::V2 => *r.pick(&st3[..3]), _ => *r.pick(&st3) };
    let i = Id { typ, desc: r.pick(&descs).clone(), states: states.into() };
    if !v.contains(&i) { v.push(i) }
  }
  v
}

pub fn item_doc(k: Kind, i: &Id, n: usize, ver: u64, key: Option<String>) -> Value {
  let states: Value = serde_json::from_str(&i.states).unwrap();
  let mut d = json!({"description": i.desc});
  if states.as_array().unwrap().len() > 0 {
    if k == Kind::V1 || k == Kind::V2 { d["providerState"] = states[0]["name"].clone(); } else { d["providerStates"] = states; }
  }
  match (k, i.typ) {
    (Kind::V4, 0) => {
      d["type"] = json!("Synchronous/HTTP");
      d["request"] = json!({"method": "GET", "path": format!("/{}", n)});
      d["response"] = json!({"status": 200 + n, "body": {"content": {"v": ver}, "contentType": "application/json", "encoded": false}});
    }
    (Kind::V4, 1) => { d["type"] = json!("Asynchronous/Messages"); d["contents"] = json!({"content": {"v": ver}, "contentType": "application/json", "encoded": false}); }
    (Kind::V4, _) => {
      d["type"] = json!("Synchronous/Messages");
      d["request"] = json!({"contents": {"content": {"v": ver}, "contentType": "application/json", "encoded": false}});
      d["response"] = json!([{"contents": {"content": "x", "contentType": "text/plain", "encoded": false}}]);
    }
    (Kind::Msg, _) => { d["contents"] = json!({"v": ver}); d["metadata"] = json!({"contentType": "application/json"}); }
    _ => {
      d["request"] = json!({"method": "GET", "path": format!("/{}", n), "body": {"v": ver}, "headers": {"Content-Type": "application/json", "X-V": ver.to_string()}});
      d["response"] = json!({"status": 200 + n, "body": {"v": ver}, "headers": {"Content-Type": "application/json", "X-V": ver.to_string()}});
      if k != Kind::V1 {
        d["request"]["matchingRules"] = json!({(if k == Kind::V2 { format!("$.body.f{}", ver) } else { "body".to_string() }): if k == Kind::V2 { json!({"match": "type"}) } else { json!({format!("$.f{}", ver): {"combine": "AND", "matchers": [{"match": "type"}]}}) }});
        d["response"]["matchingRules"] = d["request"]["matchingRules"].clone();
      }
    }
  }
  if let Some(key) = key { d["key"] = json!(key); }
  d
}

pub fn pact_doc(k: Kind, items: Vec<Value>) -> Value {
  let ver = match k { Kind::V1 => "1.0.0", Kind::V2 => "2.0.0", Kind::V3 | Kind::Msg => "3.0.0", Kind::V4 => "4.0" };
  json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, (if k == Kind::Msg { "messages" } else { "interactions" }): items,
    "metadata": {"pactSpecification": {"version": ver}}})
}

pub fn load(doc: &Value) -> Result<BoxPact, Violation> {
  match load_pact_from_json("gen", doc) { Ok(p) => Ok(p), Err(e) => violated("load-error", e.to_string()) }
}

/// Everything in the request and response comes from one version
fn whole_version(i: &Value, ver: u64) -> bool {
  ["request", "response"].iter().all(|p| i[*p]["body"]["v"].as_u64() == Some(ver) && i[*p]["headers"]["X-V"].as_str() == Some(&ver.to_string())
    && (i[*p].get("matchingRules").is_none() || i[*p]["matchingRules"].to_string().contains(&format!("f{}", ver))))
}

/// Reads (identity, version) of every interaction out of a written document
pub fn contents(doc: &Value) -> Vec<(Id, u64)> {
  let a = doc["interactions"].as_array().or_else(|| doc["messages"].as_array()).cloned().unwrap_or_default();
  let msg = doc.get("messages").is_some();
  a.iter().map(|i| {
    let typ = match i["type"].as_str() { Some("Synchronous/HTTP") => 0, Some("Asynchronous/Messages") => 1, Some(_) => 2, None => if msg { 1 } else { 0 } };
    let mut states = i.get("providerStates").cloned().unwrap_or(json!([]));
    if let Some(s) = i["providerState"].as_str() { states = json!([{"name": s}]); }
    for s in states.as_array_mut().unwrap() { if s["params"].as_object().map(|o| o.is_empty()).unwrap_or(false) { s.as_object_mut().unwrap().remove("params"); } }
    let c = |v: &Value| v["content"]["v"].as_u64().or_else(|| v["v"].as_u64()).unwrap_or(u64::MAX);
    let ver = match typ {
      0 if i.get("type").is_none() && !whole_version(i, c(&i["response"]["body"])) => u64::MAX,
      0 => c(&i["response"]["body"]), 1 => c(&i["contents"]), _ => c(&i["request"]["contents"]) };
    (Id { typ, desc: i["description"].as_str().unwrap_or("?").to_string(), states: states.to_string() }, ver)
  }).collect()
}

fn ids(v: &[(Id, u64)]) -> Vec<Id> { let mut x: Vec<Id> = v.iter().map(|i| i.0.clone()).collect(); x.sort(); x }

/// The merged document holds every identity of either side once, with the content one side had
pub fn check_union(what: &str, got: &[(Id, u64)], sides: &[&[(Id, u64)]]) -> Verdict {
  let mut want: BTreeMap<Id, Vec<u64>> = BTreeMap::new();
  for s in sides { for (i, v) in s.iter() { want.entry(i.clone()).or_default().push(*v); } }
  for i in want.keys() {
    let n = got.iter().filter(|g| g.0 == *i).count();
    ensure!(n != 0, "interaction-lost", "{}: {:?} is not in the result {:?}", what, i, ids(got));
    ensure!(n == 1, "interaction-duplicated", "{}: {:?} is {} times in the result {:?}", what, i, n, ids(got));
  }
  for (i, v) in got {
    match want.get(i) {
      None => return violated("interaction-invented", format!("{}: {:?} is in neither pact", what, i)),
      Some(vs) => ensure!(vs.contains(v), "content-mixed", "{}: {:?} has content version {} but the pacts have {:?}", what, i, v, vs)
    }
  }
  Ok(())
}

fn merged(a: &BoxPact, b: &BoxPact) -> Result<BoxPact, Violation> {
  match a.merge(b.as_ref()) { Ok(p) => Ok(p), Err(e) => violated("merge-error", format!("pacts with no conflicts: {}", e)) }
}
fn written(p: &BoxPact, k: Kind) -> Result<Value, Violation> {
  match p.to_json(spec(k)) { Ok(v) => Ok(v), Err(e) => violated("write-error", e.to_string()) }
}

fn check_sorted(what: &str, got: &[(Id, u64)]) -> Verdict {
  for w in got.windows(2) { ensure!(w[0].0.desc <= w[1].0.desc, "not-sorted", "{}: '{}' before '{}'", what, w[0].0.desc, w[1].0.desc); }
  Ok(())
}

fn side(r: &mut Rng, k: Kind, pool: &[Id], keys: u64, ver: u64, uniform: bool) -> (Value, Vec<(Id, u64)>) {
  let mut pick: Vec<usize> = (0..pool.len()).filter(|_| r.chance(3, 5)).collect();
  r.shuffle(&mut pick);
  if r.chance(1, 3) { pick.sort_by(|a, b| pool[*a].desc.cmp(&pool[*b].desc)); }
  let items: Vec<Value> = pick.iter().map(|n| {
    let key = if k == Kind::V4 && (keys == 1 || keys == 2 && r.bool()) { Some(format!("k{}", n)) } else { None };
    item_doc(k, &pool[*n], *n, if uniform { 0 } else { ver }, key)
  }).collect();
  let doc = pact_doc(k, items);
  let c = contents(&doc);
  (doc, c)
}

fn case(cx: &mut Cx) -> Verdict {
  let r = &mut cx.rng;
  let k = *r.pick(&[Kind::V1, Kind::V2, Kind::V3, Kind::V3, Kind::Msg, Kind::V4, Kind::V4]);
  let n = r.range(1, 7) as usize;
  let pool = pool(r, k, n);
  let keys = r.below(4);
  let uniform = r.bool();
  let (da, ca) = side(r, k, &pool, keys, 1, uniform);
  let (db, cb) = side(r, k, &pool, keys, 2, uniform);
  let (dc, cc) = side(r, k, &pool, keys, 3, uniform);
  cx.note(format!("{:?} a: {}\nb: {}\nc: {}", k, da, db, dc));
  let (a, b, c) = (load(&da)?, load(&db)?, load(&dc)?);
  let ab = merged(&a, &b)?;
  let abj = written(&ab, k)?;
  let abc = contents(&abj);
  check_union("a+b", &abc, &[&ca, &cb])?;
  check_sorted("a+b", &abc)?;
  let ba = merged(&b, &a)?;
  check_union("b+a", &contents(&written(&ba, k)?), &[&ca, &cb])?;
  // merging again with either changes nothing
  for (what, x, y) in [("a+(a+b)", &a, &ab), ("(a+b)+b", &ab, &b), ("(a+b)+(a+b)", &ab, &ab), ("b+(a+b)", &b, &ab)] {
    let m = written(&merged(x, y)?, k)?;
    ensure!(ids(&contents(&m)) == ids(&abc), "not-idempotent", "{}: {:?} then {:?}", what, ids(&abc), ids(&contents(&m)));
    if uniform && keys != 2 {
      let norm = |v: &Value| { let mut a: Vec<String> = v["interactions"].as_array().or(v["messages"].as_array()).unwrap().iter().map(|i| i.to_string()).collect(); a.sort(); a };
      ensure!(norm(&m) == norm(&abj), "content-changed-by-remerge", "{}: {} vs {}", what, abj, m);
    }
  }
  let x = written(&merged(&merged(&a, &b)?, &c)?, k)?;
  let y = written(&merged(&a, &merged(&b, &c)?)?, k)?;
  check_union("(a+b)+c", &contents(&x), &[&ca, &cb, &cc])?;
  check_union("a+(b+c)", &contents(&y), &[&ca, &cb, &cc])?;
  // the merged pact is a pact: it can be written, read, and holds the same
  let back = contents(&written(&load(&abj)?, k)?);
  ensure!(back == abc, "merged-not-readable", "{:?} vs {:?}", abc, back);
  // consumer/provider unchanged; pacts of other parties are refused
  ensure!(ab.consumer().name == "c" && ab.provider().name == "p", "participants", "{:?} {:?}", ab.consumer(), ab.provider());
  let mut other = db.clone();
  let who = if cx.rng.bool() { "consumer" } else { "provider" };
  // ... however close their names are
  other[who]["name"] = json!(match (cx.rng.below(4), who) { (0, "consumer") => "C", (0, _) => "P", (1, "consumer") => "c ", (1, _) => "p ", (2, _) => "", _ => "someone else" });
  let other = load(&other)?;
  ensure!(a.merge(other.as_ref()).is_err() && other.merge(a.as_ref()).is_err(), "merged-other-party", "a pact with a different {} was merged", who);
  // the metadata of the pact merged into survives
  let (mut ma, mut mb) = (da.clone(), db.clone());
  ma["metadata"]["tool"] = json!({"name": "one", "a": "1"}); mb["metadata"]["tool"] = json!({"name": "two", "b": "2"});
  let m = written(&merged(&load(&ma)?, &load(&mb)?)?, k)?;
  ensure!(m["metadata"]["tool"]["name"] == "one" && m["metadata"]["tool"]["a"] == "1", "metadata-lost", "{} merged with {} has {}", ma["metadata"], mb["metadata"], m["metadata"]);
  ensure!(contents(&m) == contents(&written(&ab, k)?), "metadata-matters", "with metadata: {}", m);
  cx.tick(match k { Kind::V1 => "V1 merges", Kind::V2 => "V2 merges", Kind::V3 => "V3 merges", Kind::Msg => "message merges", Kind::V4 => "V4 merges" });
  if ca.iter().any(|x| cb.iter().any(|y| x.0 == y.0)) { cx.tick("merges with common interactions"); }
  if ca.iter().any(|x| cb.iter().any(|y| x.0 != y.0 && x.0.desc == y.0.desc)) { cx.tick("merges with equal descriptions"); }
  cx.saw((da.to_string(), db.to_string()));
  cx.sample(|| json!({"a": da, "b": db}));
  Ok(())
}

/// Contradictory definitions of the same V1-V3 interaction are refused; message and HTTP pacts
/// can not be combined before V4; older pacts are upgraded into V4 ones
fn conflict_case(cx: &mut Cx) -> Verdict {
  let r = &mut cx.rng;
  let k = *r.pick(&[Kind::V1, Kind::V2, Kind::V3]);
  let n = r.range(1, 5) as usize;
  let pl = pool(r, k, n);
  let (mut da, ca) = side(r, k, &pl, 0, 1, false);
  let (mut db, cb) = side(r, k, &pl, 0, 2, false);
  let id = r.us(pl.len());
  let mut x = item_doc(k, &pl[id], id, 1, None);
  for d in [&mut da, &mut db] { d["interactions"].as_array_mut().unwrap().retain(|i| i["request"]["path"] != format!("/{}", id)); }
  let pos = r.us(da["interactions"].as_array().unwrap().len() + 1);
  da["interactions"].as_array_mut().unwrap().insert(pos, x.clone());
  let what = r.below(5);
  match what {
    0 => x["request"]["method"] = json!("POST"),
    1 => x["request"]["path"] = json!("/other"),
    2 => x["response"]["status"] = json!(500),
    3 => x["request"]["query"] = if k == Kind::V3 { json!({"q": ["1"]}) } else { json!("q=1") },
    _ => { x["request"]["query"] = if k == Kind::V3 { json!({"q": ["1"]}) } else { json!("q=1") };
           let mut y = x.clone(); y["request"]["query"] = if k == Kind::V3 { json!({"q": ["2"]}) } else { json!("q=2") };
           da["interactions"][pos] = y; }
  }
  let pos = r.us(db["interactions"].as_array().unwrap().len() + 1);
  db["interactions"].as_array_mut().unwrap().insert(pos, x);
  cx.note(format!("{:?} conflict {} a: {}\nb: {}", k, what, da, db));
  let (a, b) = (load(&da)?, load(&db)?);
  for (p, q) in [(&a, &b), (&b, &a)] {
    ensure!(p.merge(q.as_ref()).is_err(), "conflict-merged", "contradictory interactions were merged (kind {})", what);
  }
  cx.tick("conflicts refused");
  // HTTP with messages
  let r = &mut cx.rng;
  let mp = pool(r, Kind::Msg, 3);
  let (dm, cm) = side(r, Kind::Msg, &mp, 0, 3, false);
  let m = load(&dm)?;
  let (d0, c0) = side(r, k, &pl, 0, 1, false);
  let a = load(&d0)?;
  if !c0.is_empty() && !cm.is_empty() {
    ensure!(a.merge(m.as_ref()).is_err(), "mixed-merge", "messages merged into an HTTP pact");
    ensure!(m.merge(a.as_ref()).is_err(), "mixed-merge", "HTTP interactions merged into a message pact");
    cx.tick("mixed merges refused");
  }
  // upgrade into V4
  let vp = pool(&mut cx.rng, Kind::V4, 3);
  let (dv, cv) = side(&mut cx.rng, Kind::V4, &vp, 0, 4, false);
  let v = load(&dv)?;
  let _ = (ca, cb);
  for (old, co) in [(&a, &c0), (&m, &cm)] {
    let j = written(&merged(&v, old)?, Kind::V4)?;
    check_union("V4+older", &contents(&j), &[&cv, co])?;
    ensure!(j["metadata"]["pactSpecification"]["version"] == "4.0", "upgrade-version", "{}", j["metadata"]);
    cx.tick("upgrades");
  }
  cx.saw((da.to_string(), db.to_string()));
  Ok(())
}

fn plugin_case(cx: &mut Cx) -> Verdict {
  let r = &mut cx.rng;
  let mk = |r: &mut Rng| -> Vec<Value> {
    let mut v: Vec<Value> = vec![];
    for name in ["csv", "protobuf", "csv2"] { for ver in ["1", "2"] { if r.chance(1, 3) {
      let mut c = Map::new();
      for key in ["k1", "k2", "k3"] { if r.bool() { c.insert(key.into(), json!({"desc": format!("{}{}{}", name, ver, key)})); } }
      v.push(json!({"name": name, "version": ver, "configuration": c}));
    } } }
    r.shuffle(&mut v);
    v
  };
  let (pa, pb) = (mk(r), mk(r));
  let mut da = pact_doc(Kind::V4, vec![]); let mut db = da.clone();
  if !pa.is_empty() { da["metadata"]["plugins"] = json!(pa); }
  if !pb.is_empty() { db["metadata"]["plugins"] = json!(pb); }
  cx.note(format!("a {} b {}", da, db));
  let key = |v: &Value| (v["name"].as_str().unwrap().to_string(), v["version"].as_str().unwrap().to_string());
  let mut want: BTreeMap<(String, String), Map<String, Value>> = BTreeMap::new();
  for p in pa.iter().chain(&pb) { want.entry(key(p)).or_default().extend(p["configuration"].as_object().unwrap().clone()); }
  let (a, b) = (load(&da)?, load(&db)?);
  let ab = merged(&a, &b)?;
  for m in [written(&ab, Kind::V4)?, written(&merged(&ab, &b)?, Kind::V4)?, written(&merged(&b, &a)?, Kind::V4)?] {
    let got: Vec<Value> = m["metadata"]["plugins"].as_array().cloned().unwrap_or_default();
    ensure!(got.len() == want.len(), "plugin-data", "{} plugin entries, expected {:?}, got {:?}", got.len(), want, got);
    for g in &got {
      let w = want.get(&key(g));
      ensure!(w.map(|w| json!(w)) == Some(g.get("configuration").cloned().unwrap_or(json!({}))), "plugin-data", "expected {:?} got {}", w, g);
    }
  }
  cx.tick("plugin data merges");
  cx.saw((json!(pa).to_string(), json!(pb).to_string()));
  Ok(())
}

fn plugin_arrays() -> Verdict {
  let mut d = pact_doc(Kind::V4, vec![]);
  d["metadata"]["plugins"] = json!([{"name": "p", "version": "1", "configuration": {"files": ["a"]}}]);
  let p = load(&d)?;
  let m = written(&merged(&p, &p)?, Kind::V4)?;
  ensure!(m["metadata"]["plugins"][0]["configuration"]["files"] == json!(["a"]), "plugin-array-repeat", "{}", m["metadata"]["plugins"]);
  Ok(())
}

/// Interactions that carry keys are told apart by them, whatever else they have in common
fn keyed_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let n = r.range(1, 6) as usize;
  let descs = ["a request", "b request", "a request "];
  let side = |r: &mut Rng, ver: u64| -> (Value, BTreeMap<String, u64>) {
    let mut pick: Vec<usize> = (0..n).filter(|_| r.chance(3, 5)).collect();
    r.shuffle(&mut pick);
    let all: Vec<Value> = pick.iter().map(|k| {
      let id = Id { typ: r.us(3), desc: r.pick(&descs).to_string(), states: r.pick_s(&["[]", r#"[{"name":"s1"}]"#]) };
      item_doc(Kind::V4, &id, *k, ver, Some(format!("k{}", k)))
    }).collect();
    (pact_doc(Kind::V4, all), pick.iter().map(|k| (format!("k{}", k), ver)).collect())
  };
  let (da, ka) = side(r, 1); let (db, kb) = side(r, 2);
  cx.note(format!("a: {}\nb: {}", da, db));
  let (a, b) = (load(&da)?, load(&db)?);
  for (what, x, y, kx, ky) in [("a+b", &a, &b, &ka, &kb), ("b+a", &b, &a, &kb, &ka)] {
    let m = merged(x, y)?;
    let j = written(&m, Kind::V4)?;
    for (what, j) in [(what.to_string(), j.clone()), (format!("{} read again", what), written(&load(&j)?, Kind::V4)?)] {
      let got = j["interactions"].as_array().unwrap();
      let mut keys: Vec<&str> = got.iter().map(|i| i["key"].as_str().unwrap_or("?")).collect(); keys.sort();
      let mut want: Vec<&str> = kx.keys().chain(ky.keys()).map(|k| k.as_str()).collect(); want.sort(); want.dedup();
      ensure!(keys == want, "keyed-interactions", "{}: the interactions {:?} and {:?} gave {:?}", what, kx, ky, keys);
      for i in got {
        let k = i["key"].as_str().unwrap();
        let whole = da["interactions"].as_array().unwrap().iter().chain(db["interactions"].as_array().unwrap()).any(|d| d["key"] == k && d["description"] == i["description"] && d["type"] == i["type"] && d.get("providerStates") == i.get("providerStates"));
        ensure!(whole, "content-mixed", "{}: {} is the interaction of neither pact", what, i);
      }
    }
    for (k, _) in kx { if ky.contains_key(k) { cx.tick("keys in both pacts") } }
  }
  let all: Vec<&Value> = da["interactions"].as_array().unwrap().iter().chain(db["interactions"].as_array().unwrap()).collect();
  if all.iter().any(|x| all.iter().any(|y| x["key"] != y["key"] && x["description"] == y["description"] && x["type"] == y["type"] && x.get("providerStates") == y.get("providerStates"))) { cx.tick("told apart by their keys alone") }
  cx.saw((da.to_string(), db.to_string()));
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P04", level: "exploration",
    rule: "Seeded triples of pacts of the same format drawn from a small pool of interactions (equal descriptions, different provider states, state parameters, types and keys, any order), merged in every order and re-merged; plus pairs with planted contradictions, mixed kinds, upgrades and plugin data. Non-trivial: each distinct pair of documents merged.",
    assumptions: vec!["Which of two versions of the same interaction survives is only required to be one of the two, unchanged."],
    phases: vec![phase("union", 4000, case), phase("keys", 2000, keyed_case), phase("conflicts", 2000, conflict_case), phase("plugins", 1000, plugin_case)],
    floors: vec![("V4 merges", 500), ("V3 merges", 500), ("message merges", 300), ("merges with common interactions", 1000), ("merges with equal descriptions", 1000), ("conflicts refused", 1000), ("mixed merges refused", 500), ("upgrades", 1000), ("plugin data merges", 500), ("keys in both pacts", 1000), ("told apart by their keys alone", 100)],
    probes: vec![("plugin-array-repeat", plugin_arrays)]
  }
}
