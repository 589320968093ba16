//! Requests and responses whose differences from the expected one are known part by part
use moncore::*;
use pact_matching::Mismatch;
use pact_models::interaction::http_interaction_from_json;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::PactSpecification;

use crate::tmpl::{self, Node, PATTERNS};
use crate::util::*;

/// A text and what may stand in its place
#[derive(Clone, Debug)]
pub struct Text { pub label: &'static str, pub rule: Option<Value>, pub ex: String, pub ok: Vec<String>, pub bad: Vec<String> }

fn word(r: &mut Rng) -> String { r.string_from(&['a', 'b', 'k', 'Q', '7', 'é', '-'], 1, 7) }
fn v(l: &[&str]) -> Vec<String> { l.iter().map(|s| s.to_string()).collect() }
fn edged(s: &str) -> bool { s.trim() != s || s.is_empty() }

/// `tight`: no empty texts and none with white space at the edges; `path`: texts that start with a slash
pub fn text(r: &mut Rng, tight: bool, path: bool) -> Text {
  let t = |label, rule: Value, ok: Vec<String>, bad: Vec<String>| Text { label, rule: Some(rule), ex: ok[0].clone(), ok, bad };
  let plain = |r: &mut Rng| { let w = if path { format!("/{}/{}", word(r), word(r)) } else if r.chance(1, 6) { format!("{} {}", word(r), word(r)) } else { word(r) }; let mut bad = vec![format!("{w}x"), w.chars().skip(1).collect(), w.to_uppercase(), w.to_lowercase(), format!("{w}/"), "-".into()]; bad.retain(|b| *b != w);
    Text { label: "plain", rule: None, ex: w.clone(), ok: vec![w], bad } };
  let mut x = if path { match r.below(5) {
    0 => t("regex", json!({"match": "regex", "regex": r"/\w+/\d+"}), v(&["/users/1", "/x/22", "/ab_c/0"]), v(&["/users/", "/users/x", "users/1", "/a/b/1", "/users/1/", "/users/1?x=1"])),
    1 => { let w = word(r); t("include", json!({"match": "include", "value": w}), vec![format!("/{w}/a"), format!("/a{w}")], v(&["/", "/.."])) }
    2 => t("equality", json!({"match": "equality"}), v(&["/a/b"]), v(&["/a/B", "/a/b/", "/a"])),
    _ => plain(r)
  } } else { match r.below(15) {
    0 | 1 => { let (p, ok, bad) = *r.pick(&PATTERNS); t("regex", json!({"match": "regex", "regex": p}), v(ok), v(bad)) }
    2 => { let a = (0..4).map(|_| word(r)).collect(); t("type", json!({"match": "type"}), a, vec![]) }
    3 => { let w = word(r); t("include", json!({"match": "include", "value": w}), vec![format!("a{w}b"), w.clone(), format!("{w} tail")], vec![format!(".{}", w.chars().skip(1).collect::<String>()), ".".into()]) }
    4 => t("integer", json!({"match": "integer"}), v(&["42", "0", "-7", "9007199254740993"]), v(&["1.5", "x", "1e3", "0x10", "1,000", "--1", "12 "])),
    5 => t("decimal", json!({"match": "decimal"}), v(&["1.5", "-0.25", "100.0"]), v(&["x", "1.5.0", "1,5", "abc1.5", "NaN", "inf"])),
    6 => t("number", json!({"match": "number"}), v(&["100", "-1", "2.5"]), v(&["x", "1 0", "0x1F", "one", "nan", "-inf"])),
    7 => t("boolean", json!({"match": "boolean"}), v(&["true", "false"]), v(&["TRUE", "1", "yes", "tru", "false "])),
    8 => t("date", json!({"match": "date", "date": "yyyy-MM-dd"}), v(&["2020-02-29", "1999-12-31"]), v(&["2021-02-29", "2020-13-01", "20200229", "2020-02-29T10"])),
    9 => t("datetime", json!({"match": "timestamp", "timestamp": "yyyy-MM-dd'T'HH:mm:ss"}), v(&["2020-02-29T10:11:12"]), v(&["2020-02-30T10:11:12", "2020-02-29", "2020-02-29T10:11:12Z"])),
    10 => t("semver", json!({"match": "semver"}), v(&["1.2.3", "0.0.1-rc.1+7"]), v(&["1.2", "v1.2.3", "1.2.3.4"])),
    _ => plain(r)
  } };
  if tight { x.ok.retain(|s| !edged(s)); x.bad.retain(|s| !edged(s)); if x.ok.is_empty() { return text(r, tight, path) } x.ex = x.ok[0].clone() }
  x
}

/// A list of two or three texts
pub fn sized(r: &mut Rng) -> Text { let w = word(r); Text { label: "sized", rule: Some(json!({"match": "type", "min": 2, "max": 3})), ex: w, ok: (0..3).map(|_| word(r)).collect(), bad: vec![] } }

#[derive(Clone, Debug)]
pub enum Body { Any, Empty, Json(Node), Plain(String) }
#[derive(Clone, Debug)]
pub struct Header { pub name: String, pub text: Text, pub n: usize, pub fixed: bool }
#[derive(Clone, Debug)]
pub struct Part { pub response: bool, pub method: String, pub path: Text, pub query: Vec<(String, Text, usize)>, pub headers: Vec<Header>, pub params: Option<(&'static str, &'static str, &'static [&'static str], &'static [&'static str])>, pub body: Body, pub ctype: Option<&'static str>, pub status: (u16, Option<Value>, Vec<u16>, Vec<u16>) }

const QNAMES: [&str; 11] = ["q", "Q", "a.b", "x[]", "filter[name]", "with space", "ünï", "page", "x-y", "id", "$"];
const HNAMES: [&str; 7] = ["X-One", "x-two", "X-THREE", "Location", "ETag", "X_under", "If-Match"];
/// parameterised headers: (name, expected, good, bad)
const PARAMS: [(&str, &str, &[&str], &[&str]); 4] = [
  ("Accept", "application/hal+json;level=1", &["application/hal+json;level=1", "application/hal+json; level=1", "application/hal+json ; q=0.5; level=1"], &["application/hal+json", "application/hal+json;level=2", "application/json;level=1", "text/plain"]),
  ("accept", "text/html;q=0.5;x=\"a\"", &["text/html;x=\"a\";q=0.5", "text/html; q=0.5; x=\"a\""], &["text/html;q=0.5", "text/xml;q=0.5;x=\"a\"", "text/html;q=0.6;x=\"a\"", "text/html;q=0.5;x=\"b\""]),
  ("ACCEPT", "application/json;charset=UTF-8", &["application/json;charset=utf-8", "application/json; charset=UTF-8;v=1"], &["application/json", "application/json;charset=utf-16", "charset=UTF-8"]),
  ("Accept", "image/png", &["image/png", "image/png;q=0.1"], &["image/*", "*/*", "image/pngs", "image"])];

pub fn gen(r: &mut Rng, response: bool) -> Part {
  let method = r.pick_s(&["GET", "POST", "put", "Delete", "PATCH", "OPTIONS"]);
  let path = text(r, true, true);
  let mut qn: Vec<&str> = QNAMES.to_vec(); r.shuffle(&mut qn);
  let query = if response { vec![] } else { qn[..r.us(4)].to_vec().into_iter().map(|n| { let t = if r.chance(1, 6) { sized(r) } else { text(r, false, false) }; let k = if t.label == "sized" { 2 } else if r.chance(1, 3) { r.range(1, 3) as usize } else { 1 }; (n.to_string(), t, k) }).collect() };
  let mut hn: Vec<&str> = HNAMES.to_vec(); r.shuffle(&mut hn);
  let headers = hn[..r.us(4)].to_vec().into_iter().map(|n| { let fixed = ["Location", "ETag", "If-Match"].contains(&n); let t = if !fixed && r.chance(1, 6) { sized(r) } else { text(r, true, false) }; let k = if t.label == "sized" { 2 } else if r.chance(1, 3) { r.range(1, 3) as usize } else { 1 }; Header { name: n.to_string(), text: t, n: k, fixed } }).collect();
  let params = if r.chance(1, 3) { Some(*r.pick(&PARAMS)) } else { None };
  let body = match r.below(6) { 0 => Body::Any, 1 => Body::Empty, 2 => Body::Plain(format!("{} {}", word(r), word(r))), _ => Body::Json(crate::body::gen(r)) };
  let ctype = match body { Body::Json(_) => if r.bool() { Some(*r.pick(&["application/json", "application/hal+json", "application/json; charset=UTF-8"])) } else { None }, Body::Plain(_) => Some("text/plain"), _ => None };
  let status = match r.below(6) {
    0 => (200, Some(json!({"match": "statusCode", "status": "success"})), vec![200, 204, 299], vec![199, 300, 404]),
    1 => (404, Some(json!({"match": "statusCode", "status": "clientError"})), vec![400, 404, 499], vec![399, 500, 200]),
    2 => (500, Some(json!({"match": "statusCode", "status": "error"})), vec![400, 500, 599], vec![399, 302, 100]),
    3 => (201, Some(json!({"match": "statusCode", "status": [201, 202]})), vec![201, 202], vec![200, 203, 20, 400]),
    4 => (302, Some(json!({"match": "statusCode", "status": "nonError"})), vec![100, 200, 302, 399], vec![400, 500, 599]),
    _ => { let s = *r.pick(&[200u16, 201, 404, 500, 100]); (s, None, vec![s], vec![s + 1, s - 1, 0, 999]) }
  };
  Part { response, method, path, query, headers, params, body, ctype, status }
}

fn rules_of(t: &Text) -> Option<Value> { t.rule.as_ref().map(|x| json!({"matchers": [x], "combine": "AND"})) }

/// The expected part as it stands in a pact file
pub fn expected(p: &Part, r: &mut Rng) -> Value {
  let mut o = Map::new(); let mut m = Map::new();
  if p.response { o.insert("status".into(), json!(p.status.0)); if let Some(x) = &p.status.1 { m.insert("status".into(), json!({"$": {"matchers": [x], "combine": "AND"}}));
      if r.bool() { m.insert("status".into(), json!({"matchers": [x], "combine": "AND"})); } } }
  else {
    o.insert("method".into(), json!(p.method)); o.insert("path".into(), json!(p.path.ex));
    if let Some(x) = rules_of(&p.path) { m.insert("path".into(), x); }
    if !p.query.is_empty() { o.insert("query".into(), Value::Object(p.query.iter().map(|(k, t, n)| (k.clone(), json!(vec![&t.ex; *n]))).collect())); }
    let q: Map<String, Value> = p.query.iter().filter_map(|(k, t, _)| rules_of(t).map(|x| (k.clone(), x))).collect();
    if !q.is_empty() { m.insert("query".into(), Value::Object(q)); }
  }
  let mut h = Map::new(); let mut hr = Map::new();
  for x in &p.headers { h.insert(x.name.clone(), if x.n == 1 && r.bool() { json!(x.text.ex) } else { json!(vec![&x.text.ex; if x.fixed { 1 } else { x.n }]) });
    if let Some(rule) = rules_of(&x.text) { let k = match r.below(3) { 0 => x.name.to_uppercase(), 1 => x.name.to_lowercase(), _ => x.name.clone() }; hr.insert(k, rule); } }
  if let Some((n, e, ..)) = p.params { h.insert(n.into(), json!([e])); }
  if let Some(c) = p.ctype { h.insert(r.pick_s(&["Content-Type", "content-type"]), json!([c])); }
  if !h.is_empty() { o.insert("headers".into(), Value::Object(h)); }
  if !hr.is_empty() { m.insert("header".into(), Value::Object(hr)); }
  match &p.body { Body::Any => {} Body::Empty => { o.insert("body".into(), json!({"content": ""})); } Body::Plain(t) => { o.insert("body".into(), json!({"content": t, "contentType": "text/plain", "encoded": false})); }
    Body::Json(n) => { o.insert("body".into(), json!({"content": tmpl::example(n), "contentType": p.ctype.unwrap_or("application/json"), "encoded": false})); m.insert("body".into(), Value::Object(crate::body::rules_json(n))); } }
  if !m.is_empty() { o.insert("matchingRules".into(), Value::Object(m)); }
  Value::Object(o)
}

/// Which parts of the actual one differ
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Wrong { pub method: bool, pub path: bool, pub status: bool, pub query: Vec<String>, pub headers: Vec<String>, pub body: Option<&'static str> }
impl Wrong { pub fn any(&self) -> bool { *self != Wrong::default() } }

/// An actual part that complies except as stated. None if there is no way to be wrong as chosen
pub fn actual(p: &Part, r: &mut Rng, wrong: bool) -> (Value, Wrong) {
  let mut w = Wrong::default(); let mut o = Map::new();
  let bad = |r: &mut Rng| wrong && r.chance(1, 5);
  let case = |r: &mut Rng, n: &str| match r.below(3) { 0 => n.to_uppercase(), 1 => n.to_lowercase(), _ => n.to_string() };
  if p.response {
    let s = if bad(r) { w.status = true; *r.pick(&p.status.3) } else { *r.pick(&p.status.2) }; o.insert("status".into(), json!(s));
  } else {
    let m = if bad(r) { w.method = true; r.pick(&["HEAD", "TRACE", "GETS", ""]).to_string() } else { case(r, &p.method) }; o.insert("method".into(), json!(m));
    let path = if !p.path.bad.is_empty() && bad(r) { w.path = true; r.pick(&p.path.bad).clone() } else { r.pick(&p.path.ok).clone() }; o.insert("path".into(), json!(path));
    let mut q = Map::new();
    for (k, t, n) in &p.query {
      let count = if t.label == "sized" { r.range(2, 3) as usize } else if t.rule.is_some() && *n > 1 { r.range(1, 4) as usize } else { *n };
      let mut l: Vec<String> = (0..count).map(|_| r.pick(&t.ok).clone()).collect();
      if bad(r) { match r.below(4) {
        0 => { w.query.push(k.clone()); continue }
        1 if t.rule.is_none() => { l.push(t.ex.clone()); w.query.push(k.clone()) }
        2 if t.rule.is_none() && l.len() > 1 => { l.pop(); w.query.push(k.clone()) }
        _ if t.label == "sized" => { if r.bool() { l.truncate(1) } else { while l.len() < 4 { l.push(t.ex.clone()) } } w.query.push(k.clone()) }
        _ => if !t.bad.is_empty() { let i = r.us(l.len()); l[i] = r.pick(&t.bad).clone(); w.query.push(k.clone()) }
      } }
      q.insert(k.clone(), json!(l));
    }
    if bad(r) { q.insert("unexpected".into(), json!(["1"])); w.query.push("unexpected".into()) }
    if !q.is_empty() || r.chance(1, 3) { o.insert("query".into(), Value::Object(q)); }
  }
  let mut h: Vec<(String, Value)> = vec![];
  for x in &p.headers {
    let n = if x.fixed { 1 } else { x.n }; let t = &x.text;
    let count = if t.label == "sized" { r.range(2, 3) as usize } else if t.rule.is_some() && n > 1 { r.range(1, 4) as usize } else { n };
    let mut l: Vec<String> = (0..count).map(|_| { let s = r.pick(&t.ok).clone(); if t.rule.is_none() && r.chance(1, 5) { format!(" {s} ") } else { s } }).collect();
    if bad(r) { match r.below(4) {
      0 => { w.headers.push(x.name.clone()); continue }
      1 if t.rule.is_none() && !x.fixed => { l.push(t.ex.clone()); w.headers.push(x.name.clone()) }
      2 if t.rule.is_none() && l.len() > 1 => { l.pop(); w.headers.push(x.name.clone()) }
      _ if t.label == "sized" => { if r.bool() { l.truncate(1) } else { while l.len() < 4 { l.push(t.ex.clone()) } } w.headers.push(x.name.clone()) }
      _ => if !t.bad.is_empty() { let i = r.us(l.len()); l[i] = r.pick(&t.bad).clone(); w.headers.push(x.name.clone()) }
    } }
    h.push((case(r, &x.name), json!(l)));
  }
  if let Some((n, _, ok, no)) = p.params { if bad(r) { w.headers.push(n.into()); if r.bool() { h.push((case(r, n), json!([r.pick(no)]))) } } else { h.push((case(r, n), json!([r.pick(ok)]))) } }
  if r.chance(1, 3) { h.push(("X-Extra".into(), json!(["unexpected headers are fine"]))) }
  let mut ct = p.ctype;
  match &p.body {
    Body::Any => if r.bool() { o.insert("body".into(), json!({"content": {"any": r.below(99)}, "contentType": "application/json", "encoded": false})); },
    Body::Empty => if bad(r) { w.body = Some("body"); o.insert("body".into(), json!({"content": "not empty", "contentType": "text/plain", "encoded": false})); } else if r.bool() { o.insert("body".into(), json!({"content": ""})); },
    Body::Plain(t) => { let s = if bad(r) { w.body = Some("body"); r.pick(&[format!("{t}."), t.to_uppercase() + "!", format!(" {t}"), t.chars().skip(1).collect()]).clone() } else { t.clone() }; o.insert("body".into(), json!({"content": s, "contentType": "text/plain", "encoded": false})); }
    Body::Json(n) => {
      let mut doc = (0..40).map(|_| tmpl::comply(n, r, p.response)).find(|d| !(d.is_null() || d == "")).unwrap_or_else(|| tmpl::example(n));
      let mut given = true;
      if bad(r) { match r.below(6) {
        0 => { given = false; w.body = Some("body"); }
        1 if ct.is_some() => { w.body = Some("body-type"); ct = Some("text/plain"); w.headers.push("Content-Type".into()) }
        _ => { let mut at = vec!["$".into()]; if let Some(x) = tmpl::violate(n, r, p.response, &mut at).filter(|x| !(x.doc.is_null() || x.doc == "")) { doc = x.doc; w.body = Some("body") } } } }
      if given { let t = ct.unwrap_or("application/json"); let text = match r.below(3) { 0 => serde_json::to_string_pretty(&doc).unwrap(), _ => doc.to_string() };
        o.insert("body".into(), if ct == Some("text/plain") || r.chance(1, 4) { json!({"content": moncore::b64(text.as_bytes()), "contentType": t, "encoded": "base64"}) } else { json!({"content": doc, "contentType": t, "encoded": false}) }); }
    }
  }
  if let Some(c) = ct { h.push((r.pick_s(&["Content-Type", "CONTENT-TYPE", "content-type"]), json!([c]))) }
  r.shuffle(&mut h);
  if !h.is_empty() { o.insert("headers".into(), Value::Object(h.into_iter().collect())); }
  w.query.sort(); w.headers = w.headers.iter().map(|h| h.to_lowercase()).collect(); w.headers.sort();
  (Value::Object(o), w)
}

pub fn load_req(j: &Value) -> anyhow::Result<HttpRequest> { http_interaction_from_json("case", &json!({"type": "Synchronous/HTTP", "description": "d", "request": j}), &PactSpecification::V4).map(|i| i.as_v4_http().unwrap().request) }
pub fn load_res(j: &Value) -> anyhow::Result<HttpResponse> { http_interaction_from_json("case", &json!({"type": "Synchronous/HTTP", "description": "d", "response": j}), &PactSpecification::V4).map(|i| i.as_v4_http().unwrap().response) }

/// The name a mismatch gives, where a difference in a list of values is given as a path
fn name(s: &str) -> String { if s.starts_with("$.") || s.starts_with("$[") { pact_models::path_exp::DocPath::new(s).ok().and_then(|p| p.first_field().map(|f| f.to_string())).unwrap_or(s.into()) } else { s.into() } }

/// What is said to differ
pub fn told(ms: &[Mismatch]) -> Wrong {
  let mut w = Wrong::default();
  for m in ms { match m {
    Mismatch::MethodMismatch { .. } => w.method = true, Mismatch::PathMismatch { .. } => w.path = true, Mismatch::StatusMismatch { .. } => w.status = true,
    Mismatch::QueryMismatch { parameter, .. } => w.query.push(name(parameter)), Mismatch::HeaderMismatch { key, .. } => w.headers.push(name(key).to_lowercase()),
    Mismatch::BodyTypeMismatch { .. } => w.body = Some("body-type"), Mismatch::BodyMismatch { .. } => w.body = Some("body"), Mismatch::MetadataMismatch { .. } => {} } }
  w.query.sort(); w.query.dedup(); w.headers.sort(); w.headers.dedup();
  w
}

fn labels(p: &Part) -> Vec<&'static str> { let mut l: Vec<_> = p.query.iter().map(|q| q.1.label).chain(p.headers.iter().map(|h| h.text.label)).collect(); l.push(p.path.label); l.sort(); l.dedup(); l }

fn requests(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let p = gen(r, false); let ej = expected(&p, r);
  let e = match load_req(&ej) { Ok(e) => e, Err(x) => return violated("load", format!("{x}; {ej}")) };
  for k in 0..4 {
    let (aj, w) = actual(&p, r, k > 0); let a = match load_req(&aj) { Ok(a) => a, Err(x) => return violated("load", format!("{x}; {aj}")) };
    let m = match no_panic(|| req(&e, &a)) { Ok(m) => m, Err(x) => return violated("panic", format!("{x}; {ej} against {aj}")) };
    let t = told(&m.mismatches());
    cx.saw((w.method, w.path, w.query.len().min(2), w.headers.len().min(2), w.body, labels(&p))); cx.tick(if w.any() { "requests with known differences" } else { "requests that comply" });
    ensure!(t == w, format!("request-{}", if !w.any() { "complies" } else { "differs" }), "the request differs in {w:?} but {t:?} is reported ({}); expected {} actual {}", show(&m.mismatches()), s(&ej), s(&aj));
    ensure!(m.all_matched() == !w.any(), "all-matched", "all_matched is {} for {w:?}", m.all_matched());
    ensure!(m.method_or_path_mismatch() == (w.method || w.path), "method-or-path", "method_or_path_mismatch is {} for {w:?}", m.method_or_path_mismatch());
    let best = 2 + e.query.as_ref().map(|q| q.len()).unwrap_or(0) as i64 + e.headers.as_ref().map(|h| h.len()).unwrap_or(0) as i64; let sc = m.score() as i64;
    ensure!(if w.any() { sc < best } else { sc == best }, "score", "score {sc} (a perfect match has {best}) for {w:?}");
  }
  cx.sample(|| json!({"expected": ej}));
  Ok(())
}

fn responses(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let p = gen(r, true); let ej = expected(&p, r);
  let e = match load_res(&ej) { Ok(e) => e, Err(x) => return violated("load", format!("{x}; {ej}")) };
  for k in 0..4 {
    let (aj, w) = actual(&p, r, k > 0); let a = match load_res(&aj) { Ok(a) => a, Err(x) => return violated("load", format!("{x}; {aj}")) };
    let m = match no_panic(|| res(&e, &a)) { Ok(m) => m, Err(x) => return violated("panic", format!("{x}; {ej} against {aj}")) };
    let t = told(&m);
    cx.saw((w.status, w.headers.len().min(2), w.body, labels(&p))); cx.tick(if w.any() { "responses with known differences" } else { "responses that comply" });
    ensure!(t == w, format!("response-{}", if !w.any() { "complies" } else { "differs" }), "the response differs in {w:?} but {t:?} is reported ({}); expected {} actual {}", show(&m), s(&ej), s(&aj));
  }
  Ok(())
}

/// Requests with very many parameters and headers
fn wide(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let (nq, nh) = (r.us(160), r.us(160)); let bad = if r.bool() { 0 } else { 1 + r.us(nq.max(1)) };
  let q: Map<String, Value> = (0..nq).map(|i| (format!("q{i}"), json!(["1"]))).collect(); let h: Map<String, Value> = (0..nh).map(|i| (format!("X-{i}"), json!(["1"]))).collect();
  let mut qa = q.clone(); let mut wrong = 0; for i in 0..bad { if let Some(x) = qa.get_mut(&format!("q{i}")) { *x = json!(["2"]); wrong += 1 } }
  let e = load_req(&json!({"method": "GET", "path": "/", "query": q, "headers": h})).unwrap(); let a = load_req(&json!({"method": "GET", "path": "/", "query": qa, "headers": h})).unwrap();
  let m = match no_panic(|| { let m = req(&e, &a); let s = m.score(); (m, s) }) { Ok(m) => m, Err(x) => return violated("wide-panic", format!("{x}; {nq} parameters and {nh} headers, {wrong} wrong")) };
  cx.tick("wide requests"); cx.saw((nq / 8, nh / 8, wrong / 8));
  ensure!(told(&m.0.mismatches()).query.len() == wrong, "wide", "{wrong} parameters differ, told: {}", told(&m.0.mismatches()).query.len());
  let sum = 2 + nq as i64 + nh as i64 - 2 * wrong as i64;
  ensure!(m.1 as i64 == sum.clamp(-128, 127), "wide-score", "score {} for {nq} parameters and {nh} headers of which {wrong} differ", m.1);
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P31", level: "exploration",
    rule: "Seeded expected requests and responses with rules on paths, queries, headers, status and bodies, loaded as from a pact file, matched with actual ones that comply and with ones changed in known parts. Non-trivial: each distinct combination of rules and changed parts.",
    assumptions: vec!["A list of values is named by its parameter or header, or by the path of it.", "Names made of digits only, and '*', stand for list positions and wildcards in rule paths and are left out."],
    phases: vec![phase("requests", 6000, requests), phase("responses", 4000, responses), phase("wide", 100, wide)],
    floors: vec![("requests that comply", 6000), ("requests with known differences", 8000), ("responses that comply", 4000), ("responses with known differences", 3000), ("wide requests", 80)],
    probes: vec![]
  }
}
