//! P51: the pact file written says what the calls said.
use std::collections::BTreeMap;
use std::path::Path;
use moncore::*;
use pact_ffi::mock_server::handles::*;
use pact_models::path_exp::DocPath;
use pact_models::prelude::*;
use pact_models::prelude::v4::*;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::message_parts::MessageContents;
use pact_models::PactSpecification;
use serde_json::{json, Map, Value};
use crate::text::Text;

type Rules = BTreeMap<String, Vec<Value>>;
type Gens = BTreeMap<String, Value>;

/// A value with matchers in it: what is handed over, what it stands for, and the rules and generators it sets up.
#[derive(Clone, Debug, Default)]
struct Tmpl { given: Value, plain: Value, rules: Rules, gens: Gens }

fn name(r: &mut Rng) -> String { r.pick_s(&["id", "name", "a", "b", "items", "x-y", "a b", "émile", "Total", "n1"]) }

fn scalar(r: &mut Rng) -> Value {
  match r.us(7) { 0 => Value::Null, 1 => json!(r.bool()), 2 => json!(r.range(-20, 2000)), 3 => json!(r.range(-20, 2000) as f64 + 0.5), 4 => json!(""), _ => json!(r.pick_s(&["a", "ab", "100", "true", "2000-01-02", "é", "\"q\"", "a\nb", "{}", "[1]"])) }
}

/// A matcher for a scalar: the attributes to hand over, the value, the rule.
fn matcher(r: &mut Rng) -> (Value, Value, Value) {
  let n = r.range(0, 500);
  match r.us(11) {
    0 => (json!({"pact:matcher:type": "type"}), scalar(r), json!({"match": "type"})),
    1 => (json!({"pact:matcher:type": "regex", "regex": "\\w+"}), json!("abc"), json!({"match": "regex", "regex": "\\w+"})),
    2 => (json!({"pact:matcher:type": "integer"}), json!(n), json!({"match": "integer"})),
    3 => (json!({"pact:matcher:type": "decimal"}), json!(n as f64 + 0.25), json!({"match": "decimal"})),
    4 => (json!({"pact:matcher:type": "boolean"}), json!(r.bool()), json!({"match": "boolean"})),
    5 => (json!({"pact:matcher:type": "date", "format": "yyyy-MM-dd"}), json!("2000-01-02"), json!({"match": "date", "format": "yyyy-MM-dd"})),
    6 => (json!({"pact:matcher:type": "include"}), json!("abc"), json!({"match": "include", "value": "abc"})),
    7 => (json!({"pact:matcher:type": "equality"}), scalar(r), json!({"match": "equality"})),
    8 => (json!({"pact:matcher:type": "notEmpty"}), json!("x"), json!({"match": "notEmpty"})),
    9 => (json!({"pact:matcher:type": "matching(number, 100)"}), json!(n), json!({"match": "number"})),
    _ => (json!({"pact:matcher:type": "semver"}), json!("1.0.0"), json!({"match": "semver"}))
  }
}

fn generator(r: &mut Rng) -> (Value, Value) {
  match r.us(5) {
    0 => (json!({"pact:generator:type": "Uuid"}), json!({"type": "Uuid"})),
    1 => (json!({"pact:generator:type": "RandomInt", "min": 1, "max": 9}), json!({"type": "RandomInt", "min": 1, "max": 9})),
    2 => (json!({"pact:generator:type": "RandomString", "size": 5}), json!({"type": "RandomString", "size": 5})),
    3 => (json!({"pact:generator:type": "RandomHexadecimal", "digits": 8}), json!({"type": "RandomHexadecimal", "digits": 8})),
    _ => (json!({"pact:generator:type": "ProviderState", "expression": "${id}"}), json!({"type": "ProviderState", "expression": "${id}"}))
  }
}

fn with(mut base: Value, more: &Value) -> Value { for (k, v) in more.as_object().unwrap() { base[k] = v.clone(); } base }

fn tmpl(r: &mut Rng, path: &DocPath, depth: usize) -> Tmpl {
  let mut t = Tmpl::default();
  match if depth == 0 { 3 + r.us(4) } else { r.us(10) } {
    0 | 1 | 2 => {
      let (mut given, mut plain) = (Map::new(), Map::new());
      for _ in 0..1 + r.us(4) {
        let k = name(r);
        if given.contains_key(&k) { continue }
        let c = tmpl(r, path.clone().push_field(&k), depth - 1);
        given.insert(k.clone(), c.given); plain.insert(k, c.plain);
        t.rules.extend(c.rules); t.gens.extend(c.gens);
      }
      t.given = Value::Object(given); t.plain = Value::Object(plain);
    },
    3 | 4 => { let v = scalar(r); t.given = v.clone(); t.plain = v; },
    5 | 6 => {
      let (attrs, value, rule) = matcher(r);
      t.given = with(json!({"value": value}), &attrs); t.plain = value;
      t.rules.insert(path.to_string(), vec![rule]);
      // both take a minimum and a maximum
      let typed = t.rules[&path.to_string()][0]["match"] == "type";
      if r.chance(1, 3) { let (mut attrs, mut gen) = generator(r); while typed && attrs["min"] == 1 { (attrs, gen) = generator(r); } t.given = with(t.given, &attrs); t.gens.insert(path.to_string(), gen); }
    },
    7 => {
      let (mut given, mut plain) = (vec![], vec![]);
      for i in 0..r.us(4) { let c = tmpl(r, path.clone().push_index(i), depth - 1); given.push(c.given); plain.push(c.plain); t.rules.extend(c.rules); t.gens.extend(c.gens); }
      t.given = Value::Array(given); t.plain = Value::Array(plain);
    },
    8 => {
      // each like: one example stands for all of them
      let c = tmpl(r, path.clone().push_star_index(), depth - 1);
      let (attrs, rule) = match r.us(4) {
        0 => (json!({"pact:matcher:type": "type"}), json!({"match": "type"})),
        1 => (json!({"pact:matcher:type": "type", "min": 1}), json!({"match": "type", "min": 1})),
        2 => (json!({"pact:matcher:type": "type", "max": 4}), json!({"match": "type", "max": 4})),
        _ => (json!({"pact:matcher:type": "type", "min": 1, "max": 4}), json!({"match": "type", "min": 1, "max": 4}))
      };
      t.given = with(json!({"value": [c.given]}), &attrs); t.plain = json!([c.plain]);
      t.rules.extend(c.rules); t.gens.extend(c.gens);
      t.rules.insert(path.to_string(), vec![rule]);
    },
    _ => {
      // the values of a map, whatever the keys
      let k = name(r);
      let c = tmpl(r, path.clone().push_star(), depth - 1);
      t.given = json!({"pact:matcher:type": "values", "value": { k.clone(): c.given }}); t.plain = json!({ k: c.plain });
      t.rules.extend(c.rules); t.gens.extend(c.gens);
      t.rules.insert(path.to_string(), vec![json!({"match": "values"})]);
    }
  }
  t
}

/// An XML element in its JSON form, as text, with its rules.
fn element(r: &mut Rng, path: &str, names: &mut Vec<&'static str>, depth: usize, rules: &mut Rules) -> (Value, String) {
  let name = names.pop().unwrap_or("z");
  let path = format!("{}.{}", path, name);
  let mut el = json!({"name": name, "children": [], "attributes": {}});
  let mut open = format!("<{}", name);
  let mut inner = String::new();
  if r.bool() {
    let v = r.pick_s(&["1", "two", "x y"]);
    el["attributes"]["id"] = if r.bool() {
      rules.insert(format!("{}['@id']", path), vec![json!({"match": "type"})]);
      json!({"pact:matcher:type": "type", "value": v})
    } else { json!(v) };
    open += &format!(" id='{}'", v);
  }
  if depth > 0 && r.chance(2, 3) && !names.is_empty() {
    for _ in 0..1 + r.us(2) {
      if names.is_empty() { break }
      let (c, text) = element(r, &path, names, depth - 1, rules);
      let mut c = c;
      let n = if r.chance(1, 4) { 2 + r.us(2) } else { 1 };
      if n > 1 { c["examples"] = json!(n); }
      el["children"].as_array_mut().unwrap().push(c);
      for _ in 0..n { inner += &text; }
    }
  } else if r.chance(2, 3) {
    let v = r.pick_s(&["text", "100", "a b"]);
    let mut c = json!({"content": v});
    if r.bool() { c["matcher"] = json!({"pact:matcher:type": "regex", "regex": "\\w+"}); rules.insert(format!("{}.#text", path), vec![json!({"match": "regex", "regex": "\\w+"})]); }
    el["children"] = json!([c]);
    inner = v;
  }
  let text = if inner.is_empty() { format!("{}/>", open) } else { format!("{}>{}</{}>", open, inner, name) };
  if r.chance(1, 3) {
    rules.insert(path, vec![json!({"match": "type"})]);
    el = json!({"pact:matcher:type": "type", "value": el});
  }
  (el, text)
}

#[derive(Clone, Debug)]
enum Step {
  Describe(String), Given(String), GivenParam(String, String, String), GivenParams(String, Value), TestName(String),
  Request(String, String, Option<Value>), Query(String, usize, Option<String>), QueryMany(String, Vec<String>), QueryRule(String, String, Value, Value),
  Header(bool, String, usize, String), HeaderRule(bool, String, String, Value, Value), SetHeader(bool, String, String), Status(u16),
  Json(bool, Option<String>, Tmpl), Xml(bool, bool, Value, String, Rules), Form(bool, Value, Vec<(String, String)>, Rules), Raw(bool, String, String), Binary(bool, Option<String>, Vec<u8>),
  Metadata(bool, String, String, Value), MetadataRule(bool, String, Value, Value, Value),
  Key(String), Pending(bool), Comment(String, String, Value), Note(String)
}
use Step::*;

fn part(request: bool) -> InteractionPart { if request { InteractionPart::Request } else { InteractionPart::Response } }
fn t(s: &str) -> Text { Text::of(s) }

fn apply(i: InteractionHandle, s: &Step) -> bool {
  match s {
    Describe(d) => pactffi_upon_receiving(i, t(d).ptr()),
    Given(n) => pactffi_given(i, t(n).ptr()),
    GivenParam(n, k, v) => pactffi_given_with_param(i, t(n).ptr(), t(k).ptr(), t(v).ptr()),
    GivenParams(n, v) => pactffi_given_with_params(i, t(n).ptr(), t(&v.to_string()).ptr()) == 0,
    TestName(n) => pactffi_interaction_test_name(i, t(n).ptr()) == 0,
    Request(m, p, None) => pactffi_with_request(i, t(m).ptr(), t(p).ptr()),
    Request(m, p, Some(attrs)) => pactffi_with_request(i, t(m).ptr(), t(&with(json!({"value": p}), attrs).to_string()).ptr()),
    Query(n, idx, v) => { let v = v.as_ref().map(|v| t(v)).unwrap_or(Text::null()); pactffi_with_query_parameter_v2(i, t(n).ptr(), *idx, v.ptr()) },
    QueryMany(n, vs) => pactffi_with_query_parameter_v2(i, t(n).ptr(), 0, t(&json!({"value": vs}).to_string()).ptr()),
    QueryRule(n, v, attrs, _) => pactffi_with_query_parameter_v2(i, t(n).ptr(), 0, t(&with(json!({"value": v}), attrs).to_string()).ptr()),
    Header(p, n, idx, v) => pactffi_with_header_v2(i, part(*p), t(n).ptr(), *idx, t(v).ptr()),
    HeaderRule(p, n, v, attrs, _) => pactffi_with_header_v2(i, part(*p), t(n).ptr(), 0, t(&with(json!({"value": v}), attrs).to_string()).ptr()),
    SetHeader(p, n, v) => pactffi_set_header(i, part(*p), t(n).ptr(), t(v).ptr()),
    Status(s) => pactffi_response_status(i, *s),
    Json(p, ct, b) => { let ct = ct.as_ref().map(|v| t(v)).unwrap_or(Text::null()); pactffi_with_body(i, part(*p), ct.ptr(), t(&b.given.to_string()).ptr()) },
    Xml(p, stated, v, _, _) => { let ct = if *stated { t("application/xml") } else { Text::null() }; pactffi_with_body(i, part(*p), ct.ptr(), t(&v.to_string()).ptr()) },
    Form(p, v, _, _) => pactffi_with_body(i, part(*p), t("application/x-www-form-urlencoded").ptr(), t(&v.to_string()).ptr()),
    Raw(p, ct, b) => pactffi_with_body(i, part(*p), t(ct).ptr(), t(b).ptr()),
    Binary(p, ct, b) => {
      let ct = ct.as_ref().map(|v| t(v)).unwrap_or(Text::null());
      let copy = b.clone();
      pactffi_with_binary_body(i, part(*p), ct.ptr(), copy.as_ptr(), copy.len())
    },
    Metadata(p, k, v, _) => pactffi_with_metadata(i, t(k).ptr(), t(v).ptr(), part(*p)),
    MetadataRule(p, k, v, attrs, _) => pactffi_with_metadata(i, t(k).ptr(), t(&with(json!({"value": v}), attrs).to_string()).ptr(), part(*p)),
    Key(k) => pactffi_set_key(i, t(k).ptr()),
    Pending(p) => pactffi_set_pending(i, *p),
    Comment(k, v, _) => pactffi_set_comment(i, t(k).ptr(), t(v).ptr()),
    Note(s) => pactffi_add_text_comment(i, t(s).ptr())
  }
}

/// What one side of an interaction should come out as.
#[derive(Clone, Debug, Default)]
struct Side {
  headers: BTreeMap<String, Vec<String>>, metadata: BTreeMap<String, Value>, body: Option<Body>,
  rules: BTreeMap<String, Rules>, gens: BTreeMap<String, Gens>
}
#[derive(Clone, Debug)]
enum Body { Doc(Value), Bytes(Vec<u8>), Form(Vec<(String, String)>) }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Http, Async, Sync }

#[derive(Clone, Debug)]
struct Want {
  kind: Kind, description: String, states: Vec<(String, BTreeMap<String, Value>)>, key: Option<String>, pending: bool, comments: BTreeMap<String, Value>,
  method: String, path: String, query: BTreeMap<String, Vec<Option<String>>>, status: u16, request: Side, responses: Vec<Side>
}

impl Want {
  fn new(kind: Kind, description: &str) -> Want {
    Want { kind, description: description.to_string(), states: vec![], key: None, pending: false, comments: BTreeMap::new(), method: "GET".into(), path: "/".into(),
      query: BTreeMap::new(), status: 200, request: Side::default(), responses: if kind == Kind::Http { vec![Side::default()] } else { vec![] } }
  }
  /// The side a call is about; a body for the response of a message adds a response.
  fn side(&mut self, request: bool, body: bool) -> &mut Side {
    if self.kind == Kind::Async || request { return &mut self.request }
    if self.kind == Kind::Sync && body { self.responses.push(Side::default()); }
    self.responses.last_mut().unwrap()
  }
  fn body(&mut self, request: bool, ct: &str, arg: bool, body: Body, rules: Rules, gens: Gens) {
    let http = self.kind == Kind::Http;
    let side = self.side(request, true);
    side.body = Some(body);
    if !rules.is_empty() { side.rules.entry("body".into()).or_default().extend(rules); }
    if !gens.is_empty() { side.gens.entry("body".into()).or_default().extend(gens); }
    let _ = arg;
    if http { side.headers.entry("content-type".into()).or_insert(vec![ct.to_string()]); }
    else { side.metadata.entry("contentType".into()).or_insert(json!(ct)); }
  }
  fn step(&mut self, s: &Step) {
    match s {
      Describe(d) => self.description = d.clone(),
      Given(n) => self.states.push((n.clone(), BTreeMap::new())),
      GivenParam(n, k, v) => {
        let v: Value = serde_json::from_str(v).unwrap_or(json!(v));
        match self.states.iter_mut().find(|s| &s.0 == n) {
          Some(s) => { s.1.insert(k.clone(), v); },
          None => self.states.push((n.clone(), BTreeMap::from([(k.clone(), v)])))
        }
      },
      GivenParams(n, v) => self.states.push((n.clone(), match v { Value::Object(m) => m.clone().into_iter().collect(), v => BTreeMap::from([("value".to_string(), v.clone())]) })),
      TestName(n) => { self.comments.insert("testname".into(), json!(n)); },
      Request(m, p, rule) => {
        self.method = m.to_uppercase(); self.path = p.clone();
        if rule.is_some() { self.request.rules.entry("path".into()).or_default().insert("".into(), vec![json!({"match": "regex", "regex": "^/\\w+.*"})]); }
      },
      Query(n, idx, v) => {
        let list = self.query.entry(n.clone()).or_default();
        while list.len() <= *idx { list.push(None); }
        list[*idx] = v.clone();
      },
      QueryMany(n, vs) => self.query.entry(n.clone()).or_default().extend(vs.iter().cloned().map(Some)),
      QueryRule(n, v, _, rule) => {
        self.query.insert(n.clone(), vec![Some(v.clone())]);
        self.request.rules.entry("query".into()).or_default().insert(key(n), vec![rule.clone()]);
      },
      Header(p, n, idx, v) => {
        let list = self.side(*p, false).headers.entry(n.to_lowercase()).or_default();
        let values: Vec<String> = v.split(',').map(|v| v.trim().to_string()).collect();
        if *idx > 0 { while list.len() <= *idx { list.push(String::new()); } list[*idx] = v.clone(); }
        else if values.len() == 1 && !list.is_empty() { list[0] = v.clone(); }
        else { *list = values; }
      },
      HeaderRule(p, n, v, _, rule) => {
        let side = self.side(*p, false);
        side.headers.insert(n.to_lowercase(), vec![v.clone()]);
        side.rules.entry("header".into()).or_default().insert(key(n), vec![rule.clone()]);
      },
      SetHeader(p, n, v) => { self.side(*p, false).headers.insert(n.to_lowercase(), vec![v.clone()]); },
      Status(s) => self.status = *s,
      Json(p, ct, b) => self.body(*p, ct.as_deref().unwrap_or("application/json"), ct.is_some(), Body::Doc(b.plain.clone()), b.rules.clone(), b.gens.clone()),
      Xml(p, _, _, text, rules) => self.body(*p, "application/xml", true, Body::Bytes(format!("<?xml version='1.0'?>{}", text).into_bytes()), rules.clone(), Gens::new()),
      Form(p, _, pairs, rules) => self.body(*p, "application/x-www-form-urlencoded", true, Body::Form(pairs.clone()), rules.clone(), Gens::new()),
      Raw(p, ct, b) => self.body(*p, ct, true, Body::Bytes(b.clone().into_bytes()), Rules::new(), Gens::new()),
      Binary(p, ct, b) => self.body(*p, ct.as_deref().unwrap_or("application/octet-stream"), true, Body::Bytes(b.clone()), Rules::new(), Gens::new()),
      Metadata(p, k, _, v) => for side in self.sides(*p) { side.metadata.insert(k.clone(), v.clone()); },
      MetadataRule(p, k, v, _, rule) => for side in self.sides(*p) {
        side.metadata.insert(k.clone(), v.clone());
        side.rules.entry("metadata".into()).or_default().insert(k.clone(), vec![rule.clone()]);
      },
      Key(k) => self.key = Some(k.clone()),
      Pending(p) => self.pending = *p,
      Comment(k, _, v) => { self.comments.insert(k.clone(), v.clone()); },
      Note(s) => match self.comments.entry("text".into()).or_insert(json!([])) { Value::Array(a) => a.push(json!(s)), other => *other = json!([s]) }
    }
  }
  fn sides(&mut self, request: bool) -> Vec<&mut Side> { if request || self.kind == Kind::Async { vec![&mut self.request] } else { self.responses.iter_mut().collect() } }
}

/// How the name of a header or query parameter stands in the rules.
fn key(n: &str) -> String { n.to_string() }

const WORDS: [&str; 8] = ["a", "some text", "é", "100", "x=y&z", "true", "{\"a\": 1}", "it's"];

fn steps(r: &mut Rng, kind: Kind) -> Vec<Step> {
  let mut out: Vec<Step> = vec![];
  if kind == Kind::Http {
    let (m, p) = (r.pick_s(&["GET", "post", "PUT", "Delete", "PATCH"]), r.pick_s(&["/", "/a", "/a/b c", "/users/100", "/é"]));
    if r.chance(4, 5) { out.push(Request(m, if r.chance(1, 3) { "/abc".into() } else { p }, None)); }
    if let Some(Request(_, p, rule)) = out.last_mut() { if p == "/abc" { *rule = Some(json!({"pact:matcher:type": "regex", "regex": "^/\\w+.*"})); } }
  }
  // each name or header is dealt with by one group of calls, whose order matters; the groups may come in any order
  let mut groups: Vec<Vec<Step>> = vec![];
  let mut states = vec![];
  for _ in 0..r.us(4) {
    let n = r.pick_s(&["a user exists", "b", "c"]);
    states.push(match r.us(3) {
      0 => Given(n),
      1 => GivenParam(n, r.pick_s(&["id", "name"]), r.pick_s(&["1", "\"x\"", "plain text", "{\"a\": [1, null]}", "null", "1.5", "01"])),
      _ => { let v = match r.us(3) { 0 => json!({"id": r.range(0, 9), "n": null}), 1 => json!([1, 2]), _ => json!("text") }; GivenParams(n, v) }
    });
  }
  groups.push(states);
  if r.chance(1, 3) { groups.push(vec![TestName(r.pick_s(&WORDS))]); }
  if r.chance(1, 4) { groups.push(vec![Key(r.pick_s(&["k1", "key two"]))]); }
  if r.chance(1, 4) { let b = r.bool(); groups.push(vec![Pending(!b), Pending(b)]); }
  if r.chance(1, 3) {
    let mut g = vec![];
    for _ in 0..1 + r.us(3) { g.push(if r.bool() { Note(r.pick_s(&WORDS)) } else { let (s, v) = r.pick(&[("1", json!(1)), ("{\"a\": true}", json!({"a": true})), ("words", json!("words"))]).clone(); Comment(r.pick_s(&["text", "other", "x y"]), s.into(), v) }); }
    groups.push(g);
  }
  let sides: Vec<bool> = if kind == Kind::Async { vec![true] } else { vec![true, false] };
  if kind == Kind::Http {
    if r.bool() { groups.push(vec![Status(r.range(100, 599) as u16)]); }
    for n in ["q", "id", "a b", "x[]", "name"] {
      if !r.chance(1, 4) { continue }
      groups.push(match r.us(4) {
        0 => {
          let mut idx: Vec<usize> = (0..1 + r.us(3)).collect();
          r.shuffle(&mut idx);
          idx.into_iter().map(|i| Query(n.into(), i, if r.chance(1, 6) { None } else { Some(r.pick_s(&["1", "a", "", "x y", "é", "a&b", "null", "[1]"])) })).collect()
        },
        1 => { let vs = (0..1 + r.us(3)).map(|_| r.pick_s(&["1", "two", "é"])).collect(); let mut g = vec![QueryMany(n.into(), vs)]; if r.chance(1, 4) { g.push(Query(n.into(), 0, Some("first".into()))); } g },
        2 => { let (attrs, rule) = (json!({"pact:matcher:type": "regex", "regex": "\\d+"}), json!({"match": "regex", "regex": "\\d+"})); vec![QueryRule(n.into(), "100".into(), attrs, rule)] },
        _ => vec![Query(n.into(), 0, Some("v".into()))]
      });
    }
    for p in &sides {
      for n in ["X-One", "x-two", "Accept", "X-List"] {
        if !r.chance(1, 4) { continue }
        let other = if r.bool() { n.to_uppercase() } else { n.to_lowercase() };
        groups.push(match r.us(5) {
          0 => { let mut idx: Vec<usize> = (0..1 + r.us(3)).collect(); r.shuffle(&mut idx); idx.into_iter().map(|i| Header(*p, if i == 1 { other.clone() } else { n.into() }, i, r.pick_s(&["1", "a b", "\"q\"", "*/*"]))).collect() },
          1 => vec![Header(*p, n.into(), 0, "a, b".into())],
          2 => vec![Header(*p, n.into(), 0, "old".into()), SetHeader(*p, other, "new, as it is".into())],
          3 => { let (attrs, rule) = (json!({"pact:matcher:type": "regex", "regex": "\\w+"}), json!({"match": "regex", "regex": "\\w+"})); vec![HeaderRule(*p, n.into(), "abc".into(), attrs, rule)] },
          _ => vec![Header(*p, n.into(), 0, "one".into()), Header(*p, other, 0, "two".into())]
        });
      }
    }
  }
  for p in &sides {
    let mut g = vec![];
    let mut declared = None;
    if kind == Kind::Http && r.chance(1, 3) {
      // the content type is given as a header before the body
      let (n, ct) = (r.pick_s(&["Content-Type", "content-type", "CONTENT-TYPE"]), r.pick_s(&["application/json", "application/hal+json", "application/json;charset=UTF-8"]));
      g.push(if r.bool() { SetHeader(*p, n, ct.clone()) } else { Header(*p, n, 0, ct.clone()) });
      declared = Some(ct);
    }
    let bodies = if kind == Kind::Sync && !*p { r.us(3) } else if r.chance(3, 4) { 1 } else { 0 };
    for _ in 0..bodies {
      if declared.is_some() { let t = tmpl(r, &DocPath::root(), 3); if t.given.is_string() || t.plain.is_null() || t.plain == "" { continue } g.push(Json(*p, None, t)); continue }
      let step = match r.us(10) {
        0 => { let (ct, b) = r.pick(&[("text/plain", "some text"), ("text/csv", "a,b\n1,2\n"), ("application/xml", "<a id='1'>b</a>"), ("text/plain", "{\"pact:matcher:type\": \"type\", \"value\": 1}"), ("application/x-www-form-urlencoded", "a=b&c=%20d")]).clone(); Raw(*p, ct.into(), b.into()) },
        1 | 2 => { let n = 1 + r.us(60); Binary(*p, if r.bool() { None } else { Some(r.pick_s(&["image/gif", "application/zip", "text/plain"])) }, (0..n).map(|_| r.us(256) as u8).collect()) },
        3 | 4 => {
          let mut rules = Rules::new();
          let mut names = vec!["e", "d", "c", "b", "a", "root"];
          let (el, text) = element(r, "$", &mut names, 2, &mut rules);
          // without a content type of its own, the body is of the type the metadata has
          let stated = kind == Kind::Http || (kind == Kind::Sync && !*p) || r.bool();
          if !stated { g.push(Metadata(*p, "contentType".into(), "application/xml".into(), json!("application/xml"))); }
          let el = Xml(*p, stated, json!({"version": "1.0", "charset": "UTF-8", "root": el}), text, rules);
          el
        },
        5 => {
          let (mut v, mut pairs, mut rules) = (Map::new(), vec![], Rules::new());
          for k in ["a", "b c", "d"] {
            match r.us(4) {
              0 => { v.insert(k.into(), json!("x y&z")); pairs.push((k.to_string(), "x y&z".to_string())); },
              1 => { v.insert(k.into(), json!(["1", 2])); pairs.push((k.to_string(), "1".to_string())); pairs.push((k.to_string(), "2".to_string())); },
              2 => { v.insert(k.into(), json!({"pact:matcher:type": "regex", "regex": "\\d+", "value": "100"})); pairs.push((k.to_string(), "100".to_string()));
                rules.insert(DocPath::root().join(k).to_string(), vec![json!({"match": "regex", "regex": "\\d+"})]); },
              _ => ()
            }
          }
          if v.is_empty() { v.insert("z".into(), json!("1")); pairs.push(("z".into(), "1".into())); }
          Form(*p, Value::Object(v), pairs, rules)
        },
        _ => { let mut t = tmpl(r, &DocPath::root(), 3); while t.plain.is_null() || t.plain == "" { t = tmpl(r, &DocPath::root(), 3); } let ct = if t.given.is_object() || t.given.is_array() { if r.bool() { None } else { Some(r.pick_s(&["application/json", "application/vnd.a+json"])) } } else { Some("application/json".to_string()) }; Json(*p, ct, t) }
      };
      g.push(step);
    }
    if kind != Kind::Http {
      for k in ["queue", "topic", "other"] {
        if !r.chance(1, 4) { continue }
        g.push(if r.chance(1, 3) { MetadataRule(*p, k.into(), json!("abc"), json!({"pact:matcher:type": "regex", "regex": "\\w+"}), json!({"match": "regex", "regex": "\\w+"})) }
          else { let (s, v) = r.pick(&[("text", json!("text")), ("1", json!(1)), ("[1, 2]", json!([1, 2])), ("{\"a\": null}", json!({"a": null})), ("é", json!("é"))]).clone(); Metadata(*p, k.into(), s.into(), v) });
      }
    }
    groups.push(g);
  }
  // the groups are shuffled into one another
  while groups.iter().any(|g| !g.is_empty()) {
    let k = r.us(groups.len());
    if !groups[k].is_empty() { out.push(groups[k].remove(0)); }
  }
  out
}

struct Plan { consumer: String, wants: Vec<(Want, Vec<Step>, bool, bool)> }

fn plan(r: &mut Rng, consumer: &str) -> Plan {
  let wants = (0..1 + r.us(3)).map(|n| {
    let kind = *r.pick(&[Kind::Http, Kind::Http, Kind::Async, Kind::Sync]);
    let mut s = steps(r, kind);
    let d = format!("interaction {}", n);
    if r.chance(1, 5) { let at = r.us(s.len() + 1); s.insert(at, Describe(format!("renamed {}", n))); }
    (Want::new(kind, &d), s, r.chance(1, 6), r.bool())
  }).collect();
  Plan { consumer: consumer.to_string(), wants }
}

fn start(p: PactHandle, kind: Kind, d: &str) -> InteractionHandle {
  match kind { Kind::Http => pactffi_new_interaction(p, t(d).ptr()), Kind::Async => pactffi_new_message_interaction(p, t(d).ptr()), Kind::Sync => pactffi_new_sync_message_interaction(p, t(d).ptr()) }
}

/// Makes the calls, the interactions mixed, and writes the file.
fn run(r: &mut Rng, plan: &Plan, dir: &Path, reader: bool) -> Result<(), Violation> {
  let p = pactffi_new_pact(t(&plan.consumer).ptr(), t("provider").ptr());
  ensure!(pactffi_with_specification(p, PactSpecification::V4), "call-refused", "the specification version could not be set");
  let mut handles = vec![];
  for (w, steps, twice, _) in &plan.wants {
    if *twice { let i = start(p, Kind::Http, &w.description); pactffi_given(i, t("a state of the one replaced").ptr()); for s in steps.iter().take(3) { if matches!(s, Request(..) | Header(..) | Key(..)) { apply(i, s); } } }
    handles.push(start(p, w.kind, &w.description));
  }
  let mut at = vec![0; plan.wants.len()];
  while (0..at.len()).any(|k| at[k] < plan.wants[k].1.len()) {
    let k = r.us(at.len());
    if let Some(s) = plan.wants[k].1.get(at[k]) {
      at[k] += 1;
      ensure!(apply(handles[k], s), "call-refused", "the call {:?} on a {:?} interaction was refused", s, plan.wants[k].0.kind);
      if reader && r.chance(1, 8) { let i = handles[k]; let s = pactffi_message_reify(unsafe { std::mem::transmute::<InteractionHandle, MessageHandle>(i) }); if !s.is_null() { unsafe { pactffi_string_delete(s as *mut libc::c_char) } } }
    }
  }
  ensure!(pactffi_with_pact_metadata(p, t("tool").ptr(), t("name").ptr(), t("monitor").ptr()), "call-refused", "pact metadata was refused");
  let d = Text::of(dir.to_str().unwrap());
  ensure!(pactffi_pact_handle_write_file(p, d.ptr(), true) == 0, "not-written", "the pact could not be written");
  if r.chance(1, 3) { ensure!(pactffi_pact_handle_write_file(p, d.ptr(), false) == 0, "not-written", "the pact could not be written over itself"); }
  ensure!(pactffi_free_pact_handle(p) == 0, "not-freed", "the pact could not be freed");
  Ok(())
}
extern "C" { fn pactffi_string_delete(p: *mut libc::c_char); }

fn lower(h: &Option<std::collections::HashMap<String, Vec<String>>>) -> Result<BTreeMap<String, Vec<String>>, Violation> {
  let mut out = BTreeMap::new();
  for (k, v) in h.iter().flatten() { ensure!(out.insert(k.to_lowercase(), v.clone()).is_none(), "header-twice", "there are two headers {} in {:?}", k, h); }
  Ok(out)
}

fn check_rules(what: &str, side: &Side, rules: &Value, gens: &Value, all: &str) -> Verdict {
  let mut want = json!({});
  for (cat, m) in &side.rules {
    if cat == "path" { want["path"] = json!({"combine": "AND", "matchers": m[""]}); continue }
    for (k, list) in m { want[cat][k] = json!({"combine": "AND", "matchers": list}); }
  }
  let mut have = rules.as_object().cloned().unwrap_or_default();
  have.retain(|_, v| v.as_object().map(|m| !m.is_empty()).unwrap_or(true));
  ensure!(Value::Object(have.clone()) == want, "rules", "{}: the rules written are {} but {} were set up in {}", what, Value::Object(have), want, all);
  let want = json!(side.gens);
  let have = if gens.is_null() { json!({}) } else { gens.clone() };
  ensure!(have == want, "generators", "{}: the generators written are {} but {} were set up in {}", what, have, want, all);
  Ok(())
}

fn check_body(what: &str, want: &Option<Body>, have: &OptionalBody, all: &str) -> Verdict {
  let bytes = have.value().map(|b| b.to_vec());
  match want {
    None => ensure!(bytes.is_none(), "body", "{}: there is a body {:?} but none was given in {}", what, have, all),
    Some(Body::Bytes(b)) => ensure!(bytes.as_ref() == Some(b), "body", "{}: the body is {:?}, given were {:?} in {}", what, have, b, all),
    Some(Body::Doc(v)) => {
      let got: Option<Value> = bytes.as_ref().and_then(|b| serde_json::from_slice(b).ok());
      ensure!(got.as_ref() == Some(v), "body", "{}: the body is {:?} but stands for {} in {}", what, have, v, all);
    },
    Some(Body::Form(pairs)) => {
      let mut got: Vec<(String, String)> = url_pairs(&String::from_utf8_lossy(&bytes.clone().unwrap_or_default()));
      let mut pairs = pairs.clone(); got.sort(); pairs.sort();
      ensure!(got == pairs, "body", "{}: the form is {:?}, given were {:?} in {}", what, got, pairs, all);
    }
  }
  Ok(())
}

fn url_pairs(s: &str) -> Vec<(String, String)> {
  let dec = |s: &str| { let b = s.as_bytes(); let mut out = vec![]; let mut i = 0; while i < b.len() { if b[i] == b'+' { out.push(b' '); i += 1; } else if b[i] == b'%' { out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(0)); i += 3; } else { out.push(b[i]); i += 1; } } String::from_utf8_lossy(&out).to_string() };
  s.split('&').filter(|p| !p.is_empty()).map(|p| { let (k, v) = p.split_once('=').unwrap_or((p, "")); (dec(k), dec(v)) }).collect()
}

fn check_http(want: &Want, q: &HttpRequest, s: &HttpResponse, raw: &Value, all: &str) -> Verdict {
  ensure!(q.method == want.method && q.path == want.path && s.status == want.status, "line", "{} {} -> {} was written, wanted {} {} -> {} in {}", q.method, q.path, s.status, want.method, want.path, want.status, all);
  let query: BTreeMap<_, _> = q.query.clone().unwrap_or_default().into_iter().collect();
  ensure!(query == want.query, "query", "the query written is {:?}, given was {:?} in {}", query, want.query, all);
  let (h, w) = (lower(&q.headers)?, &want.request.headers);
  ensure!(&h == w, "headers", "the request headers written are {:?}, given were {:?} in {}", h, w, all);
  let (h, w) = (lower(&s.headers)?, &want.responses[0].headers);
  ensure!(&h == w, "headers", "the response headers written are {:?}, given were {:?} in {}", h, w, all);
  check_body("request", &want.request.body, &q.body, all)?;
  check_body("response", &want.responses[0].body, &s.body, all)?;
  check_rules("request", &want.request, &raw["request"]["matchingRules"], &raw["request"]["generators"], all)?;
  check_rules("response", &want.responses[0], &raw["response"]["matchingRules"], &raw["response"]["generators"], all)
}

fn check_message(what: &str, want: &Side, m: &MessageContents, raw: &Value, all: &str) -> Verdict {
  let md: BTreeMap<_, _> = m.metadata.clone().into_iter().collect();
  ensure!(md == want.metadata, "metadata", "{}: the metadata written is {:?}, given was {:?} in {}", what, md, want.metadata, all);
  check_body(what, &want.body, &m.contents, all)?;
  check_rules(what, want, &raw["matchingRules"], &raw["generators"], all)
}

fn check(plan: &Plan, dir: &Path) -> Verdict {
  let file = dir.join(format!("{}-provider.json", plan.consumer));
  let text = std::fs::read_to_string(&file).unwrap_or_default();
  let raw: Value = match serde_json::from_str(&text) { Ok(v) => v, Err(e) => return violated("not-written", format!("the pact file is not JSON: {} {}", e, text)) };
  let pact = match pact_models::pact::read_pact(&file) { Ok(p) => p, Err(e) => return violated("not-read", format!("the pact file can not be read: {} {}", e, text)) };
  let _ = std::fs::remove_file(&file);
  ensure!(raw["consumer"]["name"] == plan.consumer.as_str() && raw["metadata"]["tool"]["name"] == "monitor", "names", "consumer and metadata of {}", text);
  let list = pact.interactions();
  ensure!(list.len() == plan.wants.len(), "interactions", "{} interactions were set up, {} are written: {}", plan.wants.len(), list.len(), text);
  for (w, steps, _, _) in &plan.wants {
    let mut want = w.clone();
    for s in steps { want.step(s); }
    let all = format!("{:?} of calls {:?}", text, steps);
    let k = match list.iter().position(|i| i.description() == want.description) { Some(k) => k, None => return violated("description", format!("no interaction {:?} in {}", want.description, all)) };
    let raw = match raw["interactions"].as_array().and_then(|l| l.iter().find(|i| i["description"] == want.description.as_str())) { Some(v) => v.clone(), None => json!(null) };
    let i = list[k].as_v4().unwrap();
    let states: Vec<(String, BTreeMap<String, Value>)> = i.provider_states().iter().map(|s| (s.name.clone(), s.params.clone().into_iter().collect())).collect();
    ensure!(states == want.states, "states", "the states written are {:?}, given were {:?} in {}", states, want.states, all);
    if let Some(key) = &want.key { ensure!(i.key().as_ref() == Some(key), "key", "the key is {:?}, given was {:?}", i.key(), key); }
    ensure!(i.pending() == want.pending, "pending", "pending is {}, given was {}", i.pending(), want.pending);
    let comments: BTreeMap<_, _> = i.comments().into_iter().collect();
    let mut wc = want.comments.clone();
    wc.retain(|_, v| *v != json!([]));
    ensure!(comments == wc, "comments", "the comments written are {:?}, given were {:?} in {}", comments, wc, all);
    match want.kind {
      Kind::Http => match i.as_v4_http() { Some(h) => check_http(&want, &h.request, &h.response, &raw, &all)?, None => return violated("kind", format!("not an HTTP interaction: {}", all)) },
      Kind::Async => match i.as_v4_async_message() { Some(m) => check_message("message", &want.request, &m.contents, &raw, &all)?, None => return violated("kind", format!("not a message: {}", all)) },
      Kind::Sync => match i.as_v4_sync_message() {
        Some(m) => {
          check_message("request", &want.request, &m.request, &raw["request"], &all)?;
          ensure!(m.response.len() == want.responses.len(), "responses", "{} responses written, {} given in {}", m.response.len(), want.responses.len(), all);
          for (n, (r, w)) in m.response.iter().zip(&want.responses).enumerate() { check_message("response", w, r, &raw["response"][n], &all)?; }
        },
        None => return violated("kind", format!("not a synchronous message: {}", all))
      }
    }
  }
  Ok(())
}

fn alone(cx: &mut Cx) -> Verdict {
  let p = plan(&mut cx.rng, "alone");
  for (w, s, twice, _) in &p.wants { cx.tick(match w.kind { Kind::Http => "http interactions", Kind::Async => "messages", Kind::Sync => "synchronous messages" }); cx.add("calls", s.len() as u64); if *twice { cx.tick("interactions replaced") } }
  let dir = cx.scratch.clone();
  run(&mut cx.rng, &p, &dir, true)?;
  check(&p, &dir)?;
  cx.saw(format!("{:?}", p.wants.iter().map(|w| &w.1).collect::<Vec<_>>()));
  Ok(())
}

fn together(cx: &mut Cx) -> Verdict {
  let n = 2 + cx.rng.us(3);
  let plans: Vec<(Plan, u64)> = (0..n).map(|k| (plan(&mut cx.rng, &format!("thread{}", k)), cx.rng.next())).collect();
  let dir = cx.scratch.clone();
  let barrier = std::sync::Barrier::new(n);
  let results: Vec<Result<(), Violation>> = std::thread::scope(|s| {
    let hs: Vec<_> = plans.iter().map(|(p, seed)| { let (dir, barrier) = (&dir, &barrier); s.spawn(move || { let mut r = Rng::new(*seed); barrier.wait(); run(&mut r, p, dir, true) }) }).collect();
    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| violated("panic", "a thread panicked".to_string()))).collect()
  });
  for r in results { r?; }
  for (p, _) in &plans { check(p, &dir)?; cx.add("pacts built while others were", 1); }
  cx.saw((cx.case, n));
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P51", level: "exploration",
    rule: "A case is a random sequence of calls for one to three interactions of one pact, the calls for them mixed, or for two to four pacts in as many threads; the file written is read back and compared with what the calls said",
    assumptions: vec!["files are read back with the library's own reader, whose fidelity the round trip properties check; rules and generators are compared as they stand in the file"],
    phases: vec![phase("alone", 4000, alone), phase("together", 400, together)],
    floors: vec![("http interactions", 1500), ("messages", 700), ("synchronous messages", 700), ("calls", 20000), ("interactions replaced", 200), ("pacts built while others were", 500)],
    probes: vec![]
  }
}
