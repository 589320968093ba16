//! What rules say about themselves, and histories of changes to lists, categories and collections of rules (P22).
use std::collections::{BTreeMap, BTreeSet};
use moncore::*;
use moncore::pred::{json_diff, short};
use pact_models::generators::Generator;
use pact_models::http_parts::HttpPart;
use pact_models::matchingrules::*;
use pact_models::path_exp::DocPath;
use pact_models::HttpStatus;
use crate::gen;
use crate::rules::h;

/// the length limits a rule states
fn limits(j: &Value) -> (Option<u64>, Option<u64>) { (j.get("min").and_then(|v| v.as_u64()), j.get("max").and_then(|v| v.as_u64())) }

/// parts of the description that matter: what is stated must appear, and what is not stated must not
fn describes(j: &Value, d: &str, collection: bool) -> Result<(), String> {
  let m = j["match"].as_str().unwrap();
  let need = |p: &str| if d.contains(p) { Ok(()) } else { Err(format!("'{}' does not state '{}'", d, p)) };
  match m {
    "regex" => need(j["regex"].as_str().unwrap())?,
    "datetime" | "date" | "time" => need(&format!("'{}'", j["format"].as_str().unwrap()))?,
    "include" | "contentType" => need(&format!("'{}'", j["value"].as_str().unwrap()))?,
    "type" => {
      need("type")?;
      let l = limits(j);
      let mut want: Vec<String> = [l.0, l.1].into_iter().flatten().map(|n| n.to_string()).collect();
      if !collection { want.clear() }
      let got: Vec<String> = d.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
      if got != want { return Err(format!("'{}' states the limits {:?}, they are {:?}", d, got, want)) }
      if collection { match l { (Some(_), None) => need("at least")?, (None, Some(_)) => need("at most")?, _ => () } }
      if collection && l != (None, None) && d.ends_with("item") != (l == (Some(1), None) || l == (None, Some(1))) { return Err(format!("'{}'", d)) }
    }
    "statusCode" => if let Some(a) = j["status"].as_array() { let s: Vec<String> = a.iter().map(|c| c.to_string()).collect(); need(&s.join(", "))? } else {
      need(match j["status"].as_str().unwrap() { "info" => "10x", "success" => "20x", "redirect" => "30x", "clientError" => "(40x)", "serverError" => "(50x)", "nonError" => "not be an Error (40x/50x)", _ => "be an Error (40x/50x)" })?;
      if j["status"] == json!("error") && d.contains("not") { return Err(d.to_string()) }
    },
    "equality" => need("equal")?, "null" => need("null")?, "boolean" => need("boolean")?, "integer" => need("integer")?, "semver" => need("semver")?,
    "number" => { need("number")?; if d.contains("decimal") { return Err(d.into()) } }
    "decimal" => { need("number")?; need("decimal")? }
    "notEmpty" => need("not be empty")?, "values" => need("values")?, "eachKey" => need("each key")?, "eachValue" => need("each value")?, "arrayContains" => need("at least one")?,
    _ => ()
  }
  if d.trim().is_empty() { return Err("nothing".into()) }
  Ok(())
}

fn facts(j: &Value, m: &MatchingRule) -> Verdict {
  let kind = j["match"].as_str().unwrap();
  let l = limits(j);
  let (is_type, is_len) = (kind == "type", kind == "type" && l != (None, None));
  let values = kind == "values" || kind == "eachValue";
  ensure!(m.is_type_matcher() == is_type && m.is_length_type_matcher() == is_len && m.is_values_matcher() == values, "rule-kind", "{} says it is a type rule: {}, with limits: {}, about values: {}", j, m.is_type_matcher(), m.is_length_type_matcher(), m.is_values_matcher());
  ensure!(m.can_cascade() == !(values || kind == "eachKey"), "rule-cascades", "{} hands down: {}", j, m.can_cascade());
  let single = m.for_single_item();
  let want = if is_len { json!({"match": "type"}) } else { j.clone() };
  ensure!(json_diff("", &want, &single.to_json()).is_none(), "single-item", "{} for a single item is {}", j, single.to_json());
  for c in [true, false] {
    let d = m.generate_description(c);
    if let Err(e) = describes(j, &d, c) { return violated("rule-described-wrongly", format!("{} (for a collection: {}) is described as '{}': {}", j, c, d, e)) }
  }
  let gens = kind == "arrayContains" && j["variants"].as_array().unwrap().iter().any(|v| v.get("generators").map(|g| !g.as_object().unwrap().is_empty()).unwrap_or(false));
  ensure!(m.has_generators() == gens, "rule-generators", "{} has generators: {}", j, m.has_generators());
  let g = m.generators();
  if kind == "arrayContains" {
    let MatchingRule::ArrayContains(v) = m else { return violated("rule-kind", format!("{} is {:?}", j, m)) };
    ensure!(g == vec![Generator::ArrayContains(v.clone())], "rule-generators", "{} gives {:?}", j, g);
    for (v, w) in v.iter().zip(j["variants"].as_array().unwrap()) {
      ensure!(json!(v.0) == w["index"] && json_diff("", &v.1.to_v3_json(), &w["rules"]).is_none(), "variant", "{} read as {:?}", w, v);
      let n = w.get("generators").map(|g| g.as_object().unwrap().len()).unwrap_or(0);
      ensure!(v.2.len() == n && v.2.iter().all(|(p, g)| w["generators"].get(p.to_string()) == g.to_json().as_ref()), "variant", "{} read as {:?}", w, v);
    }
  } else { ensure!(g.is_empty(), "rule-generators", "{} gives {:?}", j, g); }
  Ok(())
}

fn rule_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let j = if r.chance(1, 4) { let (a, b) = (r.range(0, 3), r.range(0, 30)); match r.below(3) { 0 => json!({"match": "type", "min": a}), 1 => json!({"match": "type", "max": a}), _ => json!({"match": "type", "min": a, "max": b}) } } else { gen::rule_v34(r, 2) };
  let m = match MatchingRule::from_json(&j) { Ok(m) => m, Err(e) => return violated("refused", format!("{}: {}", j, e)) };
  facts(&j, &m)?;
  cx.tick(match j["match"].as_str().unwrap() { "type" => "type rules", "arrayContains" => "contained variants", "eachKey" | "eachValue" | "values" => "key and value rules", "statusCode" => "status rules", _ => "other rules" });
  cx.saw(j.to_string());
  Ok(())
}

/// What is no status must be refused
fn status_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let names = ["info", "success", "redirect", "clientError", "serverError", "nonError", "error"];
  let mut ok = true;
  let mut want = Value::Null;
  let j = match r.below(4) {
    0 => { want = json!(r.pick_s(&names)); want.clone() }
    1 => { ok = false; match r.below(4) { 0 => json!(gen::number(r)), 1 => json!({}), 2 => Value::Null, _ => { let s = match r.below(3) { 0 => r.pick_s(&names).to_uppercase(), 1 => r.pick_s(&["2xx", "200", "", "Success", " success", "client-error", "informational"]), _ => gen::text(r) }; if names.contains(&s.as_str()) { return Ok(()) } json!(s) } } }
    _ => {
      let n = r.range(0, 4);
      let mut codes = vec![];
      let a: Vec<Value> = (0..n).map(|_| {
        let c = match r.below(5) { 0 => 0, 1 => 65535, _ => r.range(100, 599) as u64 };
        codes.push(c);
        if r.chance(1, 5) { ok = false; match r.below(7) { 0 => json!(65536 + c), 1 => json!(-(c as i64) - 1), 2 => json!(c as f64 + 0.5), 3 => json!(format!("{}x", c)), 4 => json!(format!("{}", 65536 + c)), 5 => Value::Null, _ => json!([c]) } }
        else if r.chance(1, 4) { json!(c.to_string()) } else { json!(c) }
      }).collect();
      want = json!(codes);
      json!(a)
    }
  };
  let got = match no_panic(|| HttpStatus::from_json(&j)) { Ok(g) => g, Err(e) => return violated("status-panics", format!("{}: {}", j, e)) };
  match got {
    Ok(s) => {
      ensure!(ok, "status-accepted", "{} is accepted as {:?}", j, s);
      ensure!(s.to_json() == want, "status-misread", "{} is read as {}", j, s.to_json());
      ensure!(HttpStatus::from_json(&s.to_json()).ok().as_ref() == Some(&s), "status-misread", "{:?} is not read back", s);
      let d = s.to_string();
      let says = match &want { Value::Array(a) => a.iter().map(|c| c.to_string()).collect(), w => match w.as_str().unwrap() { "info" => vec!["100".to_string(), "199".into()], "success" => vec!["200".into(), "299".into()], "redirect" => vec!["300".into(), "399".into()], "clientError" => vec!["400".into(), "499".into()], "serverError" => vec!["500".into(), "599".into()], "nonError" => vec!["< 400".into()], _ => vec![">= 400".into()] } };
      ensure!(says.iter().all(|s| d.contains(s)), "status-displayed", "{} is displayed as {}", want, d);
      let rule = MatchingRule::from_json(&json!({"match": "statusCode", "status": j}));
      ensure!(matches!(&rule, Ok(MatchingRule::StatusCode(t)) if *t == s), "status-rule", "{:?}", rule.map_err(|e| e.to_string()));
      cx.tick("statuses read");
    }
    Err(e) => {
      ensure!(!ok, "status-refused", "{} is refused: {}", j, e);
      ensure!(MatchingRule::from_json(&json!({"match": "statusCode", "status": j})).is_err(), "status-rule", "a rule with status {} is accepted", j);
      cx.tick("statuses refused");
    }
  }
  cx.saw(j.to_string());
  Ok(())
}

fn wires(l: &RuleList) -> Vec<Value> { l.rules.iter().map(|m| m.to_json()).collect() }

/// A list of rules through a history of changes
fn list_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let pool: Vec<Value> = (0..4).map(|_| gen::rule_v34(r, 1)).collect();
  let rule = |j: &Value| MatchingRule::from_json(j).unwrap();
  let logic = *r.pick(&[RuleLogic::And, RuleLogic::Or]);
  let (mut l, mut want, mut lg): (RuleList, Vec<Value>, RuleLogic) = match r.below(4) {
    0 => { let j = r.pick(&pool).clone(); (RuleList::new(rule(&j)), vec![j], RuleLogic::And) }
    1 => (RuleList::equality(), vec![json!({"match": "equality"})], RuleLogic::And),
    2 => (RuleList::default(), vec![], RuleLogic::And),
    _ => (RuleList::empty(logic), vec![], logic)
  };
  let mut cascaded = false;
  let mut trace = vec![];
  for _ in 0..r.range(1, 7) {
    let other: Vec<Value> = (0..r.below(3)).map(|_| r.pick(&pool).clone()).collect();
    let ol = { let mut o = RuleList::empty(*r.pick(&[RuleLogic::And, RuleLogic::Or])); for j in &other { o.add_rule(&rule(j)); } o };
    let step = r.below(7);
    trace.push(format!("{} {:?}", ["add", "add all", "and", "no duplicates", "filter", "cascade", "replace logic"][step as usize], other));
    match step {
      0 => { let j = r.pick(&pool); l.add_rule(&rule(j)); want.push(j.clone()); }
      1 => { l.add_rules(&ol); want.extend(other.clone()); }
      2 => { let before = wires(&l); let n = l.and_rules(&ol); ensure!(wires(&l) == before && wires(&ol) == other, "operand-changed", "{:?}", trace); l = n; want.extend(other.clone()); }
      3 => { l = l.remove_duplicates(); let mut seen = BTreeSet::new(); want.retain(|j| seen.insert(j.to_string())); cx.tick("duplicates removed") }
      4 => { let k = r.pick(&["type", "regex", "arrayContains", "eachValue"]); let keep = |m: &&MatchingRule| m.to_json()["match"] != json!(k); l = l.filter(keep); want.retain(|j| j["match"] != json!(k)); }
      5 => { cascaded = r.bool(); l = l.as_cascaded(cascaded); }
      _ => { lg = *r.pick(&[RuleLogic::And, RuleLogic::Or]); l.rule_logic = lg; }
    }
    ensure!(wires(&l) == want && l.rule_logic == lg && l.cascaded == cascaded, "list-differs", "after {:?} the list is {:?} ({:?}), should be {:?} ({:?})", trace, wires(&l), l.rule_logic, want, lg);
    let kind = |k: &[&str]| want.iter().any(|j| k.contains(&j["match"].as_str().unwrap()));
    ensure!(l.is_empty() == want.is_empty(), "list-says", "is_empty of {:?}", want);
    ensure!(l.type_matcher_defined() == kind(&["type"]), "list-says", "type rules in {:?}: {}", want, l.type_matcher_defined());
    ensure!(l.values_matcher_defined() == kind(&["values", "eachValue"]), "list-says", "value rules in {:?}: {}", want, l.values_matcher_defined());
    ensure!(l.has_non_type_matchers() == want.iter().any(|j| j["match"] != json!("type")), "list-says", "other rules in {:?}: {}", want, l.has_non_type_matchers());
    for c in [false, true] {
      let d = l.generate_description(c);
      let each: Vec<String> = l.rules.iter().map(|m| m.generate_description(c)).collect();
      ensure!(if each.is_empty() { d == "no-op" } else { d == each.join(", ") }, "list-described-wrongly", "{:?} is described as '{}'", want, d);
    }
    // equality
    let mut again = RuleList::empty(lg);
    for j in &want { again.add_rule(&rule(j)); }
    ensure!(again == l && h(&again) == h(&l), "list-equality", "{:?}", want);
    let mut diff = again.clone();
    let how = r.below(3);
    match how { 0 => diff.add_rule(&rule(&pool[0])), 1 if !want.is_empty() => { diff.rules.pop(); } _ => diff.rule_logic = if lg == RuleLogic::And { RuleLogic::Or } else { RuleLogic::And } }
    ensure!(diff != l && l != diff, "list-equality", "{:?} and {:?} are equal", diff, l);
    cx.tick("lists compared");
  }
  cx.saw(format!("{:?}", want));
  Ok(())
}

/// the collection of rules as it should be: category -> path -> (logic, rules)
type Model = BTreeMap<String, BTreeMap<String, (RuleLogic, Vec<Value>)>>;

fn model_of(m: &MatchingRules) -> Model {
  m.rules.iter().filter(|(_, c)| !c.rules.is_empty()).map(|(k, c)| (k.to_string(), cat_of(c))).collect()
}
fn cat_of(c: &MatchingRuleCategory) -> BTreeMap<String, (RuleLogic, Vec<Value>)> { c.rules.iter().map(|(p, l)| (p.to_string(), (l.rule_logic, wires(l)))).collect() }
const CATS: [&str; 8] = ["method", "path", "header", "query", "body", "status", "contents", "metadata"];

fn rules_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let pool: Vec<Value> = (0..4).map(|_| gen::rule_v34(r, 1)).collect();
  let paths = ["$.a", "$.b", "$.a.b", "$['x y']", "$.a[*]", "$.a[0]", "$", "$.*"];
  let rule = |j: &Value| MatchingRule::from_json(j).unwrap();
  let mut m = MatchingRules::default();
  let mut want: Model = Model::new();
  let mut trace: Vec<String> = vec![];
  macro_rules! fail { ($sig:expr, $($x:tt)*) => { return violated($sig, format!("{} after {:?}", format!($($x)*), trace)) } }
  fn put(want: &mut Model, c: &str, p: &str, logic: RuleLogic, js: &[Value]) { let e = want.entry(c.to_string()).or_default().entry(p.to_string()).or_insert_with(|| (logic, vec![])); e.1.extend(js.iter().cloned()); }
  fn some(r: &mut Rng, pool: &[Value], paths: &[&str]) -> (MatchingRules, Model) {
    let (mut m, mut w) = (MatchingRules::default(), Model::new());
    for _ in 0..r.range(0, 3) { let (c, p, j, l) = (*r.pick(&CATS), *r.pick(paths), r.pick(pool).clone(), *r.pick(&[RuleLogic::And, RuleLogic::Or])); m.add_category(c).add_rule(DocPath::new(p).unwrap(), MatchingRule::from_json(&j).unwrap(), l); put(&mut w, c, p, l, &[j]); }
    (m, w)
  }
  for _ in 0..r.range(1, 8) {
    let (c, p, j, l) = (*r.pick(&CATS), *r.pick(&paths), r.pick(&pool).clone(), *r.pick(&[RuleLogic::And, RuleLogic::Or]));
    let dp = DocPath::new(p).unwrap();
    match r.below(8) {
      0 | 1 => { m.add_category(c).add_rule(dp, rule(&j), l); put(&mut want, c, p, l, &[j.clone()]); trace.push(format!("rule {} {} {:?} {}", c, p, l, j)); }
      2 => { if let Err(e) = m.add_category(c).rule_from_json(dp, &j, l) { fail!("rule-refused", "{}: {}", j, e) } put(&mut want, c, p, l, &[j.clone()]); trace.push(format!("read {} {} {:?} {}", c, p, l, j)); }
      3 => { let before = m.clone(); let bad = json!({"match": r.pick_s(&["nothing", "regex", "Type", "include"])}); let e = m.add_category(c).rule_from_json(dp, &bad, l); if e.is_ok() { fail!("bad-rule-accepted", "{}", bad) } if m != before { fail!("refused-rule-changes", "{:?} became {:?} by {}", before, m, bad) } trace.push(format!("refused {}", c)); cx.tick("rules refused") }
      4 => { let (o, w) = some(r, &pool, &paths); m.merge(&o); for (c, ps) in &w { for (p, (l, js)) in ps { put(&mut want, c, p, *l, js); } } trace.push(format!("merge {:?}", w)); if model_of(&o) != w { fail!("merged-changed", "{:?}", o) } cx.tick("collections merged") }
      5 => { let (o, w) = some(r, &pool, &paths); let from = *r.pick(&CATS); let cat = o.rules_for_category(from).unwrap_or_default(); m.add_rules(c, cat); if let Some(ps) = w.get(from) { for (p, (l, js)) in ps { put(&mut want, c, p, *l, js); } } trace.push(format!("all {} of {:?} to {}", from, w, c)); }
      6 => {
        let to = *r.pick(&CATS);
        let n = m.rename(c, to);
        trace.push(format!("rename {} to {}", c, to));
        if let Some(x) = want.remove(c) { for (p, (l, js)) in x { put(&mut want, to, &p, l, &js); } cx.tick("categories renamed") }
        m = n;
        if let Some(x) = m.rules.get(&Category::from(to)) { if x.name != Category::from(to) { fail!("category-name", "{:?}", x) } }
      }
      _ => {
        let keep = r.bool();
        trace.push(format!("filter {} {}", c, keep));
        if let Some(cat) = m.rules_for_category(c) {
          let f = cat.filter(|(_, l)| (l.rule_logic == RuleLogic::And) == keep);
          let w: BTreeMap<String, (RuleLogic, Vec<Value>)> = want.get(c).cloned().unwrap_or_default().into_iter().filter(|(_, x)| (x.0 == RuleLogic::And) == keep).collect();
          if cat_of(&f) != w || f.name != Category::from(c) { fail!("filtered", "{:?} rather than {:?}", f, w) }
          let back = m.add_category(c);
          back.rules = f.rules;
          if w.is_empty() { want.remove(c); } else { want.insert(c.into(), w); }
        }
      }
    }
    let got = model_of(&m);
    if got != want { fail!("rules-differ", "{:?}, should be {:?}", got, want) }
    if m.is_empty() != want.is_empty() || m.is_not_empty() == want.is_empty() { fail!("is-empty", "{:?}: {} {}", want, m.is_empty(), m.is_not_empty()) }
    for c in CATS {
      let rc = m.rules_for_category(c).unwrap_or_else(|| MatchingRuleCategory::empty(c));
      let w = want.get(c).cloned().unwrap_or_default();
      if rc.name != Category::from(c) || rc.to_string_name() != c { fail!("category-name", "{} is {:?}", c, rc.name) }
      if rc.is_empty() != w.is_empty() || rc.is_not_empty() == w.is_empty() { fail!("is-empty", "{} {:?}", c, w) }
      let any = |k: &[&str]| w.values().any(|(_, js)| js.iter().any(|j| k.contains(&j["match"].as_str().unwrap())));
      if rc.type_matcher_defined() != any(&["type"]) || rc.values_matcher_defined() != any(&["values", "eachValue"]) { fail!("category-says", "{} {:?}: type {}, values {}", c, w, rc.type_matcher_defined(), rc.values_matcher_defined()) }
      // the rules of one path
      let own = ["a", "b", "x y"];
      let q = *r.pick(&own);
      let path = ["$", q];
      let holds = |p: &str| match c { "method" | "path" | "status" => true, _ => match p { "$" => true, "$.*" => true, "$.a" => q == "a", "$.b" => q == "b", "$['x y']" => q == "x y", _ => false } };
      let hit: BTreeMap<String, (RuleLogic, Vec<Value>)> = w.iter().filter(|(p, _)| holds(p)).map(|(p, x)| (p.clone(), x.clone())).collect();
      let res = rc.resolve_matchers_for_path(&path);
      if cat_of(&res) != hit { fail!("resolved", "{} at {:?}: {:?}, should be {:?}", c, path, cat_of(&res), hit) }
      let pv = path.to_vec();
      let typed = hit.values().any(|(_, js)| js.iter().any(|j| j["match"] == json!("type")));
      if m.matcher_is_defined(c, &pv) != !hit.is_empty() || m.type_matcher_defined(c, &pv) != typed { fail!("defined", "{} at {:?} in {:?}: {} {}", c, path, w, m.matcher_is_defined(c, &pv), m.type_matcher_defined(c, &pv)) }
      if w.len() == 1 {
        let l = rc.as_rule_list();
        let (lg, js) = w.values().next().unwrap();
        if l.rule_logic != *lg || wires(&l) != *js { fail!("as-list", "{:?} is {:?}", w, l) }
      } else if w.is_empty() && !rc.as_rule_list().is_empty() { fail!("as-list", "{:?}", rc.as_rule_list()) }
      // generators of contained variants
      let gens = rc.generators();
      let has = |j: &Value| j["match"] == json!("arrayContains") && j["variants"].as_array().unwrap().iter().any(|v| v.get("generators").is_some());
      let places: BTreeSet<String> = w.iter().filter(|(_, x)| x.1.iter().any(has)).map(|(p, _)| p.clone()).collect();
      if gens.keys().map(|p| p.to_string()).collect::<BTreeSet<_>>() != places { fail!("category-generators", "{} {:?}: {:?}", c, w, gens) }
      if !places.is_empty() { cx.tick("categories with generators") }
    }
    let cats: BTreeSet<String> = m.categories().iter().map(|c| c.to_string()).collect();
    if !want.keys().all(|k| cats.contains(k)) { fail!("categories", "{:?} not {:?}", cats, want.keys()) }
    let d = m.to_string();
    for (c, ps) in &want { for p in ps.keys() { if !d.contains(&format!("{}:", c)) || !d.contains(&format!("{} =>", p)) { fail!("display", "{}", d) } } }
    // the same rules put together in another order
    let mut order: Vec<(&String, &String, &(RuleLogic, Vec<Value>))> = want.iter().flat_map(|(c, ps)| ps.iter().map(move |(p, x)| (c, p, x))).collect();
    r.shuffle(&mut order);
    let mut o = MatchingRules::default();
    if r.bool() { o.add_category(*r.pick(&CATS)); }
    for (c, p, (l, js)) in order { for j in js { o.add_category(c.as_str()).add_rule(DocPath::new(p.as_str()).unwrap(), rule(j), *l); } }
    if o != m || m != o || h(&o) != h(&m) { fail!("equality", "{:?} and {:?}", o, m) }
    for (c, x) in &m.rules { if let Some(y) = o.rules.get(c) { if !(x == y) || !(y == x) || x != y || y != x || h(x) != h(y) { fail!("category-equality", "{:?} and {:?}", x, y) } } }
    o.add_category(c).add_rule(DocPath::new(p).unwrap(), rule(&j), l);
    { let (x, y) = (&o.rules[&pact_models::matchingrules::Category::from(c)], m.rules.get(&pact_models::matchingrules::Category::from(c)));
      if y.map(|y| x == y || y == x || !(x != y)).unwrap_or(false) { fail!("category-equality", "{:?} and {:?} are equal", x, y) } }
    if o == m || m == o { fail!("equality", "{:?} and {:?} are equal", o, m) }
    cx.tick("collections compared");
  }
  // the rules of a part
  let mut req = pact_models::v4::http_parts::HttpRequest { matching_rules: m.clone(), .. Default::default() };
  ensure!(req.matching_rules() == &m && req.matching_rules_mut() == &m, "part-rules", "{:?}", req.matching_rules());
  cx.saw(format!("{:?}", want.keys().collect::<Vec<_>>()) + &short(&json!(trace.len())));
  Ok(())
}

trait Named { fn to_string_name(&self) -> String; }
impl Named for MatchingRuleCategory { fn to_string_name(&self) -> String { let s: String = self.name.clone().into(); let t: &str = self.name.clone().into(); if s == t { s } else { format!("{}/{}", s, t) } } }

/// Names of categories
fn category_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let c = *r.pick(&CATS);
  let spelled: String = c.chars().map(|x| if r.chance(1, 4) { x.to_ascii_uppercase() } else { x }).collect::<String>() + if c == "header" && r.bool() { "s" } else { "" };
  let got: Result<Category, _> = spelled.parse();
  ensure!(got.as_ref().ok() == Some(&Category::from(c)) && got.as_ref().unwrap().to_string() == c, "category-name", "'{}' is {:?}", spelled, got);
  ensure!(Category::from(spelled.as_str()) == Category::from(c) && Category::from(spelled.clone()) == Category::from(c), "category-name", "{}", spelled);
  for d in CATS { ensure!((Category::from(d) == Category::from(c)) == (c == d), "category-name", "{} {}", c, d); }
  let junk = match r.below(3) { 0 => format!("{}x", c), 1 => gen::text(r), _ => c[1..].to_string() };
  if !CATS.contains(&junk.to_lowercase().as_str()) && junk.to_lowercase() != "headers" { ensure!(junk.parse::<Category>().is_err(), "category-junk", "'{}' is {:?}", junk, junk.parse::<Category>()); cx.tick("names refused") }
  cx.saw(spelled);
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P22", level: "exploration",
    rule: "what rules, lists and categories report about themselves against the facts of the document they were read from; histories of changes against a plain map of what was put in",
    assumptions: vec!["descriptions are judged on stating the rule's parameters and kind, not on their wording"],
    phases: vec![phase("rules", 60_000, rule_case), phase("statuses", 20_000, status_case), phase("lists", 30_000, list_case), phase("collections", 30_000, rules_case), phase("categories", 4_000, category_case)],
    floors: vec![("type rules", 1_000), ("contained variants", 300), ("key and value rules", 300), ("status rules", 100), ("statuses read", 500), ("statuses refused", 300), ("duplicates removed", 300), ("lists compared", 3_000), ("collections merged", 500), ("categories renamed", 50), ("rules refused", 200), ("categories with generators", 50), ("collections compared", 3_000), ("names refused", 500)],
    probes: vec![]
  }
}
