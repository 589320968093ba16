//! Matching rules and generators: JSON forms, attributes, equality; selection of rules by path.
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use moncore::*;
use moncore::pred::{json_diff, short};
use pact_models::generators::{Generator, GeneratorCategory, Generators};
use pact_models::matchingrules::*;
use pact_models::path_exp::DocPath;
use pact_models::PactSpecification;
use crate::gen;
use crate::paths::{self, Tok};

pub fn h<T: Hash + ?Sized>(t: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn obj(m: HashMap<&'static str, Value>) -> Value { Value::Object(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }

fn rule(j: &Value) -> Result<MatchingRule, Violation> {
  MatchingRule::from_json(j).map_err(|e| Violation { sig: "rule-refused".into(), detail: format!("{}: {}", j, e) })
}

/// Other spellings with the same meaning
fn alias(r: &mut Rng, j: &Value) -> Option<Value> {
  let mut o = j.clone();
  let m = j["match"].as_str().unwrap().to_string();
  match (m.as_str(), j.get("min"), j.get("max"), r.below(3)) {
    (_, _, _, 0) => { let x = o.as_object_mut().unwrap().remove("match").unwrap(); o["pact:matcher:type"] = x; }
    ("type", Some(_), None, 1) => o["match"] = json!("min-type"),
    ("type", None, Some(_), 1) => o["match"] = json!("max-type"),
    ("type", Some(_), Some(_), _) => o["match"] = json!("min-max-type"),
    ("type", Some(v), None, _) => o = json!({"match": "min", "min": v}),
    ("type", None, Some(v), _) => o = json!({"max": v}),
    ("regex", _, _, _) => { o.as_object_mut().unwrap().remove("match"); }
    ("datetime", _, _, 1) => o = json!({"match": "timestamp", "timestamp": j["format"]}),
    ("datetime", _, _, _) => o = json!({"timestamp": j["format"]}),
    ("date", _, _, _) => o = json!({"match": "date", "date": j["format"]}),
    ("time", _, _, _) => o = json!({"time": j["format"]}),
    ("decimal", _, _, _) => o["match"] = json!("real"),
    ("contentType", _, _, _) => o["match"] = json!("content-type"),
    ("statusCode", _, _, _) => o["match"] = json!("status-code"),
    ("notEmpty", _, _, _) => o["match"] = json!("not-empty"),
    ("arrayContains", _, _, _) => o["match"] = json!("array-contains"),
    ("eachKey", _, _, _) => o["match"] = json!("each-key"),
    ("eachValue", _, _, _) => o["match"] = json!("each-value"),
    _ => return None
  }
  Some(o)
}

fn rule_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let j = gen::rule_v34(r, 2);
  cx.note(j.to_string());
  let a = rule(&j)?;
  if let Some(d) = json_diff("", &j, &a.to_json()) { return violated("rule-json", format!("{} is written {}: {}", j, a.to_json(), d)) }
  let b = rule(&a.to_json())?;
  ensure!(a == b && h(&a) == h(&b), "rule-equality", "{} is not equal to itself", j);
  // name and attributes make the same rule again
  let attrs = obj(a.values());
  match MatchingRule::create(&a.name(), &attrs) {
    Ok(c) => { ensure!(c == a && json_diff("", &c.to_json(), &j).is_none(), "rule-attributes", "{} has name '{}' and attributes {}, which create {}", j, a.name(), attrs, c.to_json()); cx.tick("rules re-created") }
    Err(e) => return violated("rule-attributes", format!("{} has name '{}' and attributes {}, which are refused: {}", j, a.name(), attrs, e))
  }
  if let Some(al) = alias(r, &j) {
    let c = rule(&al)?;
    ensure!(c == a && json_diff("", &c.to_json(), &j).is_none(), "rule-alias", "{} reads as {} not {}", al, c.to_json(), j);
    cx.tick("alternative spellings");
  }
  // equality is exactly equality of meaning
  let mut k = if r.bool() { gen::rule_v34(r, 2) } else { j.clone() };
  if r.chance(1, 3) { tweak(r, &mut k); }
  if let Ok(c) = MatchingRule::from_json(&k) {
    let same = json_diff("", &c.to_json(), &a.to_json()).is_none();
    ensure!((c == a) == same && (a == c) == same, "rule-equality", "{} and {} compare {}", j, c.to_json(), c == a);
    if same { ensure!(h(&a) == h(&c), "rule-hash", "{}", j); cx.tick("equal rules compared") } else { cx.tick("different rules compared") }
    let mut l = RuleList::empty(RuleLogic::And);
    for x in [&a, &c, &a, &b, &c] { l.add_rule(x); }
    let u = l.remove_duplicates();
    ensure!(u.rules.len() == if same { 1 } else { 2 } && u.rules[0] == a, "duplicates", "{:?}", u);
  }
  cx.saw(j.to_string());
  cx.sample(|| j.clone());
  Ok(())
}

/// Changes one leaf of a rule
fn tweak(r: &mut Rng, v: &mut Value) {
  match v {
    Value::Object(m) => { let ks: Vec<String> = m.keys().filter(|k| *k != "match" && *k != "type" && *k != "combine").cloned().collect(); if !ks.is_empty() { let k = r.pick(&ks).clone(); tweak(r, m.get_mut(&k).unwrap()) } }
    Value::Array(a) => if a.is_empty() { } else if a[0].is_number() { a.push(json!(418)) } else { let i = r.us(a.len()); tweak(r, &mut a[i]) },
    Value::String(s) => s.push('x'),
    Value::Number(n) => *v = json!(n.as_i64().unwrap_or(0) + 1),
    _ => {}
  }
}

fn generator_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let j = gen::generator(r);
  cx.note(j.to_string());
  let make = |j: &Value| Generator::from_map(j["type"].as_str().unwrap(), j.as_object().unwrap());
  let a = match make(&j) { Some(g) => g, None => return violated("generator-refused", j.to_string()) };
  let w = a.to_json().unwrap_or_default();
  if let Some(d) = json_diff("", &j, &w) { return violated("generator-json", format!("{} is written {}: {}", j, w, d)) }
  let attrs = obj(a.values());
  match Generator::create(&a.name(), &attrs) {
    Ok(c) => { ensure!(c == a && c.to_json() == a.to_json(), "generator-attributes", "{} has name '{}' and attributes {}, which create {:?}", j, a.name(), attrs, c); cx.tick("generators re-created") }
    Err(e) => return violated("generator-attributes", format!("{} has name '{}' and attributes {}, which are refused: {}", j, a.name(), attrs, e))
  }
  let mut k = if r.bool() { gen::generator(r) } else { j.clone() };
  if r.chance(1, 3) { tweak(r, &mut k); }
  if let Some(c) = make(&k) {
    let same = c.to_json() == a.to_json();
    ensure!((c == a) == same, "generator-equality", "{} and {} compare {}", j, k, c == a);
    if same { ensure!(h(&a) == h(&c), "generator-hash", "{}", j); }
    cx.tick("generators compared");
  }
  // a whole set, added in different orders
  let n = r.range(1, 4);
  let set: Vec<(GeneratorCategory, DocPath, Generator)> = (0..n).filter_map(|i| make(&gen::generator(r)).map(|g| (r.pick(&[GeneratorCategory::BODY, GeneratorCategory::HEADER, GeneratorCategory::QUERY]).clone(), DocPath::new(format!("$.k{}", i)).unwrap(), g))).collect();
  let build = |o: &[usize]| { let mut g = Generators::default(); for i in o { let (c, p, x) = &set[*i]; g.add_generator_with_subcategory(c, p.clone(), x.clone()); } g };
  let o1: Vec<usize> = (0..set.len()).collect(); let mut o2 = o1.clone(); r.shuffle(&mut o2);
  let (g1, g2) = (build(&o1), build(&o2));
  ensure!(g1 == g2 && h(&g1) == h(&g2), "generators-order", "{:?} vs {:?}", g1, g2);
  // a category without generators says nothing
  let mut g3 = g1.clone();
  for c in [GeneratorCategory::PATH, GeneratorCategory::METADATA] { if r.bool() { g3.categories.entry(c).or_default(); } }
  ensure!(g3 == g1 && g1 == g3 && h(&g3) == h(&g1) && g3.is_empty() == g1.is_empty() && g3.is_not_empty() != g3.is_empty() && g1.is_empty() == set.is_empty(), "empty-generators", "{:?} and {:?}", g3, g1);
  // joined with more generators: all of them, of two for the same place the one that came last
  let more: Vec<(GeneratorCategory, DocPath, Generator)> = set.iter().filter_map(|(c, p, _)| make(&gen::generator(r)).map(|g| (if r.chance(1, 4) { GeneratorCategory::STATUS } else { c.clone() }, p.clone(), g))).collect();
  let mut want: BTreeMap<(String, String), Generator> = BTreeMap::new();
  for (c, p, g) in set.iter().chain(&more) { want.insert((c.clone().into(), p.to_string()), g.clone()); }
  let mut m = Generators::default(); for (c, p, g) in &more { m.add_generator_with_subcategory(c, p.clone(), g.clone()); }
  let mut all = g1.clone(); all.add_generators(m);
  let got: BTreeMap<(String, String), Generator> = all.categories.iter().flat_map(|(c, l)| l.iter().map(|(p, g)| ((c.clone().into(), p.to_string()), g.clone()))).collect();
  ensure!(got == want, "joined-generators", "{:?} not {:?}", got, want);
  cx.add("generators joined", want.len() as u64);
  for c in [GeneratorCategory::METHOD, GeneratorCategory::PATH, GeneratorCategory::HEADER, GeneratorCategory::QUERY, GeneratorCategory::BODY, GeneratorCategory::STATUS, GeneratorCategory::METADATA] {
    let n: String = c.clone().into();
    let other: String = n.chars().map(|x| if r.bool() { x.to_ascii_uppercase() } else { x }).collect();
    ensure!(GeneratorCategory::from_str(&other).ok() == Some(c.clone()), "category-name", "'{}' is {:?}", other, GeneratorCategory::from_str(&other));
  }
  cx.saw(j.to_string());
  Ok(())
}

fn category_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let name = r.pick_s(&["body", "header", "query", "metadata", "contents"]);
  let by_name = name == "header" || name == "query";
  let mk = |r: &mut Rng| -> BTreeMap<String, Value> { (0..r.range(1, 3)).map(|i| (if by_name { format!("{}{}", r.pick_s(&["X-A", "b", "c d", "it's", "a[0]"]), i) } else { gen::body_path(r) }, gen::rule_list(r, 1))).collect() };
  let a = mk(r); let b = mk(r);
  cx.note(format!("{}: {} + {}", name, json!(a), json!(b)));
  let load = |m: &BTreeMap<String, Value>| { let mut c = MatchingRuleCategory::empty(name.as_str()); c.add_v3_rules_from_json(&json!(m)).map(|_| c) };
  let (ca, cb) = match (load(&a), load(&b)) { (Ok(x), Ok(y)) => (x, y), (x, y) => return violated("category-refused", format!("{:?} {:?}", x.err(), y.err())) };
  if let Some(d) = json_diff("", &json!(a), &ca.to_v3_json()) { return violated("category-json", d) }
  // joining two sets of rules keeps the rules of both, those of the first before those of the second
  let mut want = a.clone();
  for (k, v) in &b {
    match want.get_mut(k) {
      Some(w) => { let add = v["matchers"].as_array().unwrap().clone(); w["matchers"].as_array_mut().unwrap().extend(add); }
      None => { want.insert(k.clone(), v.clone()); }
    }
  }
  let mut m = ca.clone();
  m.add_rules(cb.clone());
  if let Some(d) = json_diff("", &json!(want), &m.to_v3_json()) { return violated("joined-rules", d) }
  let mut rules = MatchingRules::default();
  rules.add_rules(name.as_str(), ca.clone());
  let mut other = MatchingRules::default();
  other.add_rules(name.as_str(), cb.clone());
  other.add_rules("status", { let mut s = MatchingRuleCategory::empty("status"); s.add_rule(DocPath::empty(), MatchingRule::Integer, RuleLogic::And); s });
  rules.merge(&other);
  let mut wr = json!({ "status": { "": {"combine": "AND", "matchers": [{"match": "integer"}]} } });
  wr[name.as_str()] = json!(want);
  if let Some(d) = json_diff("", &wr, &matchers_to_json(&rules, &PactSpecification::V4)) { return violated("merged-rules", d) }
  // a category without rules says nothing
  let mut e = rules.clone();
  for c in ["path", "metadata", "method"] { if r.bool() { e.add_category(c); } }
  ensure!(e == rules && rules == e && h(&e) == h(&rules) && e.is_not_empty() && !e.is_empty(), "empty-category", "{:?} and {:?}", e, rules);
  // moved to a name that has rules already: joins them
  let mut two = MatchingRules::default();
  two.add_rules("query", ca.clone()); two.add_rules("header", cb.clone());
  let moved = two.rename("header", "query");
  let left = moved.rules_for_category("query").unwrap_or_default();
  ensure!(left.rules == m.rules && moved.rules_for_category("header").map(|c| c.is_empty()).unwrap_or(true), "moved-rules", "{:?} not {:?}", left, m);
  ensure!(two.rename("status", "query") == two, "moved-rules", "{:?}", two.rename("status", "query"));
  let cats: std::collections::BTreeSet<String> = two.categories().iter().map(|c| c.to_string()).collect();
  ensure!(cats.iter().map(|s| s.as_str()).eq(["header", "query"]), "categories", "{:?}", cats);
  // written and read as a whole
  let again = matchers_from_json(&json!({"matchingRules": matchers_to_json(&rules, &PactSpecification::V3)}), &None);
  match again { Ok(x) => ensure!(x == rules && h(&x) == h(&rules), "rules-round-trip", "{:?} vs {:?}", x, rules), Err(e) => return violated("rules-round-trip", e.to_string()) }
  ensure!(ca.rename("body").to_v3_json().as_object().map(|o| o.len()) == Some(a.len()), "renamed", "{:?}", ca.rename("body"));
  // keeping a part of them
  let keep: Vec<String> = ca.rules.iter().filter(|(_, l)| l.rule_logic == RuleLogic::And).map(|(p, _)| p.to_string()).collect();
  let f = ca.filter(|(_, l)| l.rule_logic == RuleLogic::And);
  ensure!(f.rules.len() == keep.len() && f.rules.iter().all(|(p, l)| ca.rules.get(p) == Some(l)), "filtered", "{:?}", f);
  cx.add("rule lists joined", want.len() as u64);
  cx.saw((name, json!(a).to_string(), json!(b).to_string()));
  Ok(())
}

// ---- selection

fn small(r: &mut Rng, n: i64) -> Vec<Tok> {
  (0..n).map(|_| match r.below(6) { 0 | 1 => Tok::I(if r.chance(1, 12) { *r.pick(&[9, 10, 256, 65_536, 4_294_967_296, usize::MAX]) } else { r.us(2) }), _ => Tok::F(r.pick_s(&["a", "b", "c", "x y"])) }).collect()
}

fn weigh(e: &[Tok], p: &[Tok]) -> u128 {
  if e.len() > p.len() { return 0 }
  let mut w = 2u128;
  for (e, p) in e.iter().zip(p) { w *= if e == p { 2 } else if e == &Tok::S || (e == &Tok::SI && matches!(p, Tok::I(_))) { 1 } else { 0 }; }
  w * (e.len() as u128 + 1)
}

fn select_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let n = if r.chance(1, 40) { r.range(40, 100) } else { r.range(0, 4) };
  let path = small(r, n);
  // weights of steps beyond this depth are all the largest number
  let shallow = n < 60;
  let mut exprs: Vec<Vec<Tok>> = vec![];
  for _ in 0..r.range(1, 6) {
    let mut e: Vec<Tok> = path.iter().map(|t| if r.chance(1, 3) { if matches!(t, Tok::I(_)) && r.bool() { Tok::SI } else { Tok::S } } else { t.clone() }).collect();
    match r.below(5) { 0 => { let k = r.us(e.len() + 1); e.truncate(k); } 1 => e.extend(small(r, 1)), 2 if !e.is_empty() => { let i = r.us(e.len()); e[i] = small(r, 1)[0].clone(); } _ => {} }
    if !exprs.contains(&e) { exprs.push(e) }
  }
  let pv: Vec<String> = std::iter::once("$".to_string()).chain(path.iter().map(|t| match t { Tok::F(s) => s.clone(), Tok::I(i) => i.to_string(), _ => unreachable!() })).collect();
  let pr: Vec<&str> = pv.iter().map(|s| s.as_str()).collect();
  let name = r.pick_s(&["body", "metadata", "contents"]);
  let dps: Vec<DocPath> = exprs.iter().map(|e| DocPath::from_tokens(paths::reals(e))).collect();
  cx.note(format!("{:?} against {:?}", dps.iter().map(|d| d.to_string()).collect::<Vec<_>>(), pr));
  let build = |ord: &[usize]| { let mut c = MatchingRuleCategory::empty(name.as_str()); for i in ord { c.add_rule(dps[*i].clone(), MatchingRule::Regex(i.to_string()), RuleLogic::And); } c };
  let ord: Vec<usize> = (0..dps.len()).collect();
  let cat = build(&ord);
  let ws: Vec<u128> = exprs.iter().map(|e| weigh(e, &path)).collect();
  let best = *ws.iter().max().unwrap();
  let got = cat.select_best_matcher(&pr);
  let chosen = got.rules.first().map(|m| match m { MatchingRule::Regex(s) => s.parse::<usize>().unwrap(), _ => 999 });
  match chosen {
    None => ensure!(best == 0, "not-selected", "no rule selected, '{}' matches", dps[ws.iter().position(|w| *w == best).unwrap()]),
    Some(i) => {
      ensure!(best > 0 && if shallow { ws[i] == best } else { ws[i] > 0 }, "wrong-rule", "selected '{}' (weight {}) rather than '{}' (weight {})", dps[i], ws[i], dps[ws.iter().position(|w| *w == best).unwrap()], best);
      ensure!(got.cascaded == (exprs[i].len() != path.len()), "cascaded", "'{}' for {:?}: cascaded {}", dps[i], pr, got.cascaded);
      cx.tick("rules selected");
      if got.cascaded { cx.tick("cascaded rules") }
      if ws.iter().filter(|w| **w == best).count() > 1 { cx.tick("ties") }
    }
  }
  // the same rules give the same choice however they were put in
  for _ in 0..4 {
    let mut o = ord.clone(); r.shuffle(&mut o);
    let g = build(&o).select_best_matcher(&pr);
    ensure!(g == got, "selection-varies", "selected {:?} and {:?} from the same rules", got, g);
  }
  // other views of the same question
  let matching: Vec<usize> = ws.iter().enumerate().filter(|(_, w)| **w > 0).map(|(i, _)| i).collect();
  ensure!(cat.matcher_is_defined(&pr) == !matching.is_empty(), "is-defined", "{}", cat.matcher_is_defined(&pr));
  let res = cat.resolve_matchers_for_path(&pr);
  ensure!(res.rules.len() == matching.len() && matching.iter().all(|i| res.rules.contains_key(&dps[*i])), "resolved", "{:?} not {:?}", res.rules.keys().collect::<Vec<_>>(), matching);
  let mut all = MatchingRules::default();
  all.add_rules(name.as_str(), cat.clone());
  ensure!(all.matcher_is_defined(name.as_str(), &pr) == !matching.is_empty(), "is-defined", "");
  if name == "body" {
    ensure!(all.resolve_body_matchers_by_path(&pr) == got, "body-matchers", "{:?} vs {:?}", all.resolve_body_matchers_by_path(&pr), got);
    let wild = matching.iter().any(|i| exprs[*i].len() == path.len() && exprs[*i].last() == Some(&Tok::S));
    ensure!(all.wildcard_matcher_is_defined("body", &pr) == wild, "wildcard", "{}", !wild);
  }
  if matching.is_empty() { cx.tick("no rule applies") }
  cx.saw((pv, dps.iter().map(|d| d.to_string()).collect::<Vec<_>>()));
  Ok(())
}

fn named_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let name = r.pick_s(&["header", "query"]);
  const N: [&str; 8] = ["a", "b", "X-Y", "x y", "a[0]", "*", "0", "it's"];
  let names = r.subset(&N, 1, 2);
  let mut c = MatchingRuleCategory::empty(name.as_str());
  let j: BTreeMap<String, Value> = names.iter().map(|n| (n.to_string(), json!({"combine": "AND", "matchers": [{"match": "regex", "regex": n}]}))).collect();
  if let Err(e) = c.add_v3_rules_from_json(&json!(j)) { return violated("refused", e.to_string()) }
  let want = *r.pick(&N);
  cx.note(format!("{} for '{}'", short(&json!(j)), want));
  let p = [ "$", want ];
  let got = c.select_best_matcher(&p);
  let has = names.contains(&want);
  ensure!(c.matcher_is_defined(&p) == has, "named-defined", "'{}': {}", want, !has);
  if has { ensure!(got.rules == vec![MatchingRule::Regex(want.to_string())], "named-rule", "'{}' selected {:?}", want, got); cx.tick("named rules selected") }
  else { ensure!(got.is_empty(), "named-rule", "'{}' selected {:?}", want, got); }
  cx.saw((names.join(","), want));
  Ok(())
}

pub fn selection() -> Property {
  Property {
    id: "P10", level: "exploration",
    rule: "Seeded sets of rule paths derived from a concrete path (exact, generalised, shortened, extended, changed), added in several orders; header and query rules by name. Non-trivial: each distinct rule set and path.",
    assumptions: vec!["The weight of a rule is the product of its steps' weights (2 exact, 1 wildcard, 0 no match) times its length; ties may go to any of the tied rules but always to the same one."],
    phases: vec![phase("paths", 15000, select_case), phase("names", 4000, named_case)],
    floors: vec![("rules selected", 4000), ("cascaded rules", 600), ("ties", 300), ("no rule applies", 300), ("named rules selected", 800)],
    probes: vec![]
  }
}

pub fn model() -> Property {
  Property {
    id: "P11", level: "exploration",
    rule: "Seeded rules and generators of every kind read from JSON, written back, re-created from name and attributes, spelled in every accepted way, compared with altered copies; rule sets joined, merged, filtered and read back. Non-trivial: each distinct rule, generator or pair of rule sets.",
    assumptions: vec![],
    phases: vec![phase("rules", 12000, rule_case), phase("generators", 8000, generator_case), phase("categories", 5000, category_case)],
    floors: vec![("rules re-created", 6000), ("alternative spellings", 2000), ("equal rules compared", 1000), ("different rules compared", 3000), ("generators re-created", 4000), ("rule lists joined", 5000), ("generators joined", 5000)],
    probes: vec![]
  }
}
