//! XML bodies against their matching rules: templates with known verdict, in many presentations
use moncore::*;
use pact_matching::Mismatch;
use pact_models::path_exp::DocPath;

use crate::body::Mode;
use crate::other::run;
use crate::tmpl::{step, PATTERNS};
use crate::util::*;

const URIS: [&str; 3] = ["urn:one", "http://example.com/ns/two", "x"];
const TAGS: [&str; 14] = ["id", "name", "items", "price", "a-b", "ünï", "x.y", "UPPER", "under_score", "kind", "B", "item1", "text", "_u"];

#[derive(Clone, Debug)]
pub struct Leaf { ex: String, rules: Option<(Vec<Value>, &'static str)>, ok: Vec<String>, bad: Vec<String>, label: &'static str }
/// The number of children an element may have; makes everything below alike by type
type Count = (Option<usize>, Option<usize>);
#[derive(Clone, Debug)]
pub struct El { ns: Option<usize>, tag: String, attrs: Vec<(Option<usize>, String, Leaf)>, groups: Vec<Group>, text: Option<Leaf>, count: Option<Count>, casc: bool }
#[derive(Clone, Debug)]
pub enum Group { /** elements of one name, one by one */ Fixed(Vec<El>), /** any number that look like the first; `ruled` when the rule is its own */ Each { item: El, n: usize, ruled: bool } }

/// A document: what is written down
#[derive(Clone, Debug)]
pub struct Doc { ns: Option<usize>, tag: String, attrs: Vec<(Option<usize>, String, String)>, kids: Vec<Doc>, text: String }

fn word(r: &mut Rng) -> String { r.string_from(&['a', 'b', 'c', 'q', 'X', '7', 'é', '<', '&', '"', '\'', '>'], 1, 8) }
fn l(label: &'static str, rules: Vec<Value>, ex: &str, ok: &[&str], bad: &[&str]) -> Leaf { Leaf { label, ex: ex.into(), rules: Some((rules, "AND")), ok: ok.iter().map(|s| s.to_string()).collect(), bad: bad.iter().map(|s| s.to_string()).collect() } }

fn leaf(r: &mut Rng, casc: bool, text: bool) -> Leaf {
  let mut x = match r.below(14) {
    0..=3 => { let w = word(r); if casc { Leaf { label: "cascaded", ok: vec![word(r), word(r)], bad: vec![], ex: w, rules: None } } else { Leaf { label: "plain", bad: vec![format!("{w}x"), format!("x{w}"), w.chars().skip(1).collect(), String::new(), swap(&w)], ok: vec![w.clone()], ex: w, rules: None } } }
    4 => l("type", vec![json!({"match": "type"})], &word(r), &[&word(r), &word(r)], &[]),
    5 => { let (p, ok, bad) = *r.pick(&PATTERNS[..6]); l("regex", vec![json!({"match": "regex", "regex": p})], ok[0], ok, bad) }
    6 => { let w = word(r); l("include", vec![json!({"match": "include", "value": w})], &format!("a{w}b"), &[&w, &format!("{w}tail")], &["-", ""]) }
    7 => l("integer", vec![json!({"match": "integer"})], "12", &["-7", "0", "123456789012345678901"], &["1.5", "x", "", "1e3"]),
    8 => l("number", vec![json!({"match": "number"})], "12", &["-7", "0.5", "1e3"], &["x", "", "1,5", "NaN"]),
    9 => l("date", vec![json!({"match": "date", "date": "yyyy-MM-dd"})], "2020-02-29", &["1999-12-31"], &["2021-02-29", "29-02-2020", ""]),
    10 => l("boolean", vec![json!({"match": "boolean"})], "true", &["false"], &["1", "True", ""]),
    11 => l("notEmpty", vec![json!({"match": "notEmpty"})], "x", &["y", "zz"], &[""]),
    12 => { let w = word(r); l("equality", vec![json!({"match": "equality"})], &w, &[&w], &[&format!("{w}x"), &swap(&w), ""]) }
    _ => { let mut x = l("or", vec![json!({"match": "regex", "regex": "^\\d+$"}), json!({"match": "regex", "regex": "^[a-f]{2,}$"})], "12", &["7", "abc", "deadbeef"], &["a", "12x", "", "xyz"]); x.rules.as_mut().unwrap().1 = "OR"; x }
  };
  x.bad.retain(|b| *b != x.ex && !x.ok.contains(b) && (!text || b.trim() == b)); x
}
fn swap(w: &str) -> String { let u: String = w.chars().map(|c| if c.is_uppercase() { c.to_lowercase().next().unwrap() } else { c.to_uppercase().next().unwrap() }).collect(); if u == w { format!("{w}{w}") } else { u } }

fn tags(r: &mut Rng, n: usize) -> Vec<(Option<usize>, String)> {
  let mut v: Vec<(Option<usize>, String)> = vec![];
  while v.len() < n { let k = (if r.chance(1, 4) { Some(r.us(3)) } else { None }, r.pick_s(&TAGS)); if !v.contains(&k) { v.push(k) } }
  v
}

pub fn element(r: &mut Rng, depth: u32, casc: bool, name: (Option<usize>, String)) -> El {
  let inner = depth > 0 && r.chance(3, 4); let want = inner && r.chance(1, 6); let casc = casc || want;
  let n = r.us(4); let attrs = tags(r, n).into_iter().map(|(ns, t)| { let mut x = leaf(r, casc, false); if x.ex.is_empty() { x.ex = "v".into() } (ns, t, x) }).collect();
  let mut e = El { ns: name.0, tag: name.1, attrs, groups: vec![], text: None, count: None, casc };
  if inner {
    let n = r.range(1, 4) as usize;
    for k in tags(r, n) {
      let g = if e.casc { let i = element(r, depth - 1, true, k); let n = r.range(1, 2) as usize; Group::Each { item: i, n, ruled: r.chance(1, 3) } }
        else { match r.below(4) { 0 => Group::Each { item: element(r, depth - 1, true, k), n: r.range(1, 3) as usize, ruled: true },
          1 => { let n = r.range(2, 3); Group::Fixed((0..n).map(|i| { let mut e = plain(r, depth - 1, k.clone()); e.attrs.push((None, "which".into(), fixed(&format!("{i}")))); e }).collect()) }
          _ => Group::Fixed(vec![element(r, depth - 1, false, k)]) } };
      e.groups.push(g);
    }
    if want { let k = e.groups.iter().map(|g| match g { Group::Each { n, .. } => *n, _ => 1 }).sum::<usize>(); let lo = r.us(k + 1); let hi = k + r.us(2);
      e.count = Some(match r.below(3) { 0 => (Some(lo), None), 1 => (None, Some(hi)), _ => (Some(lo), Some(hi)) }) }
  }
  if e.groups.is_empty() && r.chance(3, 4) || r.chance(1, 8) && e.count.is_none() { let mut x = leaf(r, e.casc, true); if x.ex.trim() != x.ex { x.ex = "t".into() } e.text = Some(x) }
  e
}
fn fixed(v: &str) -> Leaf { Leaf { label: "plain", ex: v.into(), rules: None, ok: vec![v.into()], bad: vec![format!("{v}9")] } }
fn plain(r: &mut Rng, depth: u32, name: (Option<usize>, String)) -> El {
  let n = r.us(2); let attrs = tags(r, n).into_iter().map(|(ns, t)| (ns, t, fixed(&word(r)))).collect();
  let mut e = El { ns: name.0, tag: name.1, attrs, groups: vec![], text: None, count: None, casc: false };
  if depth > 0 && r.bool() { for k in tags(r, 2) { e.groups.push(Group::Fixed(vec![plain(r, depth - 1, k)])) } } else { let w = word(r); e.text = Some(fixed(&w)) }
  e
}

fn key(ns: Option<usize>, tag: &str) -> String { match ns { Some(i) => format!("{}:{}", URIS[i], tag), None => tag.to_string() } }
fn list(rules: &[Value], logic: &str) -> Value { json!({"matchers": rules, "combine": logic}) }

pub fn rules(e: &El, path: &str, m: &mut Map<String, Value>) {
  if let Some((lo, hi)) = e.count { let mut x = json!({"match": "type"}); if let Some(v) = lo { x["min"] = json!(v) } if let Some(v) = hi { x["max"] = json!(v) } m.insert(path.into(), list(&[x], "AND")); }
  for (ns, t, l) in &e.attrs { if let Some((rs, c)) = &l.rules { m.insert(step(path, &format!("@{}", key(*ns, t))), list(rs, c)); } }
  if let Some(Leaf { rules: Some((rs, c)), .. }) = &e.text { m.insert(step(path, "#text"), list(rs, c)); }
  for g in &e.groups { match g {
    Group::Fixed(v) => for i in v { rules(i, &step(path, &key(i.ns, &i.tag)), m) },
    Group::Each { item, ruled, .. } => { let p = step(path, &key(item.ns, &item.tag)); if *ruled && item.count.is_none() { m.insert(p.clone(), list(&[json!({"match": "type"})], "AND")); } rules(item, &p, m) }
  } }
}
pub fn labels(e: &El, v: &mut Vec<&'static str>) {
  v.extend(e.attrs.iter().map(|a| a.2.label)); v.extend(e.text.iter().map(|a| a.label)); if e.count.is_some() { v.push("count") }
  for g in &e.groups { match g { Group::Fixed(x) => { v.push(if x.len() > 1 { "several" } else { "one" }); x.iter().for_each(|e| labels(e, v)) } Group::Each { item, .. } => { v.push("each"); labels(item, v) } } }
}
pub fn example(e: &El) -> Doc {
  Doc { ns: e.ns, tag: e.tag.clone(), attrs: e.attrs.iter().map(|(n, t, l)| (*n, t.clone(), l.ex.clone())).collect(), text: e.text.as_ref().map(|l| l.ex.clone()).unwrap_or_default(),
    kids: e.groups.iter().flat_map(|g| match g { Group::Fixed(v) => v.iter().map(example).collect::<Vec<_>>(), Group::Each { item, n, .. } => (0..*n).map(|_| example(item)).collect() }).collect() }
}
/// A document that complies; `extra` allows attributes and elements that were not asked for
pub fn comply(e: &El, r: &mut Rng, extra: bool) -> Doc {
  let some = |l: &Leaf, r: &mut Rng| if r.chance(1, 4) || l.ok.is_empty() { l.ex.clone() } else { r.pick(&l.ok).clone() };
  let mut d = Doc { ns: e.ns, tag: e.tag.clone(), attrs: vec![], kids: vec![], text: e.text.as_ref().map(|l| some(l, r)).unwrap_or_default() };
  for (n, t, l) in &e.attrs { let v = some(l, r); d.attrs.push((*n, t.clone(), v)) }
  let counts: Vec<usize> = match e.count {
    None => e.groups.iter().map(|g| match g { Group::Fixed(v) => v.len(), Group::Each { .. } => r.range(1, 4) as usize }).collect(),
    Some((lo, hi)) => { let mut c = vec![1; e.groups.len()]; let lo = lo.unwrap_or(0).max(c.len()); let hi = hi.unwrap_or(lo + 2).max(lo); let want = r.range(lo as i64, hi as i64) as usize; while c.iter().sum::<usize>() < want { let i = r.us(c.len()); c[i] += 1 } c }
  };
  for (g, c) in e.groups.iter().zip(counts) { match g { Group::Fixed(v) => for i in v { d.kids.push(comply(i, r, extra)) }, Group::Each { item, .. } => for _ in 0..c { d.kids.push(comply(item, r, extra)) } } }
  if extra && r.chance(1, 4) { d.attrs.push((None, "extra-attribute".into(), word(r))) }
  if extra && !e.casc && r.chance(1, 4) { d.kids.push(Doc { ns: None, tag: "extra-element".into(), attrs: vec![], kids: vec![], text: word(r) }) }
  d
}
pub struct Diff { pub doc: Doc, pub at: Vec<Vec<String>>, pub what: String }
/// A document with one difference and the places it may be reported at
pub fn violate(e: &El, r: &mut Rng, extra: bool, path: &[String]) -> Option<Diff> {
  let mut d = comply(e, r, extra);
  let here = |s: &str| { let mut p = path.to_vec(); p.push(s.to_string()); p };
  for _ in 0..12 {
    match r.below(12) {
      0 | 1 if !e.attrs.is_empty() => { let i = r.us(e.attrs.len()); let (n, t, l) = &e.attrs[i]; if l.bad.is_empty() { continue } let b = r.pick(&l.bad).clone(); d.attrs[i].2 = b.clone(); return Some(Diff { doc: d, at: vec![here(&format!("@{}", key(*n, t)))], what: format!("attribute {t} ({}) is {b:?}", l.label) }) }
      2 if !e.attrs.is_empty() => { let i = r.us(e.attrs.len()); let (n, t, _) = &e.attrs[i]; d.attrs.remove(i); return Some(Diff { doc: d, at: vec![here(&format!("@{}", key(*n, t))), path.to_vec()], what: format!("no attribute {t}") }) }
      3 if !extra => { d.attrs.push((None, "more".into(), "1".into())); return Some(Diff { doc: d, at: vec![path.to_vec()], what: "an attribute too many".into() }) }
      4 | 5 if e.text.as_ref().map(|l| !l.bad.is_empty()).unwrap_or(!e.casc && e.groups.is_empty()) => { let (b, w) = match &e.text { Some(l) => (r.pick(&l.bad).clone(), l.label), None => ("surprise".into(), "none") }; d.text = b.clone(); return Some(Diff { doc: d, at: vec![here("#text")], what: format!("text ({w}) is {b:?}") }) }
      6 if !e.groups.is_empty() => { let g = r.us(e.groups.len()); let (n, t) = match &e.groups[g] { Group::Fixed(v) => (v[0].ns, &v[0].tag), Group::Each { item, .. } => (item.ns, &item.tag) };
        if e.count.is_some() { continue } d.kids.retain(|k| k.ns != n || k.tag != *t); return Some(Diff { doc: d, at: vec![path.to_vec(), here(&key(n, t))], what: format!("no element {t}") }) }
      7 => { if let Some(Group::Fixed(v)) = e.groups.iter().find(|g| matches!(g, Group::Fixed(v) if v.len() > 1)) {
          let (n, t) = (v[0].ns, v[0].tag.clone()); let first = d.kids.iter().position(|k| k.ns == n && k.tag == t).unwrap(); let at = vec![here(&key(n, &t)), path.to_vec()];
          match r.below(if extra { 2 } else { 3 }) {
            0 => { d.kids.remove(first + v.len() - 1); return Some(Diff { doc: d, at, what: format!("one {t} missing") }) }
            1 => { d.kids.swap(first, first + 1); return Some(Diff { doc: d, at, what: format!("two {t} exchanged") }) }
            _ => { let k = d.kids[first].clone(); d.kids.insert(first + v.len(), k); return Some(Diff { doc: d, at, what: format!("one {t} too many") }) }
          } } }
      8 if !extra => { d.kids.push(Doc { ns: None, tag: "more".into(), attrs: vec![], kids: vec![], text: "".into() }); return Some(Diff { doc: d, at: vec![path.to_vec()], what: "an element too many".into() }) }
      9 => { if r.bool() { d.ns = match d.ns { None => Some(0), Some(i) => if r.bool() { None } else { Some((i + 1) % 3) } } } else { d.tag = swap(&d.tag) }
        let mut p = path.to_vec(); let mut at = vec![p.clone()]; p.pop(); at.push(p.clone()); let mut q = p; q.push(key(d.ns, &d.tag)); at.push(q);
        if path.len() == 2 { at.push(path.to_vec()) } return Some(Diff { what: "an element of another name".into(), doc: d, at }) }
      10 => { if let Some((lo, hi)) = e.count { let n = d.kids.len(); let groups = e.groups.len();
          if let (Some(lo), true) = (lo, r.bool()) { if lo > groups { while d.kids.len() >= lo { let i = d.kids.iter().position(|k| d.kids.iter().filter(|o| o.tag == k.tag && o.ns == k.ns).count() > 1).unwrap(); d.kids.remove(i); } return Some(Diff { doc: d, at: vec![path.to_vec()], what: format!("fewer than {lo} elements") }) } }
          if let Some(hi) = hi { for _ in n..=hi { let k = d.kids[0].clone(); d.kids.insert(0, k) } return Some(Diff { doc: d, at: vec![path.to_vec()], what: format!("more than {hi} elements") }) } } }
      _ => if !e.groups.is_empty() { let gi = r.us(e.groups.len()); let (item, which, many) = match &e.groups[gi] { Group::Fixed(v) => { let i = r.us(v.len()); (&v[i], i, true) } Group::Each { item, .. } => (item, 0, false) };
        let k = key(item.ns, &item.tag); let Some(mut sub) = violate(item, r, extra, &here(&k)) else { continue };
        if (sub.doc.ns != item.ns || sub.doc.tag != item.tag) && !many && (e.count.is_some() || d.kids.iter().filter(|k| k.ns == item.ns && k.tag == item.tag).count() > 1) && (extra && !e.casc) { continue }
        // a renamed child may only be reported as an unexpected one
        if (sub.doc.ns != item.ns || sub.doc.tag != item.tag) && extra && !many && d.kids.iter().filter(|k| k.ns == item.ns && k.tag == item.tag).count() > 1 { continue }
        if d.kids.iter().any(|k| (k.ns, &k.tag) == (sub.doc.ns, &sub.doc.tag) && (k.ns != item.ns || k.tag != item.tag)) { continue }
        let pos: Vec<usize> = d.kids.iter().enumerate().filter(|(_, k)| k.ns == item.ns && k.tag == item.tag).map(|(i, _)| i).collect();
        let at = if many { pos[which] } else { *r.pick(&pos) }; d.kids[at] = sub.doc; sub.doc = d; return Some(sub) }
    }
  }
  None
}

// ---- presentations

fn esc(r: &mut Rng, s: &str, q: Option<char>) -> String {
  let mut o = String::new();
  for c in s.chars() { match c {
    '&' => o.push_str(&r.pick_s(&["&amp;", "&#38;", "&#x26;"])), '<' => o.push_str(&r.pick_s(&["&lt;", "&#60;", "&#x3C;"])), '>' => if q.is_none() || r.bool() { o.push_str("&gt;") } else { o.push('>') },
    '"' if q == Some('"') => o.push_str("&quot;"), '\'' if q == Some('\'') => o.push_str("&apos;"),
    c if r.chance(1, 12) => if r.bool() { o.push_str(&format!("&#{};", c as u32)) } else { o.push_str(&format!("&#x{:X};", c as u32)) }, c => o.push(c) } }
  o
}
pub struct Style { pub pretty: u64, pub misc: bool }
fn ws(r: &mut Rng, st: &Style) -> String { match st.pretty { 0 => String::new(), 1 => "\n  ".into(), _ => r.pick_s(&["", " ", "\n", "\t", "\n    ", "\r\n"]) } }
fn misc(r: &mut Rng, st: &Style) -> String { if st.misc && r.chance(1, 4) { r.pick_s(&["<!-- a remark -->", "<!---->", "<?target data?>", "<!-- <b/> & -->"]) } else { String::new() } }

/// All elements have a namespace (the XML library cannot take a default namespace back)
fn named(d: &Doc) -> bool { d.ns.is_some() && d.kids.iter().all(named) }
/// Write the document; `scope` is the prefix of each namespace that is in scope, `def` the default one
pub fn write(d: &Doc, r: &mut Rng, st: &Style, scope: &[Option<String>; 3], def: Option<usize>) -> String {
  let mut scope = scope.clone(); let mut decl: Vec<String> = vec![]; let mut def = def;
  let outer = scope.clone();
  let declare = |i: usize, r: &mut Rng, scope: &mut [Option<String>; 3], decl: &mut Vec<String>| -> String {
    if let (Some(p), true) = (&scope[i], r.chance(3, 4)) { if scope.iter().filter(|s| s.as_ref() == Some(p)).count() == 1 { return p.clone() } }
    let p = loop { let p = r.pick_s(&["a", "b", "ns1", "xs", "p-q", "Z", "c", "d"]); if !scope.iter().chain(&outer).any(|s| s.as_deref() == Some(p.as_str())) && !decl.iter().any(|d| d.starts_with(&format!("xmlns:{p}="))) { break p } };
    decl.push(format!("xmlns:{p}=\"{}\"", URIS[i])); scope[i] = Some(p.clone()); p };
  let name = match d.ns {
    Some(i) if def == Some(i) && r.bool() => d.tag.clone(),
    Some(i) if named(d) && r.chance(1, 4) => { decl.push(format!("xmlns=\"{}\"", URIS[i])); def = Some(i); d.tag.clone() }
    Some(i) => format!("{}:{}", declare(i, r, &mut scope, &mut decl), d.tag),
    None => { if def.is_some() { decl.push("xmlns=\"\"".into()); def = None } d.tag.clone() }
  };
  let mut attrs: Vec<String> = d.attrs.iter().map(|(n, t, v)| { let n = match n { Some(i) => format!("{}:{}", declare(*i, r, &mut scope, &mut decl), t), None => t.clone() }; let q = if r.bool() { '"' } else { '\'' }; format!("{n}{}={q}{}{q}", if r.chance(1, 8) { " " } else { "" }, esc(r, v, Some(q))) }).collect();
  attrs.extend(decl); r.shuffle(&mut attrs);
  let mut o = format!("<{name}"); for a in attrs { o.push_str(&r.pick_s(&[" ", " ", "\n  ", "  "])); o.push_str(&a) }
  if d.kids.is_empty() && d.text.is_empty() && r.bool() { o.push_str(&r.pick_s(&["/>", " />"])); return o }
  o.push('>');
  let text = if d.text.is_empty() { String::new() } else { match r.below(4) {
    0 if !d.text.contains("]]>") => format!("<![CDATA[{}]]>", d.text),
    1 if d.kids.is_empty() && d.text.trim() == d.text && d.text.chars().count() > 1 && !d.text.contains(' ') => { let k = d.text.chars().count() / 2; let a: String = d.text.chars().take(k).collect(); let b: String = d.text.chars().skip(k).collect(); format!("{}<!-- split -->{}", esc(r, &a, None), esc(r, &b, None)) }
    _ => esc(r, &d.text, None) } };
  let mut kids = d.kids.clone();
  // elements of different names may be exchanged
  for _ in 0..kids.len() { if kids.len() > 1 { let i = r.us(kids.len() - 1); if (kids[i].ns, &kids[i].tag) != (kids[i + 1].ns, &kids[i + 1].tag) && r.bool() { kids.swap(i, i + 1) } } }
  let at = r.us(kids.len() + 1);
  for i in 0..=kids.len() {
    o.push_str(&ws(r, st)); o.push_str(&misc(r, st));
    if i == at { o.push_str(&text); o.push_str(&ws(r, st)) }
    if i < kids.len() { o.push_str(&write(&kids[i], r, st, &scope, def)) }
  }
  o.push_str(&ws(r, st));
  o.push_str(&format!("</{name}{}>", if r.chance(1, 8) { " " } else { "" })); o
}
pub fn document(d: &Doc, r: &mut Rng, st: &Style) -> String {
  let mut o = String::new();
  if r.chance(1, 3) { o.push_str(&r.pick_s(&["<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n"])) }
  if st.misc { o.push_str(&misc(r, st)); o.push_str(&ws(r, st)) }
  o.push_str(&write(d, r, st, &[None, None, None], None));
  if st.misc { o.push_str(&ws(r, st)); o.push_str(&misc(r, st)) }
  o
}

fn path_of(m: &Mismatch) -> Option<Vec<String>> { match m { Mismatch::BodyMismatch { path, .. } => DocPath::new(path.as_str()).ok().map(|p| p.to_vec()), _ => None } }
fn related(a: &[String], b: &[String]) -> bool { let n = a.len().min(b.len()); a[..n] == b[..n] }
const TYPES: [&str; 5] = ["application/xml", "text/xml", "application/soap+xml", "application/xml; charset=utf-8", "application/vnd.acme.v1+xml"];

fn case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let depth = r.us(4) as u32; let root = tags(r, 1).remove(0); let e = element(r, depth, false, root);
  let mut rs = Map::new(); rules(&e, &step("$", &key(e.ns, &e.tag)), &mut rs);
  let mode = *r.pick(&[Mode::Request, Mode::Response, Mode::Message, Mode::Sync]); let extra = mode != Mode::Request;
  let ct = r.pick_s(&TYPES);
  let mut ls = vec![]; labels(&e, &mut ls); ls.sort(); ls.dedup(); cx.saw((&ls, mode as u8, depth));
  let st = |r: &mut Rng| Style { pretty: r.below(3), misc: r.bool() };
  let s1 = st(r); let ex = document(&example(&e), r, &s1);
  let ctx = |a: &str| format!("{mode:?} {ct} example {ex:?} rules {} actual {a:?}", s(&Value::Object(rs.clone())));
  let go = |a: &str| -> Result<Vec<Mismatch>, Violation> { match no_panic(|| run(mode, &ct, ex.as_bytes(), &rs, &ct, a.as_bytes())) { Ok(Ok(v)) => Ok(v), Ok(Err(e)) => violated("load", format!("{e}; {}", ctx(a))), Err(p) => violated("panic", format!("{p}; {}", ctx(a))) } };
  let m = go(&ex)?; cx.tick("examples matched with themselves");
  ensure!(m.is_empty(), "example", "an example does not match itself: {}; {}", show(&m), ctx(&ex));
  for i in 0..3 {
    let s1 = st(r); let d = if i == 0 { example(&e) } else { comply(&e, r, extra) }; let a = document(&d, r, &s1);
    let m = go(&a)?; cx.tick("complying documents");
    ensure!(m.is_empty(), if i == 0 { "presentation" } else { "refused" }, "a document that complies with the rules is refused: {}; {}", show(&m), ctx(&a));
  }
  let rootp = vec!["$".to_string(), key(e.ns, &e.tag)];
  for _ in 0..4 {
    if let Some(v) = violate(&e, r, extra, &rootp) {
      let s1 = st(r); let a = document(&v.doc, r, &s1);
      let m = go(&a)?; cx.tick("documents with one difference"); cx.saw(&v.what);
      ensure!(!m.is_empty(), "missed", "a difference is not reported ({} at {:?}); {}", v.what, v.at, ctx(&a));
      for x in &m {
        let p = path_of(x);
        ensure!(p.as_ref().map(|p| v.at.iter().any(|at| related(p, at) && p.len() >= at.len().min(2))).unwrap_or(false), "place", "the difference ({} at {:?}) is reported somewhere else: {}; {}", v.what, v.at, show(&m), ctx(&a));
      }
      cx.tick("differences located");
    }
  }
  // text that is no XML
  if r.chance(1, 10) { let bad = r.pick_s(&["<a>", "", "<a></b>", "plain", "<a/><b/>", "<a", "{\"a\": 1}", "<a b=1/>", "<a>&nope;</a>"]); if !bad.is_empty() { let m = go(&bad)?; cx.tick("unreadable documents"); ensure!(!m.is_empty(), "unreadable", "{bad:?} is accepted; {}", ctx(&bad)); } }
  cx.sample(|| json!({"example": ex, "rules": rs, "mode": format!("{mode:?}")}));
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P32", level: "exploration",
    rule: "Seeded XML templates of elements, attributes, texts, repeated elements and namespaces under rules of every kind, given as the body of requests, responses and messages; documents drawn to comply and to differ in one known place, each in a random presentation (prefixes, quotes, order, white space, remarks, references, CDATA). Non-trivial: each distinct set of rules in a template and kind of interaction, and each kind of difference.",
    assumptions: vec!["Additional elements and attributes are allowed in responses and messages and not in requests.", "Texts are compared without the white space around them.", "A rule about types holds for everything below it that has no rule of its own."],
    phases: vec![phase("templates", 5000, case)],
    floors: vec![("examples matched with themselves", 4500), ("complying documents", 12000), ("documents with one difference", 9000), ("differences located", 9000), ("unreadable documents", 200)],
    probes: vec![]
  }
}
