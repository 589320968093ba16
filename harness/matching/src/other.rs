//! Text, form and binary bodies, and the types of bodies
use moncore::*;
use pact_matching::{match_message, Mismatch};
use pact_models::interaction::{http_interaction_from_json, message_interaction_from_json};
use pact_models::pact::Pact;
use pact_models::v4::pact::V4Pact;
use pact_models::PactSpecification;

use crate::body::Mode;
use crate::parts;
use crate::util::*;

/// Mismatches between a body and the example with its rules
pub fn run(mode: Mode, ct: &str, example: &[u8], rules: &Map<String, Value>, act: &str, actual: &[u8]) -> anyhow::Result<Vec<Mismatch>> {
  let content = |ct: &str, b: &[u8]| json!({"content": b64(b), "contentType": ct, "encoded": "base64"});
  matched(mode, &content(ct, example), rules, &content(act, actual), &json!({}))
}

/// The same, given the bodies as they are written in a pact
pub fn matched(mode: Mode, example: &Value, rules: &Map<String, Value>, actual: &Value, other: &Value) -> anyhow::Result<Vec<Mismatch>> {
  let mut mr = other.clone(); if !rules.is_empty() { mr["body"] = Value::Object(rules.clone()) }
  match mode {
    Mode::Request | Mode::Response => {
      let key = if mode == Mode::Request { "request" } else { "response" };
      let load = |v: &Value, rules: bool| { let mut p = json!({}); if !v.is_null() { p["body"] = v.clone() } if rules { p["matchingRules"] = mr.clone() }
        http_interaction_from_json("case", &json!({"type": "Synchronous/HTTP", "description": "d", key: p}), &PactSpecification::V4).map(|i| i.as_v4_http().unwrap()) };
      let e = load(example, true)?; let a = load(actual, false)?;
      Ok(if mode == Mode::Request { req(&e.request, &a.request).mismatches() } else { res(&e.response, &a.response) })
    }
    Mode::Message => {
      let load = |v: &Value, rules: bool| { let mut p = json!({"type": "Asynchronous/Messages", "description": "d"}); if !v.is_null() { p["contents"] = v.clone() } if rules { p["matchingRules"] = mr.clone() } message_interaction_from_json("case", &p, &PactSpecification::V4) };
      let e = load(example, true)?; let a = load(actual, false)?;
      let p: BoxP = V4Pact::default().boxed();
      Ok(wait(match_message(&e, &a, &p)))
    }
    Mode::Sync => {
      let load = |v: &Value, rules: bool| { let mut q = json!({}); if !v.is_null() { q["contents"] = v.clone() } if rules { q["matchingRules"] = mr.clone() }
        pact_models::v4::interaction::interaction_from_json("case", 0, &json!({"type": "Synchronous/Messages", "description": "d", "request": q.clone(), "response": [q]})).map(|i| i.as_v4_sync_message().unwrap()) };
      let e = load(example, true)?; let a = load(actual, false)?;
      let p: BoxP = V4Pact::default().boxed();
      Ok(wait(pact_matching::match_sync_message(e, a, &p)))
    }
  }
}

fn mode(r: &mut Rng) -> Mode { *r.pick(&[Mode::Request, Mode::Response, Mode::Message, Mode::Sync]) }
fn root(rules: &[Value], logic: &str) -> Map<String, Value> { let mut m = Map::new(); if !rules.is_empty() { m.insert("$".into(), json!({"matchers": rules, "combine": logic})); } m }
type Told = Result<Vec<Mismatch>, Violation>;
fn go(what: &str, m: Mode, ct: &str, e: &[u8], rules: &Map<String, Value>, act: &str, a: &[u8]) -> Told {
  match no_panic(|| run(m, ct, e, rules, act, a)) { Ok(Ok(v)) => Ok(v), Ok(Err(e)) => violated("load", format!("{e}; {what}")), Err(p) => violated("panic", format!("{p}; {what}")) } }
fn path(m: &Mismatch) -> String { match m { Mismatch::BodyMismatch { path, .. } => path.clone(), o => kind(o).into() } }

/// Text bodies: equal, or as the rule for the whole says
fn text(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let t = loop { let mut t = parts::text(r, false, false); if t.label == "boolean" { continue } t.ok.retain(|s| !s.is_empty()); t.bad.retain(|s| !s.is_empty()); if !t.ok.is_empty() { t.ex = t.ok[0].clone(); break t } };
  let two = t.rule.is_some() && r.chance(1, 4);
  let mut rules: Vec<Value> = t.rule.iter().cloned().collect(); if two { rules.push(json!({"match": "notEmpty"})); r.shuffle(&mut rules) }
  let lines = t.rule.is_none() && r.bool(); let wrap = |s: &str| if lines { format!("first\r\n{s}\nlast\n") } else { s.to_string() };
  let m = mode(r); let ct = r.pick_s(&["text/plain", "text/csv", "text/plain; charset=utf-8", "text/markdown", "text/html", "text/x-unheard-of"]);
  let rs = root(&rules, "AND"); let ex = wrap(&t.ex);
  cx.saw((t.label, m as u8, &ct, &ex));
  for good in [true, true, false, false] {
    let a = if good { r.pick(&t.ok).clone() } else { if t.bad.is_empty() { continue } r.pick(&t.bad).clone() }; let a = wrap(&a);
    let what = format!("{m:?} {ct} {ex:?} rules {} actual {a:?}", s(&Value::Object(rs.clone())));
    let ms = go(&what, m, &ct, ex.as_bytes(), &rs, &ct, a.as_bytes())?;
    if good { cx.tick("complying texts"); ensure!(ms.is_empty(), "text-refused", "a text that complies is refused: {}; {what}", show(&ms)) }
    else { cx.tick("differing texts"); ensure!(!ms.is_empty(), "text-missed", "a different text is accepted; {what}"); ensure!(ms.iter().all(|m| path(m) == "$"), "text-place", "the difference is not reported for the whole body: {:?}; {what}", ms.iter().map(path).collect::<Vec<_>>()) }
  }
  Ok(())
}

/// Binary bodies: equal byte by byte, or as the rule for the whole says
fn binary(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let bytes = |r: &mut Rng| -> Vec<u8> { let n = match r.below(4) { 0 => r.range(1, 12), 1 => r.range(1, 40), 2 => r.range(30, 70), _ => r.range(200, 3000) }; let mut v: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect(); v[0] = *r.pick(&[0u8, 0xff, 0x7f, 0x80, b'{', b'a']); v };
  let e = bytes(r);
  let near = |r: &mut Rng, e: &[u8]| -> Vec<u8> { let mut v = e.to_vec(); let i = r.us(v.len()); match r.below(5) { 0 => { v[i] ^= 1 << r.below(8); } 1 => { v.push(0) } 2 => { if v.len() > 1 { v.pop(); } else { v.push(1) } } 3 => { let n = v.len(); v[n - 1] ^= 0x80 } _ => { v.insert(i, 0x20); if v == e { v.push(7) } } } v };
  let m = mode(r); let ct = r.pick_s(&["application/octet-stream", "image/png", "audio/mpeg", "application/pdf", "application/zip", "font/woff2", "video/mp4"]);
  let magic = |r: &mut Rng, k: &str| -> Vec<u8> { let mut v: Vec<u8> = match k { "image/png" => vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10], "image/jpeg" => vec![0xff, 0xd8, 0xff, 0xe0], "image/gif" => b"GIF89a".to_vec(), "application/pdf" => b"%PDF-1.4".to_vec(), _ => vec![0x1f, 0x8b, 8, 0] }; for _ in 0..r.range(0, 30) { v.push(r.below(256) as u8) } v };
  let (label, rules, e, ok, bad): (&str, Vec<Value>, Vec<u8>, Vec<Vec<u8>>, Vec<Vec<u8>>) = match r.below(7) {
    0 | 1 => { let b = vec![near(r, &e), near(r, &e)]; ("plain", vec![], e.clone(), vec![e], b) }
    2 => { let b = vec![near(r, &e), near(r, &e)]; ("equality", vec![json!({"match": "equality"})], e.clone(), vec![e], b) }
    3 => ("regex", vec![json!({"match": "regex", "regex": r"^\d{3}\r\n[a-z]+$"})], b"123\r\nabc".to_vec(), vec![b"000\r\nz".to_vec()], vec![b"12\r\nabc".to_vec(), b"123\r\n".to_vec(), vec![0xff, 0xfe, b'1']]),
    4 => ("include", vec![json!({"match": "include", "value": "é7"})], "aé7b".as_bytes().to_vec(), vec!["é7".as_bytes().to_vec()], vec![b"e7".to_vec(), vec![0xc3, b'7'], "é 7".as_bytes().to_vec()]),
    5 => ("type", vec![json!({"match": "type"})], e.clone(), vec![bytes(r), bytes(r)], vec![]),
    _ => { let ks = ["image/png", "image/jpeg", "image/gif", "application/pdf", "application/gzip"]; let k = *r.pick(&ks); let o = ks.iter().filter(|x| **x != k).map(|k| magic(r, k)).chain([b"just text".to_vec(), vec![0u8, 1, 2, 3]]).collect(); ("content type", vec![json!({"match": "contentType", "value": k})], magic(r, k), vec![magic(r, k), magic(r, k)], o) }
  };
  let (rules, logic) = if rules.is_empty() || r.chance(3, 4) { (rules, "AND") } else { let mut v = rules; let l = if r.bool() { v.push(json!({"match": "regex", "regex": "^never-this$"})); "OR" } else { v.push(json!({"match": "notEmpty"})); "AND" }; r.shuffle(&mut v); (v, l) };
  let rs = root(&rules, logic); cx.saw((label, m as u8, &ct, &e, logic));
  for good in [true, false, false] {
    let a = if good { r.pick(&ok).clone() } else { if bad.is_empty() { continue } r.pick(&bad).clone() };
    let what = format!("{m:?} {ct} {:02x?} rules {} actual {:02x?}", &e[..e.len().min(24)], s(&Value::Object(rs.clone())), &a[..a.len().min(24)]);
    let ms = go(&what, m, &ct, &e, &rs, &ct, &a)?;
    if good { cx.tick("complying contents"); ensure!(ms.is_empty(), format!("binary-refused-{label}"), "contents that comply are refused: {}; {what}", show(&ms)) }
    else { cx.tick("differing contents"); ensure!(!ms.is_empty(), format!("binary-missed-{label}"), "different contents are accepted; {what}"); ensure!(ms.iter().all(|m| path(m) == "$"), "binary-place", "the difference is not reported for the whole body: {:?}; {what}", ms.iter().map(path).collect::<Vec<_>>()) }
  }
  Ok(())
}

fn form_text(r: &mut Rng, ps: &[(String, Vec<String>)]) -> String {
  // the values of one name stay in order
  let mut at: Vec<usize> = vec![0; ps.len()]; let mut o = vec![];
  loop { let open: Vec<usize> = (0..ps.len()).filter(|i| at[*i] < ps[*i].1.len()).collect(); if open.is_empty() { break } let i = *r.pick(&open); let v = &ps[i].1[at[i]]; at[i] += 1;
    let mut enc = |s: &str| -> String { let mut o = String::new(); for c in s.chars() { if c == ' ' { o.push_str(&r.pick_s(&["+", "%20"])) } else if c.is_ascii_alphanumeric() || (".-_*".contains(c) && r.bool()) { if r.chance(1, 10) { o.push_str(&format!("%{:02x}", c as u32)) } else { o.push(c) } } else { for b in c.to_string().bytes() { if r.bool() { o.push_str(&format!("%{b:02X}")) } else { o.push_str(&format!("%{b:02x}")) } } } } o };
    let n = enc(&ps[i].0); let v = enc(v); o.push(format!("{n}={v}")) }
  o.join("&")
}

/// Form bodies: by name, like query parameters
fn form(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let mut names = vec!["q", "Q", "a.b", "x[]", "filter[name]", "with space", "ünï", "page", "x-y", "id", "a&b", "a=b", "50%", "+"]; r.shuffle(&mut names);
  let ps: Vec<(String, parts::Text, usize)> = names[..r.range(1, 4) as usize].iter().map(|n| { let t = if r.chance(1, 6) { parts::sized(r) } else { parts::text(r, false, false) }; let k = if t.label == "sized" { 2 } else if r.chance(1, 3) { r.range(1, 3) as usize } else { 1 }; (n.to_string(), t, k) }).collect();
  let mut rules = Map::new(); for (n, t, _) in &ps { if let Some(x) = &t.rule { rules.insert(crate::tmpl::step("$", n), json!({"matchers": [x], "combine": "AND"})); } }
  let m = mode(r); let ct = "application/x-www-form-urlencoded"; let act = r.pick_s(&[ct, ct, "application/x-www-form-urlencoded; charset=UTF-8"]);
  let ex: Vec<(String, Vec<String>)> = ps.iter().map(|(n, t, k)| (n.clone(), vec![t.ex.clone(); *k])).collect();
  let e = form_text(r, &ex); if e.is_empty() { return Ok(()) }
  let mut l: Vec<_> = ps.iter().map(|p| p.1.label).collect(); l.sort(); cx.saw((&l, m as u8, &e));
  for round in 0..4 {
    let mut wrong: Vec<String> = vec![]; let mut a: Vec<(String, Vec<String>)> = vec![];
    for (n, t, k) in &ps {
      let bad = round > 1 && r.chance(1, 3);
      let count = if t.label == "sized" { r.range(2, 3) as usize } else if t.rule.is_some() && *k > 1 { r.range(1, 4) as usize } else { *k };
      let mut l: Vec<String> = (0..count).map(|_| r.pick(&t.ok).clone()).collect();
      if bad { match r.below(4) {
        0 => { wrong.push(n.clone()); continue }
        1 if t.rule.is_none() => { l.push(t.ex.clone()); wrong.push(n.clone()) }
        2 if t.rule.is_none() && l.len() > 1 => { l.pop(); wrong.push(n.clone()) }
        _ if t.label == "sized" => { if r.bool() { l.truncate(1) } else { while l.len() < 4 { l.push(t.ex.clone()) } } wrong.push(n.clone()) }
        _ => if !t.bad.is_empty() { let i = r.us(l.len()); l[i] = r.pick(&t.bad).clone(); wrong.push(n.clone()) } } }
      a.push((n.clone(), l));
    }
    if round > 1 && r.chance(1, 5) { a.push(("unexpected".into(), vec!["1".into()])); wrong.push("unexpected".into()) }
    let a = if round == 0 { form_text(r, &ex) } else { form_text(r, &a) }; if a.is_empty() { continue }
    let what = format!("{m:?} {e:?} rules {} actual {act} {a:?}", s(&Value::Object(rules.clone())));
    let ms = go(&what, m, ct, e.as_bytes(), &rules, &act, a.as_bytes())?;
    let mut told: Vec<String> = ms.iter().map(|m| path(m).trim_start_matches("$.").to_string()).collect(); told.sort(); told.dedup(); wrong.sort();
    cx.tick(if wrong.is_empty() { "complying forms" } else { "differing forms" });
    ensure!(told == wrong, if wrong.is_empty() { "form-refused" } else { "form-told" }, "the differing fields are {wrong:?} but {told:?} are reported: {}; {what}", show(&ms));
  }
  Ok(())
}

/// The type of a body and whether there is one
fn types(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  // (expected, the same or compatible, others), with one body that is right for all
  let (ct, same, others, body): (&str, &[&str], &[&str], &str) = *r.pick(&[
    ("application/json", &["application/json", "application/json;charset=UTF-8", "Application/JSON", "application/json; a=b; c=d", "application/hal+json", "application/vnd.x.v1+json"][..], &["text/plain", "text/json", "application/xml", "application/jsonp", "image/png"][..], "{\"a\": 1}"),
    ("application/json;charset=utf-8", &["application/json; charset=utf-8", "application/json;charset=UTF-8"][..], &["application/json; charset=utf-16", "application/json", "text/plain;charset=utf-8"][..], "[1]"),
    ("application/hal+json", &["application/hal+json", "application/hal+json; charset=utf-8"][..], &["application/json", "application/hal+xml", "application/ham+json", "text/plain"][..], "{}"),
    ("text/plain", &["text/plain", "TEXT/PLAIN", "text/plain;charset=utf-8", "text/plain; format=flowed"][..], &["text/html", "application/json", "application/octet-stream", "text/plainer"][..], "some text"),
    ("application/xml", &["application/xml", "text/xml", "application/xml; charset=utf-8", "application/soap+xml"][..], &["application/json", "text/plain", "application/xhtml"][..], "<a/>"),
    ("text/xml", &["text/xml", "application/xml"][..], &["text/plain", "application/json"][..], "<a>t</a>"),
    ("application/octet-stream", &["application/octet-stream"][..], &["image/png", "application/json", "text/plain"][..], "\u{1}\u{2}"),
    ("application/x-www-form-urlencoded", &["application/x-www-form-urlencoded", "application/x-www-form-urlencoded;charset=utf-8"][..], &["multipart/form-data", "text/plain", "application/json"][..], "a=b")]);
  let m = *r.pick(&[Mode::Request, Mode::Response, Mode::Message, Mode::Sync]);
  let content = |ct: &str, b: &str| json!({"content": b64(b.as_bytes()), "contentType": ct, "encoded": "base64"});
  let message = m == Mode::Message || m == Mode::Sync;
  let none = Map::new(); let ok = r.bool(); let act = loop { let a = *r.pick(if ok { same } else { others }); if !(ok && message && a.contains('+') != ct.contains('+')) { break a } };
  cx.saw((ct, act, m as u8));
  let ask = |e: &Value, a: &Value| -> Told { let what = format!("{m:?} {} against {}", s(e), s(a)); match no_panic(|| matched(m, e, &none, a, &json!({}))) { Ok(Ok(v)) => Ok(v), Ok(Err(e)) => violated("load", format!("{e}; {what}")), Err(p) => violated("panic", format!("{p}; {what}")) } };
  let ms = ask(&content(ct, body), &content(act, body))?;
  cx.tick(if ok { "compatible types" } else { "different types" });
  let told = kinds(&ms);
  ensure!(if ok { told.is_empty() || message && told == ["metadata"] && !act.eq_ignore_ascii_case(ct) } else { !ms.is_empty() && told.contains(&"body-type") }, if ok { "type-refused" } else { "type-missed" }, "{m:?} a body of {act} for one of {ct} (the body itself is equal): {}", show(&ms));
  // another body with a different type is a difference in any case
  let other = format!("{body}x"); let ms = ask(&content(ct, body), &content(act, &other))?; cx.tick("different bodies");
  ensure!(!ms.is_empty(), "different", "{m:?} {ct} {body:?} against {act} {other:?} is accepted");
  // nothing expected: anything goes; expected but absent, and expected to be absent
  ensure!(ask(&Value::Null, &content(act, body))?.is_empty(), "unasked", "{m:?} a body of {act} is refused though nothing is said about the body");
  ensure!(ask(&Value::Null, &Value::Null)?.is_empty(), "unasked", "{m:?} no body is refused though nothing is said about the body");
  let ms = ask(&content(ct, body), &Value::Null)?; ensure!(if message { !ms.is_empty() } else { kinds(&ms) == ["body"] }, "absent", "{m:?} {ct} {body:?} against no body: {}", show(&ms));
  let ms = ask(&content(ct, body), &json!({"content": ""}))?; ensure!(if message { !ms.is_empty() } else { kinds(&ms) == ["body"] }, "empty", "{m:?} {ct} {body:?} against an empty body: {}", show(&ms));
  let ms = ask(&json!({"content": ""}), &content(act, body))?; ensure!(kinds(&ms) == ["body"], "not-empty", "{m:?} an empty body is expected and a body of {act} accepted: {}", show(&ms));
  ensure!(ask(&json!({"content": ""}), &json!({"content": ""}))?.is_empty(), "both-empty", "{m:?} two empty bodies differ");
  ensure!(ask(&json!({"content": ""}), &Value::Null)?.is_empty(), "both-empty", "{m:?} no body is refused where an empty one is expected");
  cx.tick("present, empty and absent bodies");
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P33", level: "exploration",
    rule: "Seeded text, binary and form bodies with and without rules, and bodies of every pair of types, present, empty and absent, as the body of requests, responses and messages, against ones that comply and ones with known differences. Non-trivial: each distinct kind of rule, example and kind of interaction.",
    assumptions: vec!["The detection of binary types is by stand-ins of the libraries, which know the magic numbers used here."],
    phases: vec![phase("text", 6000, text), phase("binary", 6000, binary), phase("forms", 6000, form), phase("types", 5000, types)],
    floors: vec![("complying texts", 10000), ("differing texts", 8000), ("complying contents", 5000), ("differing contents", 8000), ("complying forms", 9000), ("differing forms", 4000), ("compatible types", 2000), ("different types", 2000)],
    probes: vec![]
  }
}
