//! Content types, their detection and the reading of bodies (P17); headers and the content type of a part (P18).
use std::collections::{BTreeMap, HashMap};
use moncore::*;
use pact_models::bodies::OptionalBody;
use pact_models::content_types::{detect_content_type_from_bytes, detect_content_type_from_string, ContentType, ContentTypeHint};
use pact_models::headers::parse_header;
use pact_models::http_parts::HttpPart;
use pact_models::message::Message;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::message_parts::MessageContents;
use crate::gen;

// ---------------------------------------------------------------- content types

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ct { main: String, sub: String, suffix: Option<String>, attrs: BTreeMap<String, String> }

const MAINS: [&str; 12] = ["application", "application", "application", "text", "image", "audio", "video", "font", "multipart", "message", "model", "x-acme"];
const SUBS: [&str; 22] = ["json", "xml", "plain", "html", "hal", "vnd.acme.v1", "x-www-form-urlencoded", "octet-stream", "json-rpc", "json-patch", "graphql", "svg", "atom", "soap", "png", "form-data", "mixed", "vnd.api", "problem", "pdf", "jsonx", "x"];
const SUFFIXES: [&str; 6] = ["json", "xml", "zip", "cbor", "yaml", "jwt"];
const ANAMES: [&str; 8] = ["charset", "profile", "boundary", "version", "q", "type", "a", "b"];
const TOKEN: [char; 22] = ['a', 'b', 'Z', 'x', '0', '9', '-', '.', '_', '!', '#', '$', '&', '\'', '*', '+', '^', '`', '|', '~', '%', 'u'];
const TEXTY: [char; 22] = ['a', 'B', '0', ' ', ' ', '/', ':', ';', ',', '=', '?', '@', '(', ')', '<', '>', '[', ']', '{', '}', 'é', '日'];

fn token(s: &str) -> bool { !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || "!#$&'*+-.^_`|~".contains(c) || c == '%') }

fn ct(r: &mut Rng) -> Ct {
  let main = r.pick_s(&MAINS);
  let sub = if r.chance(1, 6) { r.string_from(&['a', 'b', 'x', '1', '-', '.', '_'], 1, 8) } else { r.pick_s(&SUBS) };
  let suffix = if r.chance(2, 5) { Some(r.pick_s(&SUFFIXES)) } else { None };
  let n = if r.bool() { 0 } else { r.range(1, 3) };
  let mut attrs = BTreeMap::new();
  for _ in 0..n {
    let k = r.pick_s(&ANAMES);
    let v = if k == "charset" { r.pick_s(&["utf-8", "iso-8859-1", "utf-16", "us-ascii"]) } else if r.bool() { r.string_from(&TOKEN, 1, 8) } else { r.string_from(&TEXTY, 1, 10) };
    attrs.insert(k, v);
  }
  Ct { main, sub, suffix, attrs }
}

fn case(r: &mut Rng, s: &str, vary: bool) -> String { if !vary { return s.into() } s.chars().map(|c| if r.chance(1, 4) { c.to_ascii_uppercase() } else { c }).collect() }

/// One of the spellings of a content type
fn spell(r: &mut Rng, c: &Ct) -> String {
  let vary = r.chance(1, 3);
  let mut s = format!("{}/{}", case(r, &c.main, vary), case(r, &c.sub, vary));
  if let Some(x) = &c.suffix { s.push('+'); s.push_str(&case(r, x, vary)); }
  let mut attrs: Vec<_> = c.attrs.iter().collect();
  r.shuffle(&mut attrs);
  let n = attrs.len();
  for (k, v) in attrs {
    s.push_str(&";".to_string()); for _ in 0..r.pick(&[0, 0, 1, 1, 2]).clone() { s.push(' ') }
    s.push_str(&case(r, k, vary)); s.push('=');
    let v = if k == "charset" { case(r, v, vary) } else { v.clone() };
    // the library's media type parser loses track of a quoted character set that other attributes follow
    if token(&v) && (k == "charset" && n > 1 || r.chance(2, 3)) { s.push_str(&v) } else { s.push('"'); s.push_str(&v); s.push('"'); if r.chance(1, 8) { s.push(' ') } }
  }
  s
}

fn same(a: &ContentType, c: &Ct) -> bool { a.main_type == c.main && a.sub_type == c.sub && a.suffix == c.suffix && a.attributes == c.attrs }

fn kinds(t: &ContentType) -> [bool; 7] { [t.is_json(), t.is_xml(), t.is_strict_xml(), t.is_text(), t.is_binary(), t.is_unknown(), t.is_form_urlencoded()] }

/// json, xml, strict xml, text, binary, unknown, form
fn expected_kinds(c: &Ct) -> [bool; 7] {
  let app = c.main == "application";
  let sfx = c.suffix.as_deref();
  let json = app && (sfx == Some("json") || c.sub.starts_with("json") || c.sub == "graphql");
  let strict = (app || c.main == "text") && c.sub == "xml";
  let xml = strict || (app || c.main == "text") && sfx == Some("xml");
  let form = app && c.sub == "x-www-form-urlencoded";
  let text = c.main == "text" || json || xml || form;
  [json, xml, strict, text, !text, false, form]
}

fn ct_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let c = ct(r);
  let s = spell(r, &c);
  cx.note(format!("{:?} {:?}", s, c));
  let got = match no_panic(|| ContentType::parse(s.as_str())) { Ok(g) => g, Err(p) => return violated("panic", format!("parsing {:?} panicked: {}", s, p)) };
  let t = match got { Ok(t) => t, Err(e) => return violated("refused", format!("{:?} is refused: {}", s, e)) };
  ensure!(same(&t, &c), "meaning", "{:?} states {:?}, read as {:?}", s, c, t);
  for (how, x) in [("From<&str>", ContentType::from(s.as_str())), ("From<String>", ContentType::from(s.clone())), ("From<&String>", ContentType::from(&s)), ("FromStr", s.parse::<ContentType>().unwrap_or_default())] {
    ensure!(x == t, "conversions", "{:?} by {} is {:?}", s, how, x);
  }
  ensure!(t == s.as_str() && t == *s.as_str(), "text-equality", "{:?} does not equal its text", s);
  // printing
  let p = t.to_string();
  let into: String = (&t).into();
  ensure!(p == into, "print-forms", "{:?} and {:?}", p, into);
  match ContentType::parse(p.as_str()) {
    Ok(back) => ensure!(back == t, "print", "{:?} prints as {:?}, which is read as {:?}", t, p, back),
    Err(e) => return violated("print", format!("{:?} prints as {:?}, which is refused: {}", t, p, e))
  }
  ensure!(ContentType::from(p.as_str()).to_string() == p, "print-stable", "{:?}", p);
  // the kind
  let want = expected_kinds(&c);
  ensure!(kinds(&t) == want, "kind", "{:?}: json, xml, strict xml, text, binary, unknown, form = {:?}, expected {:?}", s, kinds(&t), want);
  cx.tick(if want[0] { "JSON types" } else if want[1] { "XML types" } else if want[3] { "other text types" } else { "binary types" });
  let b = t.base_type();
  let wb = Ct { main: c.main.clone(), sub: c.suffix.clone().unwrap_or(c.sub.clone()), suffix: None, attrs: Default::default() };
  ensure!(same(&b, &wb), "base-type", "the base type of {:?} is {:?}", s, b);
  // covering another type
  let o = match r.below(6) {
    0 => ct(r), 1 => c.clone(), 2 => Ct { attrs: ct(r).attrs, ..c.clone() }, 3 => Ct { suffix: ct(r).suffix, ..c.clone() }, 4 => Ct { main: if c.main == "text" { "application".into() } else { "text".into() }, ..c.clone() },
    _ => { let mut o = c.clone(); if let Some(v) = o.attrs.values_mut().next() { v.push('x') } else { o.sub.push('x') } o }
  };
  let os = spell(r, &o);
  let ot = ContentType::from(os.as_str());
  ensure!(same(&ot, &o), "meaning", "{:?} states {:?}, read as {:?}", os, o, ot);
  ensure!((t == ot) == (c == o), "equality", "{:?} == {:?} is {}", s, os, t == ot);
  let both_xml = expected_kinds(&c)[2] && expected_kinds(&o)[2] ;
  let cover = |a: &Ct, b: &Ct| (if both_xml { true } else { a.main == b.main && a.sub == b.sub && a.suffix == b.suffix }) && (a.attrs.is_empty() || a.attrs == b.attrs);
  // a suffix on xml itself (application/xml+json) has no settled meaning
  if !(both_xml && (c.suffix.is_some() || o.suffix.is_some())) {
    ensure!(t.is_equivalent_to(&ot) == cover(&c, &o), "equivalence", "{:?} covers {:?}: {}, expected {}", s, os, t.is_equivalent_to(&ot), cover(&c, &o));
    ensure!(ot.is_equivalent_to(&t) == cover(&o, &c), "equivalence", "{:?} covers {:?}: {}, expected {}", os, s, ot.is_equivalent_to(&t), cover(&o, &c));
    cx.tick(if cover(&c, &o) { "covering pairs" } else { "pairs that do not cover" });
  }
  if !c.attrs.is_empty() { cx.tick("types with attributes") }
  if c.attrs.values().any(|v| !token(v)) { cx.tick("attributes that need quotes") }
  cx.saw(s);
  Ok(())
}

fn junk_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let s = match r.below(3) {
    0 => gen::text(r),
    1 => { let c = ct(r); let mut s: Vec<char> = spell(r, &c).chars().collect(); let i = r.us(s.len()); if r.bool() { s.remove(i); } else { s[i] = *r.pick(&['"', '/', ';', ' ', '\n', '=', 'é', '+', ',']); } s.into_iter().collect() }
    _ => (0..r.range(0, 12)).map(|_| r.pick_s(&["/", ";", "=", "\"", "a", "charset", "utf-8", " ", "+", "*", "é", "text", ","])).collect()
  };
  cx.note(format!("{:?}", s));
  let t = match no_panic(|| { let t = ContentType::parse(s.as_str()); let d = ContentType::from(s.as_str()); (t, d) }) { Ok(t) => t, Err(p) => return violated("panic", format!("{:?}: {}", s, p)) };
  match t {
    (Ok(t), d) => { ensure!(t == d, "conversions", "{:?}", s);
      ensure!(t.is_text() != t.is_binary() , "kind", "{:?} is text: {} and binary: {}", s, t.is_text(), t.is_binary());
      ensure!(s.contains('/'), "accepted", "{:?} is accepted as {:?}", s, t);
      cx.tick("accepted texts") }
    (Err(_), d) => { ensure!(d.is_unknown() && d == ContentType::default(), "conversions", "{:?} refused but {:?}", s, d); ensure!(d != s.as_str(), "text-equality", "{:?}", s); cx.tick("refused texts") }
  }
  cx.saw(s);
  Ok(())
}

// ---------------------------------------------------------------- detection

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Doc { Json, Xml, Html }

fn ws(r: &mut Rng) -> String { if r.chance(3, 4) { String::new() } else { r.string_from(&[' ', '\n', '\t', '\r'], 1, 3) } }

fn xml(r: &mut Rng, depth: u32) -> String {
  let n = r.pick_s(&["a", "note", "ns:b", "Item", "x-1", "soap:Envelope", "é", "div", "body", "htmlx", "doctype"]);
  let attrs: String = (0..r.below(3)).map(|i| format!(" {}{}=\"{}\"", r.pick_s(&["id", "xmlns:ns", "k"]), i, gen::word(r))).collect();
  if depth == 0 || r.chance(1, 4) { return format!("<{}{}/>", n, attrs) }
  let inner = if r.bool() { gen::word(r) } else { (0..r.range(1, 2)).map(|_| xml(r, depth - 1)).collect() };
  format!("<{}{}>{}</{}>", n, attrs, inner, n)
}

fn document(r: &mut Rng) -> (Doc, String) {
  let lead = ws(r);
  match r.below(6) {
    0 | 1 | 2 => {
      let v = match r.below(4) { 0 => gen::jscalar(r), 1 => { let k = r.pick_s(&["$ref", "@id", "", "-", " x", "#", "日本", "/a", "é", "~", "."]); json!({ k: gen::jvalue(r, 1), "x": gen::text(r) }) }, _ => gen::jvalue(r, 3) };
      let v = if r.chance(1, 10) { json!(-(r.range(1, 1000) as f64) / 4.0) } else { v };
      let s = if r.bool() { v.to_string() } else { serde_json::to_string_pretty(&v).unwrap() };
      (Doc::Json, format!("{}{}", lead, s))
    }
    3 | 4 => {
      let decl = match r.below(5) { 0 => "<?xml version=\"1.0\"?>".to_string(), 1 => "<?xml version='1.1' encoding='UTF-8' standalone='yes' ?>\n".into(), 2 => "<?xml\tversion = \"1.0\"?>".into(), _ => String::new() };
      (Doc::Xml, format!("{}{}{}", if decl.is_empty() { lead } else { String::new() }, decl, xml(r, 3)))
    }
    _ => {
      let head = case(r, &r.clone().pick_s(&["<!doctype html>", "<!doctype html public \"-//w3c//dtd html 4.01//en\">", "<html>", "<html lang=\"en\">", "<html\n class='x'>"]), true);
      (Doc::Html, format!("{}{}<head><title>{}</title></head><body>{}</body></html>", lead, head, gen::word(r), gen::text(r)))
    }
  }
}

fn name(d: Doc) -> &'static str { match d { Doc::Json => "application/json", Doc::Xml => "application/xml", Doc::Html => "text/html" } }

fn detect_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let (kind, s) = document(r);
  cx.note(format!("{:?} {:?}", kind, s));
  let a = detect_content_type_from_string(&s);
  ensure!(a.as_ref().map(|c| c.to_string()).as_deref() == Some(name(kind)), "detect-text", "{:?} is detected as {:?}", s, a.map(|c| c.to_string()));
  let b = detect_content_type_from_bytes(s.as_bytes());
  ensure!(b.as_ref().map(|c| c.to_string()).as_deref() == Some(name(kind)), "detect-bytes", "the bytes of {:?} are detected as {:?}", s, b.map(|c| c.to_string()));
  if s.len() > 32 && !s.is_char_boundary(32) { cx.tick("characters across the inspected length"); }
  cx.tick(match kind { Doc::Json => "JSON documents", Doc::Xml => "XML documents", Doc::Html => "HTML documents" });
  // ordinary prose and bytes that are no text
  let prose = format!("{}{}", r.pick_s(&["Hello", "lorem", "The", "x;", "(a)", "Ünï", "&", "日本", "%PDF", "\u{1F600}"]), gen::text(r));
  let p = detect_content_type_from_bytes(prose.as_bytes());
  ensure!(p.as_ref().map(|c| c.to_string()).as_deref() == Some("text/plain"), "detect-prose", "the bytes of {:?} are detected as {:?}", prose, p.map(|c| c.to_string()));
  ensure!(detect_content_type_from_string(&prose).map(|c| c.to_string()).as_deref() == Some("text/plain"), "detect-prose", "{:?}", prose);
  let mut bin = gen::bytes(r, 1, 60); let at = r.us(bin.len().min(20)); bin.insert(at, *r.pick(&[0xffu8, 0xfe, 0xc0, 0xf8]));
  ensure!(detect_content_type_from_bytes(&bin).is_none(), "detect-binary", "{:?} is detected as {:?}", bin, detect_content_type_from_bytes(&bin));
  cx.saw(s);
  Ok(())
}

// ---------------------------------------------------------------- bodies as text

fn hex(b: &[u8]) -> String { b.iter().map(|x| { let d = |n: u8| if n < 10 { (b'0' + n) as char } else { (b'A' + n - 10) as char }; format!("{}{}", d(x >> 4), d(x & 15)) }).collect() }

fn body_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let data = match r.below(5) { 4 if r.chance(1, 10) => { let n = *r.pick(&[250, 1000, 4090, 8190, 66000]) as usize; let mut s = String::new(); while s.len() < n { s.push_str(&gen::text1(r)) } s.into_bytes() } 0 => gen::bytes(r, 1, 70), 1 => { let n = r.range(30, 34); gen::bytes(r, n, n) }, 2 => { let mut v = gen::jvalue(r, 2).to_string(); v.push_str(&gen::text(r)); v.into_bytes() } _ => gen::text1(r).into_bytes() };
  let c = if r.chance(1, 5) { None } else { let mut c = ct(r); if r.bool() { let mut q = c.clone(); q.main = "text".into(); c = q } Some(c) };
  let hint = match r.below(6) { 0 => Some(ContentTypeHint::TEXT), 1 => Some(ContentTypeHint::BINARY), 2 => Some(ContentTypeHint::DEFAULT), _ => None };
  let typ = c.as_ref().map(|c| ContentType::from(spell(r, c).as_str()));
  cx.note(format!("{:?} {:?} {:?}", data, typ, hint));
  let b = OptionalBody::Present(data.clone().into(), typ.clone(), hint);
  let text = match hint { Some(ContentTypeHint::TEXT) => true, Some(ContentTypeHint::BINARY) => false, _ => c.as_ref().map(|c| expected_kinds(c)[3]).unwrap_or(false) };
  let utf = String::from_utf8(data.clone()).ok();
  let want = if text { utf.clone() } else { None };
  ensure!(b.value_as_string() == want, "text-of-body", "body {:?} of type {:?} with hint {:?}: text {:?}, expected {:?}", data, c, hint, b.value_as_string(), want);
  let shown = want.clone().unwrap_or_else(|| if data.len() <= 32 { format!("{} ({} bytes)", hex(&data), data.len()) } else { format!("{}... ({} bytes)", hex(&data[..32]), data.len()) });
  ensure!(b.display_string() == shown, "shown-body", "body {:?} of type {:?} with hint {:?} is shown as {:?}, expected {:?}", data, c, hint, b.display_string(), shown);
  ensure!(b.is_present() && b.value().as_deref() == Some(&data[..]), "value", "{:?}", data);
  ensure!(b.has_content_type() == typ.is_some() && b.content_type() == typ, "body-type", "{:?}", data);
  // changing the type leaves the data and the hint
  let other = ContentType::from("text/csv;a=b");
  for (how, n, want) in [("with_content_type", b.with_content_type(Some(other.clone())), Some(other.clone())), ("with_content_type(None)", b.with_content_type(None), None),
    ("with_content_type_if_not_set", b.with_content_type_if_not_set(Some(other.clone())), typ.clone().or(Some(other.clone()))),
    ("set_content_type", { let mut x = b.clone(); x.set_content_type(&other); x }, Some(other.clone()))] {
    match &n { OptionalBody::Present(d, t, h) if d[..] == data[..] && *t == want && *h == hint => (), _ => return violated("change-type", format!("{} of {:?} {:?} {:?} gives {:?}", how, data, typ, hint, n)) }
  }
  for e in [OptionalBody::Missing, OptionalBody::Empty, OptionalBody::Null] {
    ensure!(!e.is_present() && e.value().is_none() && e.value_as_string().is_none() && e.display_string().is_empty() && !e.has_content_type() && e.content_type().is_none(), "absent", "{:?}", e);
    let mut x = e.clone(); x.set_content_type(&other);
    ensure!(std::mem::discriminant(&e.with_content_type(Some(other.clone()))) == std::mem::discriminant(&e) && std::mem::discriminant(&x) == std::mem::discriminant(&e) && std::mem::discriminant(&e.with_content_type_if_not_set(Some(other.clone()))) == std::mem::discriminant(&e), "absent", "{:?}", e);
  }
  // what is not text, or is not there, is not a textual body; plain text is
  let all = data.iter().all(|b| b.is_ascii());
  for (b, want) in [(b.clone(), if !text { Some(false) } else if all { Some(true) } else { None }), (OptionalBody::Present(vec![].into(), typ.clone(), hint), Some(false)), (OptionalBody::Missing, Some(false)), (OptionalBody::Empty, Some(false)), (OptionalBody::Null, Some(false))] {
    let q = pact_models::request::Request { body: b.clone(), ..Default::default() };
    if let Some(want) = want { ensure!(q.has_text_body() == want, "textual-part", "a request with the body {:?} says {} to whether it is text", b, q.has_text_body()); cx.tick("parts asked whether they are text"); }
  }
  let s = gen::text(r);
  let f = OptionalBody::from(s.as_str());
  ensure!(f == OptionalBody::from(s.clone()) && if s.is_empty() { matches!(f, OptionalBody::Empty) } else { f.value().as_deref() == Some(s.as_bytes()) }, "from-text", "{:?} {:?}", s, f);
  let v = gen::jvalue(r, 2);
  let f = OptionalBody::from(&v);
  ensure!(f.value().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) == Some(v.clone()) && f.content_type().map(|c| c.is_json()) == Some(true), "from-json", "{:?} {:?}", v, f);
  cx.tick(if want.is_some() { "text bodies" } else if text { "text bodies that are not UTF-8" } else { "binary bodies" });
  if hint == Some(ContentTypeHint::DEFAULT) { cx.tick("bodies with the default hint") }
  cx.saw((data, format!("{:?}{:?}", typ, hint)));
  Ok(())
}

pub fn types() -> Property {
  Property {
    id: "P17", level: "exploration",
    rule: "A content type is what its text states and prints as text that states the same; its kind, equality and what it covers follow from that; JSON, XML and HTML documents are recognised; a body is text exactly where its hint or type says so.",
    assumptions: vec!["attribute values are tokens or quoted text without quotes or backslashes, as the media type parser the library builds on supports", "documents begin within a few characters of white space"],
    phases: vec![phase("content types", 30000, ct_case), phase("arbitrary texts", 15000, junk_case), phase("detection", 15000, detect_case), phase("bodies", 15000, body_case)],
    floors: vec![("JSON types", 2000), ("XML types", 300), ("other text types", 2000), ("binary types", 2000), ("covering pairs", 2000), ("pairs that do not cover", 5000), ("types with attributes", 5000), ("attributes that need quotes", 1500), ("accepted texts", 500), ("refused texts", 2000),
      ("JSON documents", 3000), ("XML documents", 2000), ("HTML documents", 1000), ("characters across the inspected length", 50), ("text bodies", 2000), ("binary bodies", 2000), ("bodies with the default hint", 500), ("parts asked whether they are text", 20000)],
    probes: vec![]
  }
}

// ---------------------------------------------------------------- headers

const HNAMES: [&str; 16] = ["Content-Type", "accept", "X-Test", "x-request-id", "ETag", "Date", "Set-Cookie", "WWW-Authenticate", "Link", "Retry-After", "a", "X_1", "Test", "x_test", "Content-Types", "xtest"];

fn any_case(r: &mut Rng, s: &str) -> String {
  match r.below(4) { 0 => s.to_lowercase(), 1 => s.to_uppercase(), 2 => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(), _ => s.into() }
}

fn hvalue(r: &mut Rng) -> String { match r.below(5) { 0 => String::new(), 1 => "text/html;q=0.8, */*".into(), 2 => "Mon, 01 Dec 2008 01:15:39 GMT".into(), 3 => gen::text(r), _ => gen::word(r) } }

/// The four kinds of HTTP part behind one face
enum Part { A(Request), B(Response), C(HttpRequest), D(HttpResponse) }

impl Part {
  fn new(k: u64) -> Part { match k { 0 => Part::A(Request::default()), 1 => Part::B(Response::default()), 2 => Part::C(HttpRequest::default()), _ => Part::D(HttpResponse::default()) } }
  fn http(&self) -> &dyn HttpView { match self { Part::A(x) => x, Part::B(x) => x, Part::C(x) => x, Part::D(x) => x } }
  fn http_mut(&mut self) -> &mut dyn HttpView { match self { Part::A(x) => x, Part::B(x) => x, Part::C(x) => x, Part::D(x) => x } }
  fn name(&self) -> &'static str { match self { Part::A(_) => "request", Part::B(_) => "response", Part::C(_) => "V4 request", Part::D(_) => "V4 response" } }
}

trait HttpView {
  fn hs(&self) -> Option<HashMap<String, Vec<String>>>;
  fn put(&mut self, k: &str, v: &[&str]);
  fn set(&mut self, k: &str, v: &[&str]) -> bool;
  fn find(&self, k: &str) -> Option<String>;
  fn has(&self, k: &str) -> bool;
  fn raw_type(&self) -> Option<String>;
  fn types(&self) -> Vec<Option<ContentType>>;
  fn body(&mut self, b: OptionalBody);
}
macro_rules! view { ($t:ty, |$x:ident, $k:ident, $v:ident| $set:expr, |$y:ident| $types:expr) => { impl HttpView for $t {
  fn hs(&self) -> Option<HashMap<String, Vec<String>>> { self.headers.clone() }
  fn put(&mut self, k: &str, v: &[&str]) { self.add_header(k, v.to_vec()) }
  fn set(&mut self, $k: &str, $v: &[&str]) -> bool { let $x = self; $set }
  fn find(&self, k: &str) -> Option<String> { self.lookup_header_value(k) }
  fn has(&self, k: &str) -> bool { self.has_header(k) }
  fn raw_type(&self) -> Option<String> { self.lookup_content_type() }
  fn types(&self) -> Vec<Option<ContentType>> { let $y = self; $types }
  fn body(&mut self, b: OptionalBody) { self.body = b }
} } }
view!(Request, |x, k, v| { let _ = (x, k, v); false }, |x| vec![x.content_type()]);
view!(Response, |x, k, v| { let _ = (x, k, v); false }, |x| vec![x.content_type()]);
view!(HttpRequest, |x, k, v| { x.set_header(k, v); true }, |x| vec![x.content_type(), HttpPart::content_type(x)]);
view!(HttpResponse, |x, k, v| { x.set_header(k, v); true }, |x| vec![x.content_type(), HttpPart::content_type(x)]);

fn header_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let mut p = Part::new(r.below(4));
  let mut model: Vec<(String, Vec<String>)> = vec![];
  let mut touched = false;
  let names = { let mut n = HNAMES.to_vec(); r.shuffle(&mut n); n.truncate(5); n };
  cx.note(p.name());
  for _ in 0..r.range(1, 12) {
    let k = { let n = *r.pick(&names); any_case(r, n) };
    let vals: Vec<String> = (0..r.range(1, 3)).map(|_| hvalue(r)).collect();
    let refs: Vec<&str> = vals.iter().map(|s| s.as_str()).collect();
    let op = if r.bool() { "set" } else { "add" };
    let done = if op == "set" { p.http_mut().set(&k, &refs) } else { false };
    if !done { p.http_mut().put(&k, &refs) }
    touched = true;
    cx.note(format!("{} {:?} {:?}", if done { "set" } else { "add" }, k, vals));
    match model.iter_mut().find(|(n, _)| n.eq_ignore_ascii_case(&k)) { Some((n, v)) => { if *n != k { cx.tick("headers replaced under another case") } *v = vals }, None => model.push((k.clone(), vals)) }
    let got = p.http().hs().unwrap_or_default();
    let want: HashMap<String, Vec<String>> = model.iter().cloned().collect();
    ensure!(got == want, "change", "headers of the {} are {:?}, expected {:?}", p.name(), got, want);
    for n in &names {
      let k = any_case(r, n);
      let want = model.iter().find(|(n, _)| n.eq_ignore_ascii_case(&k)).map(|(_, v)| v.join(", "));
      ensure!(p.http().find(&k) == want && p.http().has(&k) == want.is_some(), "lookup", "{} looked up {:?} in {:?}: {:?}", p.name(), k, model, p.http().find(&k));
      cx.tick("lookups");
    }
    let want = model.iter().find(|(n, _)| n.eq_ignore_ascii_case("content-type")).map(|(_, v)| v.join(", "));
    ensure!(p.http().raw_type() == want, "lookup-type", "{:?} in {:?}", p.http().raw_type(), model);
  }
  ensure!(touched == p.http().hs().is_some(), "presence", "{:?}", p.http().hs());
  cx.saw(format!("{:?}", model));
  Ok(())
}

/// The headers of a message are entries of its metadata
fn message_header_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let mut m = Message { metadata: HashMap::new(), ..Message::default() };
  let mut model: Vec<(String, Value)> = vec![];
  let names = { let mut n = vec![r.pick_s(&["contentType", "Content-Type"]), "key".into(), "X-Test".into(), "content".into()]; n.truncate(r.range(1, 4) as usize); n };
  let mut history = vec![];
  for _ in 0..r.range(1, 8) {
    let k = { let n: String = r.pick(&names).clone(); any_case(r, &n) };
    let vals: Vec<String> = (0..r.below(4)).map(|_| hvalue(r)).collect();
    m.add_header(&k, vals.iter().map(|s| s.as_str()).collect());
    history.push(format!("{:?} {:?}", k, vals));
    let v = match vals.len() { 0 => Value::Null, 1 => json!(vals[0]), _ => json!(vals) };
    match model.iter_mut().find(|(n, _)| n.eq_ignore_ascii_case(&k)) { Some((n, x)) => { if *n != k { cx.tick("message headers replaced under another case") } *x = v } None => model.push((k.clone(), v)) }
    let want: HashMap<String, Value> = model.iter().cloned().collect();
    ensure!(m.metadata == want, "message-change", "after adding {:?} the metadata is {:?}, expected {:?}", history, m.metadata, want);
    let ct = model.iter().find(|(n, _)| ["contenttype", "content-type"].contains(&n.to_ascii_lowercase().as_str())).map(|(_, v)| match v { Value::Array(a) => &a[0], v => v });
    if ct.map(|v| !v.is_null()).unwrap_or(true) { ensure!(m.lookup_content_type() == ct.map(|v| v.as_str().unwrap().to_string()), "message-lookup-type", "after adding {:?} the content type is {:?}", history, m.lookup_content_type()); }
    cx.tick("message headers added");
  }
  cx.saw(history);
  Ok(())
}

const ONE_VALUE: [&str; 9] = ["Date", "Accept-Datetime", "If-Modified-Since", "If-Unmodified-Since", "Expires", "Retry-After", "Last-Modified", "Set-Cookie", "User-Agent"];

fn parse_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let single = r.bool();
  let n = if single { r.pick_s(&ONE_VALUE) } else { r.pick_s(&["Accept", "Vary", "X-Test", "Cache-Control", "Allow", "Dates", "Set-Cookie2", "X-Date", "Cookie", "Via", "If-Match"]) };
  let k = any_case(r, &n);
  let parts: Vec<String> = (0..r.range(1, 4)).map(|_| match r.below(4) { 0 => String::new(), 1 => "max-age=0; q=\"x\"".into(), 2 => "Mon 01".into(), _ => gen::text(r).replace(',', "") }).collect();
  let pad = |r: &mut Rng| -> String { (0..r.below(3)).map(|_| *r.pick(&[' ', '\t'])).collect() };
  let text = { let v: Vec<String> = parts.iter().map(|p| format!("{}{}{}", pad(r), p, pad(r))).collect(); v.join(",") };
  cx.note(format!("{:?}: {:?}", k, text));
  let want: Vec<String> = if single { vec![text.trim().to_string()] } else { parts.iter().map(|p| p.trim().to_string()).collect() };
  let got = match no_panic(|| parse_header(&k, &text)) { Ok(g) => g, Err(e) => return violated("panic", e) };
  ensure!(got == want, "parse", "{:?}: {:?} is read as {:?}, expected {:?}", k, text, got, want);
  // the same as a document's header, as text and as a list
  let list: Vec<String> = (0..r.range(1, 3)).map(|_| gen::text(r)).collect();
  let doc = json!({ "headers": { k.clone(): text, "X-List": list } });
  let h = pact_models::json_utils::headers_from_json(&doc).unwrap_or_default();
  ensure!(h.get(&k) == Some(&want) && h.get("X-List") == Some(&list) && h.len() == 2, "document", "{} is read as {:?}", doc, h);
  cx.tick(if single { "headers of one value" } else { "lists of values" });
  cx.saw((k, text));
  Ok(())
}

// ---------------------------------------------------------------- the content type of a part

fn type_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let (data, detected): (Vec<u8>, Option<&str>) = match r.below(5) {
    0 => { let mut b = gen::bytes(r, 1, 30); b.insert(0, 0xff); (b, None) }
    1 => (format!("lorem {}", gen::text(r)).into_bytes(), Some("text/plain")),
    _ => { let (k, s) = document(r); (s.into_bytes(), Some(name(k))) }
  };
  let stated = if r.chance(1, 3) { let c = ct(r); Some((spell(r, &c), c)) } else { None };
  let header = match r.below(5) { 0 | 1 => None, 2 => Some((r.pick_s(&["", "junk", "a b/c", "/json"]), None)), _ => { let c = ct(r); let s = spell(r, &c); Some((s, Some(c))) } };
  let empty = r.chance(1, 8);
  let body = if empty { r.pick(&[OptionalBody::Missing, OptionalBody::Empty, OptionalBody::Null]).clone() } else { OptionalBody::Present(data.clone().into(), stated.as_ref().map(|(s, _)| ContentType::from(s.as_str())), None) };
  cx.note(format!("body {:?} header {:?}", body, header));
  // what it should be
  let det = |x: Option<&str>| x.map(|d| ContentType::from(d));
  let want: Option<ContentType> = if let (Some((_, c)), false) = (&stated, empty) { Some(ContentType { main_type: c.main.clone(), sub_type: c.sub.clone(), suffix: c.suffix.clone(), attributes: c.attrs.clone() }) }
    else if let Some((_, Some(c))) = &header { Some(ContentType { main_type: c.main.clone(), sub_type: c.sub.clone(), suffix: c.suffix.clone(), attributes: c.attrs.clone() }) }
    else if empty { None } else { det(detected) };
  let source = if stated.is_some() && !empty { "from the body" } else if matches!(header, Some((_, Some(_)))) { "from the header" } else if empty { "of nothing" } else if header.is_some() { "detected past an unreadable header" } else { "detected" };
  for i in 0..4 {
    let mut p = Part::new(i);
    p.http_mut().body(body.clone());
    if r.chance(1, 3) { p.http_mut().put("Accept", &["*/*"]); p.http_mut().put("X-Content-Type", &["text/never"]); }
    if let Some((h, _)) = &header { let k = any_case(r, "Content-Type"); p.http_mut().put(&k, &[h]); }
    for t in p.http().types() { ensure!(t == want, "part-type", "the type of a {} with body {:?} and header {:?} is {:?}, expected {:?}", p.name(), body, header, t, want); }
  }
  // messages carry it in their metadata
  let mut meta: HashMap<String, Value> = HashMap::new();
  if r.chance(1, 3) { meta.insert("a".into(), json!(1)); meta.insert("content".into(), json!("text/never")); }
  if let Some((h, _)) = &header {
    let k = match r.below(4) { 0 => any_case(r, "Content-Type"), 1 => any_case(r, "contentType"), _ => "contentType".into() };
    meta.insert(k, if r.chance(1, 6) { json!([h]) } else { json!(h) });
  }
  let m = Message { contents: body.clone(), metadata: meta.clone(), ..Message::default() };
  let c = MessageContents { contents: body.clone(), metadata: meta.clone(), ..MessageContents::default() };
  for (what, t) in [("V3 message", m.message_content_type()), ("V3 message part", m.content_type()), ("V4 message", c.message_content_type()), ("V4 message part", c.content_type()),
    ("asynchronous message", AsynchronousMessage { contents: c.clone(), ..AsynchronousMessage::default() }.content_type())] {
    ensure!(t == want, "message-type", "the type of a {} with contents {:?} and metadata {:?} is {:?}, expected {:?}", what, body, meta, t, want);
  }
  cx.tick(match source { "from the body" => "types from the body", "from the header" => "types from a header", "of nothing" => "types of nothing", "detected" => "types detected", _ => "types detected past an unreadable header" });
  cx.saw((data, format!("{:?}{:?}", stated, header)));
  Ok(())
}

/// A document whose body states no content type takes it from the header, in whatever case
fn loaded_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let v = match r.below(3) { 0 => gen::jobject(r, 2), 1 => Value::Array(vec![gen::jvalue(r, 2)]), _ => json!(-r.range(0, 1000)) };
  let header = if r.bool() { let c = loop { let c = ct(r); if expected_kinds(&c)[0] { break c } }; Some((any_case(r, "content-type"), spell(r, &c), c)) } else { None };
  let mut hs = Map::new();
  if let Some((k, s, _)) = &header { hs.insert(k.clone(), if r.bool() { json!([s]) } else { json!(s) }); }
  hs.insert("X-Other".into(), json!("text/never"));
  // a list written as one text is split at its commas; keep to types it does not concern
  if let Some((_, s, _)) = &header { if s.contains(',') { for (k, v) in hs.iter_mut() { if k != "X-Other" { *v = json!([s]) } } } }
  let want = match &header { Some((_, _, c)) => ContentType { main_type: c.main.clone(), sub_type: c.sub.clone(), suffix: c.suffix.clone(), attributes: c.attrs.clone() }, None => ContentType::from("application/json") };
  let d4 = json!({ "headers": hs, "body": { "content": v } });
  let d3 = json!({ "headers": hs, "body": v });
  cx.note(format!("{}", d4));
  let mut bodies = vec![];
  bodies.push(("V4 request", HttpRequest::from_json(&d4).map(|x| x.body)));
  bodies.push(("V4 response", HttpResponse::from_json(&d4).map(|x| x.body)));
  bodies.push(("V3 request", Request::from_json(&d3, &pact_models::PactSpecification::V3).map(|x| x.body)));
  bodies.push(("V3 response", Response::from_json(&d3, &pact_models::PactSpecification::V3).map(|x| x.body)));
  let md = |wrap: bool| { let mut m = Map::new(); if let Some((k, s, _)) = &header { m.insert(if wrap { k.clone() } else { "contentType".into() }, json!(s)); } m };
  let dm = json!({ "metadata": md(r.bool()), "contents": { "content": v } });
  bodies.push(("V4 message", MessageContents::from_json(&dm).map(|x| x.contents)));
  for (what, b) in bodies {
    let b = match b { Ok(b) => b, Err(e) => return violated("refused", format!("{} {}: {}", what, d4, e)) };
    ensure!(b.value().and_then(|x| serde_json::from_slice::<Value>(&x).ok()).as_ref() == Some(&v), "loaded-body", "{} {} / {}: {:?}", what, d4, dm, b);
    ensure!(b.content_type().as_ref() == Some(&want), "loaded-type", "the body of a {} loaded from {} / {} has type {:?}, expected {:?}", what, d4, dm, b.content_type(), want);
  }
  cx.tick(if header.is_some() { "loaded with a header" } else { "loaded without a header" });
  cx.saw(d4.to_string());
  Ok(())
}

pub fn headers() -> Property {
  Property {
    id: "P18", level: "exploration",
    rule: "Headers are set, replaced and found whatever the case of their name; a header's text is split into its values except where it holds one; the content type of a part is the body's, else the header's or metadata's, else what is detected.",
    assumptions: vec!["header names are ASCII", "a part states at most one content type value"],
    phases: vec![phase("header histories", 15000, header_case), phase("message headers", 6000, message_header_case), phase("header texts", 15000, parse_case), phase("part types", 8000, type_case), phase("loaded bodies", 8000, loaded_case)],
    floors: vec![("message headers added", 10000), ("message headers replaced under another case", 1000), ("headers replaced under another case", 3000), ("lookups", 50000), ("headers of one value", 3000), ("lists of values", 3000), ("types from the body", 1000), ("types from a header", 1000), ("types of nothing", 200), ("types detected", 500), ("types detected past an unreadable header", 300), ("loaded with a header", 2000), ("loaded without a header", 2000)],
    probes: vec![]
  }
}
