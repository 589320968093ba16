//! Specification versions (P24) and fetching pacts over HTTP (P25).
use std::io::{Read, Write};
use std::net::TcpListener;
use std::time::Duration;
use moncore::*;
use pact_models::http_utils::{fetch_json_from_url, HttpAuth};
use pact_models::message_pact::MessagePact;
use pact_models::pact::{determine_spec_version, load_pact_from_json, load_pact_from_url, parse_meta_data, Pact};
use pact_models::sync_pact::RequestResponsePact;
use pact_models::PactSpecification;
use serde_json::{json, Value};
use crate::gen;

const SUPPORTED: [(PactSpecification, &str, &str, u64, u64); 5] = [
  (PactSpecification::V1, "1.0.0", "V1", 1, 0), (PactSpecification::V1_1, "1.1.0", "V1.1", 1, 1), (PactSpecification::V2, "2.0.0", "V2", 2, 0),
  (PactSpecification::V3, "3.0.0", "V3", 3, 0), (PactSpecification::V4, "4.0", "V4", 4, 0)];

fn spelled(r: &mut Rng) -> (String, PactSpecification, bool) {
  let major = *r.pick(&[0u64, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 10, 11, 21, 34, 44, 255, 1000]);
  let minor = *r.pick(&[0u64, 0, 0, 1, 1, 2, 3, 10, 11, 100]);
  let patch = *r.pick(&[0u64, 0, 1, 2, 7, 42]);
  let (s, minor) = match r.below(4) { 0 => (format!("{}", major), 0), 1 => (format!("{}.{}", major, minor), minor), _ => (format!("{}.{}.{}", major, minor, patch), minor) };
  let v = match (major, minor) { (1, 1) => PactSpecification::V1_1, (1, _) => PactSpecification::V1, (2, _) => PactSpecification::V2, (3, _) => PactSpecification::V3, (4, _) => PactSpecification::V4, _ => PactSpecification::Unknown };
  let supported = matches!((major, minor), (1, 0) | (1, 1) | (2, 0) | (3, 0) | (4, 0));
  (s, v, supported)
}

fn stated_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let (text, version, supported) = spelled(r);
  // the version on its own
  let p = match no_panic(|| PactSpecification::parse_version(text.as_str())) { Ok(p) => p, Err(e) => return violated("version-panics", format!("parse_version({:?}) panicked: {}", text, e)) };
  ensure!(match &p { Ok(v) => supported && *v == version, Err(_) => !supported }, "version-misread", "{:?} is read as {:?}, a supported version: {}", text, p, supported);
  cx.tick(if supported { "supported versions" } else { "unsupported versions" });
  // the version stated by a document
  let other = spelled(r).0;
  let key = r.pick_s(&["pactSpecification", "pactSpecification", "pact-specification"]);
  let messages = r.chance(1, 3);
  let mut doc = json!({"consumer": {"name": gen::word(r)}, "provider": {"name": gen::word(r)}});
  doc[if messages { "messages" } else { "interactions" }] = json!([]);
  let (metadata, want, what): (Option<Value>, Vec<PactSpecification>, &'static str) = match r.below(12) {
    0 => (None, vec![PactSpecification::V3], "no metadata"),
    1 => (Some(gen::jscalar(r)), vec![PactSpecification::V3], "metadata of another type"),
    2 => (Some(json!({ (gen::word(r)): {"version": other} })), vec![PactSpecification::V3], "version of something else"),
    3 => (Some(json!({ (key.clone()): {} })), vec![PactSpecification::V3], "specification without a version"),
    4 => { let v = r.pick_s(&["", "latest", "one", ".", "x.y.z", "three"]); (Some(json!({ (key.clone()): {"version": v} })), vec![PactSpecification::Unknown], "version that is none") }
    5 => (Some(json!({ "pact-specification": {"version": other}, "pactSpecification": {"version": text} })), vec![version], "both names"),
    6 if !text.contains('.') => (Some(json!({ (key.clone()): {"version": text.parse::<u64>().unwrap()} })), vec![version], "version as a number"),
    _ => (Some(json!({ (key.clone()): {"version": text}, (gen::word(r)): {"version": other} })), vec![version], "version stated")
  };
  if let Some(m) = metadata { doc["metadata"] = m }
  let got = determine_spec_version("doc", &parse_meta_data(&doc));
  ensure!(want.contains(&got), "stated-version-misread", "{} states version {:?}, read as {:?}", doc, want, got);
  cx.tick(what); cx.saw(&(what, format!("{:?}", got), messages));
  // the document is loaded as that version, and as the kind of pact that version has
  let pact = match no_panic(|| load_pact_from_json("doc", &doc)) { Ok(Ok(p)) => p, Ok(Err(e)) => return violated("not-loaded", format!("{} is not loaded: {}", doc, e)), Err(e) => return violated("load-panics", format!("{}: {}", doc, e)) };
  let loaded = pact.specification_version();
  ensure!(loaded == got, "loaded-as-other-version", "{} states {:?} and is loaded as {:?}", doc, got, loaded);
  ensure!(pact.is_v4() == (got == PactSpecification::V4), "v4-ness", "{}: is_v4 {}", doc, pact.is_v4());
  if got != PactSpecification::V4 {
    let back = match pact.to_json(PactSpecification::V3) { Ok(b) => b, Err(e) => return violated("not-written", format!("{}: {}", doc, e)) };
    ensure!(back.get("messages").is_some() == messages && back.get("interactions").is_some() != messages, "kind-of-pact", "{} is written as {}", doc, back);
  }
  // written at a version, it states that version
  for (v, stated, _, _, _) in SUPPORTED.iter() {
    if messages && *v < PactSpecification::V3 { continue }
    if got == PactSpecification::V4 && messages { continue }
    let out = match pact.to_json(*v) { Ok(o) => o, Err(e) => return violated("not-written", format!("{} at {:?}: {}", doc, v, e)) };
    ensure!(out["metadata"]["pactSpecification"]["version"] == json!(stated), "wrong-version-written", "{} written at {} states {}", doc, stated, out["metadata"]);
    let again = determine_spec_version("doc", &parse_meta_data(&out));
    ensure!(again == *v, "written-version-misread", "{} written at {} reads as {:?}", doc, stated, again);
    let reloaded = match load_pact_from_json("doc", &out) { Ok(p) => p, Err(e) => return violated("not-reloaded", format!("{}: {}", out, e)) };
    ensure!(reloaded.specification_version() == *v && reloaded.is_v4() == (*v == PactSpecification::V4), "reloaded-as-other-version", "{} reloads as {:?}", out, reloaded.specification_version());
    cx.tick("written at a version");
  }
  Ok(())
}

fn names_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let (v, stated, name, ..) = SUPPORTED[r.us(5)];
  ensure!(v.version_str() == stated && v.to_string() == name, "version-names", "{:?}: {} {}", v, v.version_str(), v);
  ensure!(matches!(PactSpecification::parse_version(v.version_str()), Ok(p) if p == v), "version-names", "{:?} is not read back from {}", v, v.version_str());
  let s: String = v.to_string().chars().map(|c| if r.bool() { c.to_ascii_lowercase() } else { c }).collect();
  for got in [PactSpecification::from(s.as_str()), PactSpecification::from(&s), PactSpecification::from(s.clone())] { ensure!(got == v, "version-names", "{} is {:?}", s, got); }
  let j = serde_json::to_value(v).unwrap();
  ensure!(serde_json::from_value::<PactSpecification>(j.clone()).map(|b| b == v).unwrap_or(false), "version-names", "{} is not read back", j);
  let junk = match r.below(3) { 0 => gen::text(r), 1 => r.pick_s(&["V5", "V0", "V1.2", "V1.0", "VV1", "V", "1", "V11", "V1_1", "V2.0", "unknown", " V1", "V4 "]), _ => format!("{}{}", name, gen::word(r)) };
  if !["V1", "V1.1", "V2", "V3", "V4"].contains(&junk.to_uppercase().as_str()) {
    ensure!(PactSpecification::from(junk.as_str()) == PactSpecification::Unknown, "junk-version", "{:?} is {:?}", junk, PactSpecification::from(junk.as_str()));
    cx.tick("names of no version");
  }
  if let Err(e) = no_panic(|| PactSpecification::parse_version(junk.as_str()).is_ok()) { return violated("version-panics", format!("parse_version({:?}) panicked: {}", junk, e)) }
  let (w, _, _, major, minor) = SUPPORTED[r.us(5)];
  let (_, _, _, m, n) = *SUPPORTED.iter().find(|x| x.0 == v).unwrap();
  ensure!(v.partial_cmp(&w) == Some((m, n).cmp(&(major, minor))) && PactSpecification::Unknown < v, "version-order", "{:?} against {:?}: {:?}", v, w, v.partial_cmp(&w));
  cx.tick("names of versions"); cx.saw(&(name, w.to_string()));
  Ok(())
}

pub fn versions() -> Property {
  Property {
    id: "P24", level: "exploration",
    rule: "the version a document states in its metadata, in every place and spelling, against the number written there; the names, numbers and order of the versions; the version stated by what is written",
    assumptions: vec!["a document that states no version, or one that is no version, may be taken for either the unknown version or V3, as the loader documents"],
    phases: vec![phase("stated versions", 20_000, stated_case), phase("names", 4_000, names_case)],
    floors: vec![("supported versions", 3_000), ("unsupported versions", 3_000), ("version stated", 3_000), ("both names", 500), ("no metadata", 500), ("version as a number", 100), ("names of no version", 1_000), ("written at a version", 10_000)],
    probes: vec![]
  }
}

// ---------------------------------------------------------------- fetching

struct Scripted { url: String, host: String, server: std::thread::JoinHandle<Option<(String, Vec<(String, String)>)>> }

/// Answers one request with the given bytes and returns what was asked
fn serve(target: &str, answer: Vec<u8>) -> Scripted {
  // a run of many thousands of connections can use up the local ports for a while
  let l = (0..600u32).find_map(|i| match TcpListener::bind(format!("127.0.0.{}:0", 1 + i % 200)) { Ok(l) => Some(l), Err(_) => { std::thread::sleep(Duration::from_millis(100)); None } }).expect("loopback");
  let host = l.local_addr().unwrap().to_string();
  let server = std::thread::spawn(move || {
    l.set_nonblocking(true).ok()?;
    let start = std::time::Instant::now();
    let mut s = loop {
      match l.accept() { Ok((s, _)) => break s, Err(_) if start.elapsed() < Duration::from_secs(10) => std::thread::sleep(Duration::from_micros(200)), Err(_) => return None }
    };
    s.set_nonblocking(false).ok()?;
    s.set_read_timeout(Some(Duration::from_secs(10))).ok()?;
    let mut buf = vec![]; let mut chunk = [0u8; 4096];
    while !buf.windows(4).any(|w| w == b"\r\n\r\n") { match s.read(&mut chunk) { Ok(0) | Err(_) => break, Ok(n) => buf.extend_from_slice(&chunk[..n]) } }
    let _ = s.write_all(&answer); let _ = s.flush();
    let text = String::from_utf8_lossy(&buf).to_string();
    let mut lines = text.split("\r\n");
    let first = lines.next().unwrap_or("").to_string();
    Some((first, lines.filter_map(|l| l.split_once(':').map(|(k, v)| (k.trim().to_lowercase(), v.trim().to_string()))).collect()))
  });
  Scripted { url: format!("http://{}{}", host, target), host, server }
}

fn secret(r: &mut Rng) -> String { r.string_from(&['a', 'b', 'C', '1', '9', '-', '_', '.', '~', '+', '/', '=', '!', '$', '&'], 0, 24) }

fn fetch_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let auth = match r.below(6) {
    0 => None, 1 => Some(HttpAuth::None),
    2 => Some(HttpAuth::User(r.string_from(&['u', 's', 'é', '@', '-', '1', ' '], 0, 9), None)),
    3 => Some(HttpAuth::User(r.string_from(&['u', 's', 'é', '@', '-', '1', ' '], 0, 9), Some(format!("{}{}", secret(r), r.pick_s(&["", ":", "é", " x"]))))),
    _ => Some(HttpAuth::Token(format!("t{}", secret(r))))
  };
  let header = match &auth {
    Some(HttpAuth::User(u, p)) => Some(format!("Basic {}", b64(format!("{}:{}", u, p.clone().unwrap_or_default()).as_bytes()))),
    Some(HttpAuth::Token(t)) => Some(format!("Bearer {}", t)),
    _ => None
  };
  let target = r.pick_s(&["/", "/pacts/provider/a/consumer/b/latest", "/p?tag=x&y=%20z", "/a%20b.json"]);
  let message = r.chance(1, 3);
  let doc = match r.below(3) { 0 => gen::pact_v4(r).doc, 1 => gen::message_pact_v3(r).doc, _ => { let s = *r.pick(&[gen::Spec::V1, gen::Spec::V2, gen::Spec::V3]); gen::pact_v123(r, s).doc } };
  let text = if r.bool() { doc.to_string() } else { serde_json::to_string_pretty(&doc).unwrap() };
  let status = match r.below(3) { 0 => 200, 1 => *r.pick(&[200u16, 201, 202, 203, 206, 226, 299]), _ => *r.pick(&[400u16, 401, 403, 404, 410, 429, 500, 502, 503, 599]) };
  let (answer, good, what): (Vec<u8>, bool, &'static str) = match r.below(10) {
    0 => { let junk = r.pick_s(&["", "<html></html>", "{\"a\":", "not json", "[1,2", "{} {}"]); (format!("HTTP/1.1 {} X\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n{}", status, junk.len(), junk).into_bytes(), false, "body that is not JSON") }
    1 => { let b = text.as_bytes(); let cut = r.us(b.len().max(1)); let mut a = format!("HTTP/1.1 {} X\r\ncontent-length: {}\r\n\r\n", status, b.len()).into_bytes(); a.extend_from_slice(&b[..cut]); (a, false, "body cut short") }
    2 => (vec![], false, "connection closed"),
    _ => (format!("HTTP/1.1 {} X\r\ncontent-type: {}\r\ncontent-length: {}\r\n\r\n{}", status, r.pick_s(&["application/json", "application/hal+json;charset=utf-8"]), text.len(), text).into_bytes(), status < 300, if status < 300 { "served" } else { "refused by status" })
  };
  let s = serve(&target, answer);
  let url = s.url.clone();
  let way = r.below(4);
  type Loaded = Result<(Option<String>, Value), String>;
  let loaded = |p: &dyn Pact| -> Loaded { let v = p.specification_version(); let v = if v == PactSpecification::Unknown { PactSpecification::V3 } else { v }; p.to_json(v).map(|j| (None, j)).map_err(|e| format!("write {}", e)) };
  let got: Loaded = match no_panic(|| match way {
    0 => fetch_json_from_url(&url, &auth).map(|(u, v)| (Some(u), v)).map_err(|e| e.to_string()),
    1 => load_pact_from_url(&url, &auth).map_err(|e| e.to_string()).and_then(|p| loaded(p.as_ref())),
    2 if message => MessagePact::from_url(&url, &auth).map_err(|e| e.to_string()).and_then(|p| loaded(&p)),
    _ => RequestResponsePact::from_url(&url, &auth).map_err(|e| e.to_string()).and_then(|p| loaded(&p))
  }) { Ok(g) => g, Err(e) => return violated("fetch-panics", format!("fetching {} ({}) panicked: {}", url, what, e)) };
  let local: Loaded = match way {
    0 => Ok((Some(url.clone()), doc.clone())),
    1 => load_pact_from_json(&url, &doc).map_err(|e| e.to_string()).and_then(|p| loaded(p.as_ref())),
    2 if message => MessagePact::from_json(&url, &doc).map_err(|e| e.to_string()).and_then(|p| loaded(&p)),
    _ => RequestResponsePact::from_json(&url, &doc).map_err(|e| e.to_string()).and_then(|p| loaded(&p))
  };
  let asked = s.server.join().unwrap();
  if asked.is_none() && matches!(&got, Err(e) if e.contains("os error 99") || e.contains("os error 98")) { cx.tick("no local port was free"); return Ok(()) }
  let Some((line, headers)) = asked else { return violated("nothing-asked", format!("{} was never asked for; the outcome was {:?}", url, got)) };
  ensure!(line == format!("GET {} HTTP/1.1", target), "wrong-request", "asked {:?} for {}", line, url);
  ensure!(headers.iter().any(|(k, v)| k == "host" && *v == s.host), "wrong-host", "{:?}", headers);
  let auths: Vec<&String> = headers.iter().filter(|(k, _)| k == "authorization").map(|(_, v)| v).collect();
  ensure!(auths == header.iter().collect::<Vec<_>>(), "wrong-credentials", "sent {:?}, expected {:?} for {:?}", auths, header, auth);
  if good {
    match (&got, &local) {
      (Ok(g), Ok(l)) => ensure!(g == l, "fetched-differs", "fetched {:?}, the document loads as {:?}", g, l),
      (Err(_), Err(_)) => cx.tick("served but no pact of that kind"),
      (g, l) => return violated("fetched-differs", format!("fetched {:?}, the document loads as {:?}", g, l))
    }
  } else {
    match &got {
      Ok(g) => return violated("failure-accepted", format!("{} with status {} gave {:?}", what, status, g)),
      Err(e) => for x in [&header].into_iter().flatten() { ensure!(!e.contains(x.as_str()), "secret-in-error", "{} reveals {}", e, x); }
    }
  }
  cx.tick(what);
  match &header { Some(h) if h.starts_with("Basic") => cx.tick("with a user"), Some(_) => cx.tick("with a token"), None => cx.tick("without credentials") }
  cx.saw(&(what, status, way, header.is_some()));
  Ok(())
}

fn display_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let chars = ['a', 'b', 'q', '1', '9', 'é', '日', '-', ':', '*', ' '];
  let pass = r.string_from(&chars, 1, 14).replace('*', "x");
  let hidden = |s: &str, whole: &str| -> bool { let n = whole.chars().count(); let shown = whole.chars().take(if n > 4 { 5 } else { n }).collect::<String>(); whole.chars().all(|c| c == '*') || !s.contains(&shown) || shown.chars().all(|c| c == '*') };
  let user = r.string_from(&['U', 'S', 'R'], 0, 6);
  // delimiters of the display itself may spell a secret, those cases say nothing
  for (a, text) in [(HttpAuth::Token(pass.clone()), "Token"), (HttpAuth::User(user.clone(), Some(pass.clone())), "User")] {
    let d = match no_panic(|| a.to_string()) { Ok(d) => d, Err(e) => return violated("display-panics", format!("{:?}: {}", a, e)) };
    let inner = d.trim_start_matches(text).trim_start_matches('(').trim_end_matches(')').to_string();
    let shown = if text == "User" { inner.splitn(2, ", ").nth(1).unwrap_or("").to_string() } else { inner };
    ensure!(d.starts_with(text) && hidden(&shown, &pass), "secret-displayed", "{:?} is displayed as {}", a, d);
    if text == "User" && !user.is_empty() { ensure!(d.contains(&user), "user-not-displayed", "{:?}: {}", a, d); }
    cx.tick("secrets displayed");
  }
  ensure!(HttpAuth::None.is_none() && !HttpAuth::Token(pass.clone()).is_none() && !HttpAuth::User(user, None).is_none(), "is-none", "is_none");
  cx.saw(&pass.chars().count());
  Ok(())
}

pub fn fetch() -> Property {
  Property {
    id: "P25", level: "exploration",
    rule: "pacts fetched over loopback HTTP against the document served: what is asked, the credentials sent, the pact loaded, and failures (status, truncated or unreadable body, closed connection) reported as such",
    assumptions: vec!["the HTTP client is the stand-in of /verif/shims/reqwest, which speaks HTTP/1.1 over a loopback socket; redirects, TLS and proxies are not exercised"],
    phases: vec![phase("fetches", 3_000, fetch_case), phase("secrets", 4_000, display_case)],
    floors: vec![("served", 500), ("refused by status", 300), ("body cut short", 100), ("body that is not JSON", 100), ("connection closed", 100), ("with a user", 300), ("with a token", 300), ("without credentials", 300), ("secrets displayed", 4_000)],
    probes: vec![]
  }
}
