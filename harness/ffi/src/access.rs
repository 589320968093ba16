//! P52: what the C accessors give back is what the pact says, is the caller's own, and is released with the delete functions.
use std::collections::BTreeMap;
use std::ffi::{c_void, CStr};
use std::cell::Cell;
use libc::{c_char, c_int, c_uchar, c_uint, size_t};
use moncore::*;
use serde_json::{json, Value};
use crate::text::Text;

/// Counts what the thread has allocated and not yet released.
pub struct Counting;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
fn count(n: i64) { let _ = LIVE.try_with(|l| l.set(l.get() + n)); }
unsafe impl std::alloc::GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { count(l.size() as i64); std::alloc::System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { count(-(l.size() as i64)); std::alloc::System.dealloc(p, l) }
  unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { count(n as i64 - l.size() as i64); std::alloc::System.realloc(p, l, n) }
}

type P = *mut c_void;
#[repr(C)] struct Pair { key: *const c_char, value: *const c_char }
#[repr(C)] struct Keyed { path: *const c_char, thing: P }
#[repr(C)] struct Triple { a: *const c_char, b: *const c_char, c: *const c_char }

extern "C" {
  fn pactffi_string_delete(p: *mut c_char);
  fn pactffi_parse_matcher_definition(e: *const c_char) -> P;
  fn pactffi_matcher_definition_error(d: P) -> *const c_char;
  fn pactffi_matcher_definition_value(d: P) -> *const c_char;
  fn pactffi_matcher_definition_value_type(d: P) -> c_int;
  fn pactffi_matcher_definition_generator(d: P) -> P;
  fn pactffi_matcher_definition_iter(d: P) -> P;
  fn pactffi_matcher_definition_delete(d: P);
  fn pactffi_matching_rule_iter_next(i: P) -> P;
  fn pactffi_matching_rule_iter_delete(i: P);
  fn pactffi_matching_rule_id(r: P) -> u16;
  fn pactffi_matching_rule_value(r: P) -> *const c_char;
  fn pactffi_matching_rule_pointer(r: P) -> P;
  fn pactffi_matching_rule_reference_name(r: P) -> *const c_char;
  fn pactffi_matches_string_value(r: P, a: *const c_char, b: *const c_char, c: u8) -> *const c_char;
  fn pactffi_matches_i64_value(r: P, a: i64, b: i64, c: u8) -> *const c_char;
  fn pactffi_matches_u64_value(r: P, a: u64, b: u64, c: u8) -> *const c_char;
  fn pactffi_match_message(a: P, b: P) -> P;
  fn pactffi_mismatches_get_iter(m: P) -> P;
  fn pactffi_mismatches_delete(m: P);
  fn pactffi_mismatches_iter_next(i: P) -> P;
  fn pactffi_mismatches_iter_delete(i: P);
  fn pactffi_mismatch_to_json(m: P) -> *const c_char;
  fn pactffi_mismatch_type(m: P) -> *const c_char;
  fn pactffi_mismatch_summary(m: P) -> *const c_char;
  fn pactffi_mismatch_description(m: P) -> *const c_char;
  fn pactffi_mismatch_ansi_description(m: P) -> *const c_char;
  fn pactffi_validate_datetime(v: *const c_char, f: *const c_char) -> c_int;
  fn pactffi_get_error_message(b: *mut c_char, n: c_int) -> c_int;
  fn pactffi_parse_pact_json(json: *const c_char) -> P;
  fn pactffi_pact_model_delete(p: P);
  fn pactffi_pact_model_interaction_iterator(p: P) -> P;
  fn pactffi_pact_interaction_iter_next(p: P) -> P;
  fn pactffi_pact_interaction_iter_delete(p: P);
  fn pactffi_pact_spec_version(p: P) -> c_int;
  fn pactffi_pact_get_consumer(p: P) -> P;
  fn pactffi_consumer_get_name(p: P) -> *const c_char;
  fn pactffi_pact_consumer_delete(p: P);
  fn pactffi_pact_get_provider(p: P) -> P;
  fn pactffi_provider_get_name(p: P) -> *const c_char;
  fn pactffi_pact_provider_delete(p: P);
  fn pactffi_pact_interaction_as_synchronous_http(p: P) -> P;
  fn pactffi_pact_interaction_as_message(p: P) -> P;
  fn pactffi_pact_interaction_as_asynchronous_message(p: P) -> P;
  fn pactffi_pact_interaction_as_synchronous_message(p: P) -> P;
  // HTTP
  fn pactffi_sync_http_delete(p: P);
  fn pactffi_sync_http_get_request(p: P) -> P;
  fn pactffi_sync_http_get_response(p: P) -> P;
  fn pactffi_sync_http_get_request_contents(p: P) -> *const c_char;
  fn pactffi_sync_http_get_request_contents_length(p: P) -> size_t;
  fn pactffi_sync_http_get_request_contents_bin(p: P) -> *const c_uchar;
  fn pactffi_sync_http_set_request_contents(p: P, c: *const c_char, ct: *const c_char);
  fn pactffi_sync_http_set_request_contents_bin(p: P, c: *const c_uchar, n: size_t, ct: *const c_char);
  fn pactffi_sync_http_get_response_contents(p: P) -> *const c_char;
  fn pactffi_sync_http_get_response_contents_length(p: P) -> size_t;
  fn pactffi_sync_http_get_response_contents_bin(p: P) -> *const c_uchar;
  fn pactffi_sync_http_set_response_contents(p: P, c: *const c_char, ct: *const c_char);
  fn pactffi_sync_http_set_response_contents_bin(p: P, c: *const c_uchar, n: size_t, ct: *const c_char);
  fn pactffi_sync_http_get_description(p: P) -> *const c_char;
  fn pactffi_sync_http_set_description(p: P, d: *const c_char) -> c_int;
  fn pactffi_sync_http_get_provider_state(p: P, n: c_uint) -> P;
  fn pactffi_sync_http_get_provider_state_iter(p: P) -> P;
  fn pactffi_request_contents_get_matching_rule_iter(p: P, c: c_int) -> P;
  fn pactffi_response_contents_get_matching_rule_iter(p: P, c: c_int) -> P;
  fn pactffi_message_contents_get_matching_rule_iter(p: P, c: c_int) -> P;
  fn pactffi_matching_rules_iter_next(p: P) -> *const Keyed;
  fn pactffi_matching_rules_iter_pair_delete(p: *const Keyed);
  fn pactffi_matching_rules_iter_delete(p: P);
  fn pactffi_matching_rule_to_json(p: P) -> *const c_char;
  fn pactffi_request_contents_get_generators_iter(p: P, c: c_int) -> P;
  fn pactffi_response_contents_get_generators_iter(p: P, c: c_int) -> P;
  fn pactffi_message_contents_get_generators_iter(p: P, c: c_int) -> P;
  fn pactffi_generators_iter_next(p: P) -> *const Keyed;
  fn pactffi_generators_iter_pair_delete(p: *const Keyed);
  fn pactffi_generators_iter_delete(p: P);
  fn pactffi_generator_to_json(p: P) -> *const c_char;
  // states
  fn pactffi_provider_state_get_name(p: P) -> *const c_char;
  fn pactffi_provider_state_get_param_iter(p: P) -> P;
  fn pactffi_provider_state_param_iter_next(p: P) -> *mut Pair;
  fn pactffi_provider_state_param_pair_delete(p: *mut Pair);
  fn pactffi_provider_state_param_iter_delete(p: P);
  fn pactffi_provider_state_delete(p: P);
  fn pactffi_provider_state_iter_next(p: P) -> P;
  fn pactffi_provider_state_iter_delete(p: P);
  // messages
  fn pactffi_async_message_delete(p: P);
  fn pactffi_async_message_get_contents(p: P) -> P;
  fn pactffi_async_message_generate_contents(p: P) -> P;
  fn pactffi_async_message_get_contents_str(p: P) -> *const c_char;
  fn pactffi_async_message_get_contents_length(p: P) -> size_t;
  fn pactffi_async_message_get_contents_bin(p: P) -> *const c_uchar;
  fn pactffi_async_message_set_contents_str(p: P, c: *const c_char, ct: *const c_char);
  fn pactffi_async_message_set_contents_bin(p: P, c: *const c_uchar, n: size_t, ct: *const c_char);
  fn pactffi_async_message_get_description(p: P) -> *const c_char;
  fn pactffi_async_message_set_description(p: P, d: *const c_char) -> c_int;
  fn pactffi_async_message_get_provider_state(p: P, n: c_uint) -> P;
  fn pactffi_async_message_get_provider_state_iter(p: P) -> P;
  fn pactffi_message_contents_delete(p: P);
  fn pactffi_message_contents_get_contents_str(p: P) -> *const c_char;
  fn pactffi_message_contents_get_contents_length(p: P) -> size_t;
  fn pactffi_message_contents_get_contents_bin(p: P) -> *const c_uchar;
  fn pactffi_message_contents_set_contents_str(p: P, c: *const c_char, ct: *const c_char);
  fn pactffi_message_contents_set_contents_bin(p: P, c: *const c_uchar, n: size_t, ct: *const c_char);
  fn pactffi_message_contents_get_metadata_iter(p: P) -> P;
  fn pactffi_message_metadata_iter_next(p: P) -> *mut Pair;
  fn pactffi_message_metadata_pair_delete(p: *mut Pair);
  fn pactffi_message_metadata_iter_delete(p: P);
  fn pactffi_sync_message_delete(p: P);
  fn pactffi_sync_message_get_request_contents(p: P) -> P;
  fn pactffi_sync_message_generate_request_contents(p: P) -> P;
  fn pactffi_sync_message_get_request_contents_str(p: P) -> *const c_char;
  fn pactffi_sync_message_get_request_contents_length(p: P) -> size_t;
  fn pactffi_sync_message_get_request_contents_bin(p: P) -> *const c_uchar;
  fn pactffi_sync_message_set_request_contents_str(p: P, c: *const c_char, ct: *const c_char);
  fn pactffi_sync_message_set_request_contents_bin(p: P, c: *const c_uchar, n: size_t, ct: *const c_char);
  fn pactffi_sync_message_get_number_responses(p: P) -> size_t;
  fn pactffi_sync_message_get_response_contents(p: P, n: size_t) -> P;
  fn pactffi_sync_message_generate_response_contents(p: P, n: size_t) -> P;
  fn pactffi_sync_message_get_response_contents_str(p: P, n: size_t) -> *const c_char;
  fn pactffi_sync_message_get_response_contents_length(p: P, n: size_t) -> size_t;
  fn pactffi_sync_message_get_response_contents_bin(p: P, n: size_t) -> *const c_uchar;
  fn pactffi_sync_message_set_response_contents_str(p: P, n: size_t, c: *const c_char, ct: *const c_char);
  fn pactffi_sync_message_set_response_contents_bin(p: P, n: size_t, c: *const c_uchar, len: size_t, ct: *const c_char);
  fn pactffi_sync_message_get_description(p: P) -> *const c_char;
  fn pactffi_sync_message_set_description(p: P, d: *const c_char) -> c_int;
  fn pactffi_sync_message_get_provider_state(p: P, n: c_uint) -> P;
  fn pactffi_sync_message_get_provider_state_iter(p: P) -> P;
  // V3 messages
  fn pactffi_message_delete(p: P);
  fn pactffi_message_get_contents(p: P) -> *const c_char;
  fn pactffi_message_get_contents_length(p: P) -> size_t;
  fn pactffi_message_get_contents_bin(p: P) -> *const c_uchar;
  fn pactffi_message_set_contents(p: P, c: *const c_char, ct: *const c_char);
  fn pactffi_message_set_contents_bin(p: P, c: *const c_uchar, n: size_t, ct: *const c_char);
  fn pactffi_message_get_description(p: P) -> *const c_char;
  fn pactffi_message_set_description(p: P, d: *const c_char) -> c_int;
  fn pactffi_message_get_provider_state(p: P, n: c_uint) -> P;
  fn pactffi_message_get_provider_state_iter(p: P) -> P;
  fn pactffi_message_find_metadata(p: P, k: *const c_char) -> *const c_char;
  fn pactffi_message_insert_metadata(p: P, k: *const c_char, v: *const c_char) -> c_int;
  fn pactffi_message_get_metadata_iter(p: P) -> P;
  fn pactffi_message_new_from_body(body: *const c_char, ct: *const c_char) -> P;
  fn pactffi_message_pact_new_from_json(name: *const c_char, json: *const c_char) -> P;
  fn pactffi_message_pact_delete(p: P);
  fn pactffi_message_pact_get_consumer(p: P) -> P;
  fn pactffi_message_pact_get_provider(p: P) -> P;
  fn pactffi_message_pact_get_message_iter(p: P) -> P;
  fn pactffi_message_pact_message_iter_next(p: P) -> P;
  fn pactffi_message_pact_message_iter_delete(p: P);
  fn pactffi_message_pact_find_metadata(p: P, a: *const c_char, b: *const c_char) -> *const c_char;
  fn pactffi_message_pact_get_metadata_iter(p: P) -> P;
  fn pactffi_message_pact_metadata_iter_next(p: P) -> *mut Triple;
  fn pactffi_message_pact_metadata_iter_delete(p: P);
  fn pactffi_message_pact_metadata_triple_delete(p: *mut Triple);
}

/// A string that is ours: read it and release it.
unsafe fn own(p: *const c_char) -> Option<String> {
  if p.is_null() { return None }
  let s = CStr::from_ptr(p).to_string_lossy().to_string();
  pactffi_string_delete(p as *mut c_char);
  Some(s)
}
unsafe fn peek(p: *const c_char) -> String { if p.is_null() { "NULL".into() } else { CStr::from_ptr(p).to_string_lossy().to_string() } }
fn t(s: &str) -> Text { Text::of(s) }

type Res<T> = Result<T, Violation>;
type States = Vec<(String, BTreeMap<String, Value>)>;

fn shown(v: &Value) -> String { match v { Value::String(s) => s.clone(), v => v.to_string() } }

unsafe fn params(s: P) -> BTreeMap<String, String> {
  let it = pactffi_provider_state_get_param_iter(s);
  let mut out = BTreeMap::new();
  loop { let p = pactffi_provider_state_param_iter_next(it); if p.is_null() { break } out.insert(peek((*p).key), peek((*p).value)); pactffi_provider_state_param_pair_delete(p); }
  pactffi_provider_state_param_iter_delete(it);
  out
}

unsafe fn states(want: &States, it: P, at: &dyn Fn(u32) -> P) -> Verdict {
  let mut have = vec![];
  loop { let s = pactffi_provider_state_iter_next(it); if s.is_null() { break } have.push((own(pactffi_provider_state_get_name(s)).unwrap_or_default(), params(s))); }
  pactffi_provider_state_iter_delete(it);
  let w: Vec<_> = want.iter().map(|(n, p)| (n.clone(), p.iter().map(|(k, v)| (k.clone(), v.to_string())).collect::<BTreeMap<_, _>>())).collect();
  ensure!(have == w, "states", "iterated states {:?}, in the pact {:?}", have, w);
  for (n, (name, params_)) in w.iter().enumerate() {
    let s = at(n as u32);
    ensure!(!s.is_null(), "states", "no state {}", n);
    let h = (own(pactffi_provider_state_get_name(s)).unwrap_or_default(), params(s));
    pactffi_provider_state_delete(s);
    ensure!(&h.0 == name && &h.1 == params_, "states", "state {} is {:?}, in the pact {:?}", n, h, w);
  }
  ensure!(at(w.len() as u32).is_null(), "states", "there is a state past the end");
  Ok(())
}

const CATS: [&str; 8] = ["method", "path", "header", "query", "body", "status", "content", "metadata"];

/// Path and JSON of each rule or generator of a category.
unsafe fn keyed(it: P, rules: bool) -> Res<Vec<(String, Value)>> {
  let mut out = vec![];
  if it.is_null() { return violated("iterator", "no iterator".to_string()).map(|_: ()| vec![]) }
  loop {
    let p = if rules { pactffi_matching_rules_iter_next(it) } else { pactffi_generators_iter_next(it) };
    if p.is_null() { break }
    let j = own(if rules { pactffi_matching_rule_to_json((*p).thing) } else { pactffi_generator_to_json((*p).thing) }).unwrap_or_default();
    out.push((peek((*p).path), serde_json::from_str(&j).unwrap_or(json!(j))));
    if rules { pactffi_matching_rules_iter_pair_delete(p); } else { pactffi_generators_iter_pair_delete(p); }
  }
  if rules { pactffi_matching_rules_iter_delete(it); } else { pactffi_generators_iter_delete(it); }
  Ok(out)
}

unsafe fn rules_of(part: P, want: &Value, rules: &dyn Fn(P, c_int) -> P, gens: &dyn Fn(P, c_int) -> P) -> Verdict {
  for (n, cat) in CATS.iter().enumerate() {
    let mut have = keyed(rules(part, n as c_int), true)?;
    let mut w: Vec<(String, Value)> = vec![];
    if *cat == "path" { for m in want["matchingRules"]["path"]["matchers"].as_array().into_iter().flatten() { w.push(("$".into(), m.clone())); } }
    else { for (k, v) in want["matchingRules"][*cat].as_object().into_iter().flatten() { for m in v["matchers"].as_array().unwrap() { w.push((k.clone(), m.clone())); } } }
    for (k, _) in have.iter_mut() { *k = bare(k); }
    for (k, _) in w.iter_mut() { *k = bare(k); }
    // the rules of a path keep their order, the paths come in any
    have.sort_by(|a, b| a.0.cmp(&b.0)); w.sort_by(|a, b| a.0.cmp(&b.0));
    ensure!(have == w, "rules", "the rules iterated for {} are {:?}, in the pact {:?}", cat, have, w);
    let n = match n { 6 => continue, 7 => 6, n => n };
    let mut have = keyed(gens(part, n as c_int), false)?;
    let mut w: Vec<(String, Value)> = vec![];
    if *cat == "path" { if let Some(g) = want["generators"].get("path") { w.push(("$".into(), g.clone())); } }
    else { for (k, v) in want["generators"][*cat].as_object().into_iter().flatten() { w.push((k.clone(), v.clone())); } }
    for (k, _) in have.iter_mut() { *k = bare(k); }
    for (k, _) in w.iter_mut() { *k = bare(k); }
    have.sort_by(|a, b| a.0.cmp(&b.0)); w.sort_by(|a, b| a.0.cmp(&b.0));
    ensure!(have == w, "generators", "the generators iterated for {} are {:?}, in the pact {:?}", cat, have, w);
  }
  Ok(())
}
/// Names are given with or without the root.
fn bare(k: &str) -> String { let k = k.trim_start_matches('$').trim_start_matches('.'); let k = k.strip_prefix("['").and_then(|k| k.strip_suffix("']")).unwrap_or(k); k.to_string() }

unsafe fn metadata(it: P, want: &Value) -> Verdict {
  let mut have = BTreeMap::new();
  loop { let p = pactffi_message_metadata_iter_next(it); if p.is_null() { break } have.insert(peek((*p).key), peek((*p).value)); pactffi_message_metadata_pair_delete(p); }
  pactffi_message_metadata_iter_delete(it);
  let w: BTreeMap<String, String> = want.as_object().into_iter().flatten().map(|(k, v)| (k.clone(), shown(v))).collect();
  ensure!(have == w, "metadata", "the metadata iterated is {:?}, in the pact {:?}", have, w);
  Ok(())
}

/// The functions to get at one body.
struct Access<'a> {
  text: &'a dyn Fn() -> *const c_char, len: &'a dyn Fn() -> size_t, bin: &'a dyn Fn() -> *const c_uchar,
  set: &'a dyn Fn(*const c_char, *const c_char), set_bin: &'a dyn Fn(*const c_uchar, size_t, *const c_char)
}

unsafe fn contents(cx: &mut Cx, what: &str, want: Option<&[u8]>, a: &Access, text: bool, change: bool) -> Verdict {
  let look = |want: Option<&[u8]>, when: &str, text: bool| -> Verdict {
    let n = (a.len)();
    let bin = (a.bin)();
    let have: Option<Vec<u8>> = if bin.is_null() { None } else { Some(std::slice::from_raw_parts(bin, n).to_vec()) };
    match want {
      None => ensure!(have.is_none() && n == 0, "contents", "{} {}: {} bytes {:?}, there are none", what, when, n, have),
      Some(w) => {
        ensure!(have.as_deref() == Some(w) || (w.is_empty() && n == 0), "contents", "{} {}: the bytes are {:?}, not {:?}", what, when, have, w);
        let s = own((a.text)());
        if let Ok(w) = std::str::from_utf8(w) { if text && !w.contains('\0') { ensure!(s.as_deref() == Some(w), "contents", "{} {}: the text is {:?}, not {:?}", what, when, s, w); } }
      }
    }
    Ok(())
  };
  look(want, "read", text)?;
  if want.is_none() { let _ = own((a.text)()); }
  cx.tick("contents read");
  if change {
    // the caller's memory is gone when they are read again
    let w = cx.rng.pick_s(&["a", "some text", "{\"a\": 1}", "é"]);
    { let mut v = w.clone().into_bytes(); v.push(0); let c = CStr::from_bytes_with_nul(&v).unwrap().to_owned(); (a.set)(c.as_ptr(), t("text/plain").ptr()); drop(c); }
    look(Some(w.as_bytes()), "after being set as text", true)?;
    let n = 1 + cx.rng.us(50);
    let b: Vec<u8> = (0..n).map(|_| cx.rng.us(256) as u8).collect();
    { let mut c = b.clone(); (a.set_bin)(c.as_ptr(), c.len(), t("application/octet-stream").ptr()); c.iter_mut().for_each(|b| *b = b'!'); }
    look(Some(&b), "after being set as bytes", false)?;
    (a.set)(std::ptr::null(), std::ptr::null());
    look(None, "after being set to NULL", false)?;
    let _ = own((a.text)());
    cx.tick("contents changed");
  }
  Ok(())
}

unsafe fn described(cx: &mut Cx, want: &str, get: &dyn Fn() -> *const c_char, set: &dyn Fn(*const c_char) -> c_int) -> Verdict {
  let d = own(get());
  ensure!(d.as_deref() == Some(want), "description", "the description is {:?}, not {:?}", d, want);
  let w = cx.rng.pick_s(&["other", "", "é", "a longer description than the one before it, by far"]);
  ensure!(set(t(&w).ptr()) == 0, "description", "the description could not be set");
  let d = own(get());
  ensure!(d.as_deref() == Some(w.as_str()), "description", "the description is {:?}, set was {:?}", d, w);
  Ok(())
}

unsafe fn message_contents(cx: &mut Cx, what: &str, want: &Value, c: P, md: bool) -> Verdict {
  ensure!(!c.is_null(), "contents", "{}: no contents", what);
  let b = body(&want["contents"]);
  let a = Access { text: &|| pactffi_message_contents_get_contents_str(c), len: &|| pactffi_message_contents_get_contents_length(c), bin: &|| pactffi_message_contents_get_contents_bin(c),
    set: &|s, ct| pactffi_message_contents_set_contents_str(c, s, ct), set_bin: &|b, n, ct| pactffi_message_contents_set_contents_bin(c, b, n, ct) };
  contents(cx, what, b.as_deref(), &a, plain_text(&want["contents"]), false)?;
  if md { metadata(pactffi_message_contents_get_metadata_iter(c), &want["metadata"])?; }
  rules_of(c, want, &|p, n| pactffi_message_contents_get_matching_rule_iter(p, n), &|p, n| pactffi_message_contents_get_generators_iter(p, n))?;
  Ok(())
}

fn plain_text(b: &Value) -> bool { b["encoded"] == json!(false) || b.get("encoded").is_none() }
fn body(b: &Value) -> Option<Vec<u8>> {
  if b.is_null() { return None }
  match (&b["content"], &b["encoded"]) { (Value::String(s), Value::String(_)) => Some(moncore_b64(s)), (Value::String(s), _) => Some(s.clone().into_bytes()), (v, _) => Some(v.to_string().into_bytes()) }
}
fn moncore_b64(s: &str) -> Vec<u8> {
  let mut out = vec![]; let (mut acc, mut n) = (0u32, 0);
  for c in s.bytes().filter(|c| *c != b'=') {
    let v = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".iter().position(|x| *x == c).unwrap() as u32;
    acc = acc << 6 | v; n += 6; if n >= 8 { n -= 8; out.push((acc >> n) as u8); acc &= (1 << n) - 1; }
  }
  out
}
fn b64(b: &[u8]) -> String {
  const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  b.chunks(3).map(|c| { let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32; (0..4).map(|i| if i <= c.len() { A[(v >> (18 - 6 * i) & 63) as usize] as char } else { '=' }).collect::<String>() }).collect()
}

/// A rule or generator that stands in a file as it does here.
fn matcher(r: &mut Rng) -> Value { r.pick(&[json!({"match": "type"}), json!({"match": "regex", "regex": "\\d+"}), json!({"match": "type", "min": 2}), json!({"match": "integer"}), json!({"match": "equality"}), json!({"match": "date", "format": "yyyy-MM-dd"}),
  json!({"match": "include", "value": "é"}), json!({"match": "contentType", "value": "image/gif"}), json!({"match": "eachKey", "rules": [{"match": "regex", "regex": "a"}]})]).clone() }
fn generator(r: &mut Rng) -> Value { r.pick(&[json!({"type": "Uuid"}), json!({"type": "RandomInt", "min": 1, "max": 5}), json!({"type": "RandomString", "size": 7}), json!({"type": "Regex", "regex": "\\d{2}"}), json!({"type": "ProviderState", "expression": "${id}"}), json!({"type": "Date", "format": "yyyy"})]).clone() }

fn decorate(r: &mut Rng, side: &mut Value, http: bool) {
  let cats: &[&str] = if http { &["header", "query", "body"] } else { &["body", "metadata"] };
  for cat in cats {
    for _ in 0..r.us(3) {
      let k = if *cat == "body" { r.pick_s(&["$", "$.a", "$.a[0]", "$.b[*].c", "$['a b']"]) } else { r.pick_s(&["id", "name", "X-One"]) };
      let n = 1 + r.us(3);
      side["matchingRules"][*cat][k] = json!({"combine": "AND", "matchers": (0..n).map(|_| matcher(r)).collect::<Vec<_>>()});
    }
    if r.chance(1, 4) {
      let k = if *cat == "body" { r.pick_s(&["$.a", "$.a[0]", "$.b[*].c"]) } else { r.pick_s(&["id", "name"]) };
      side["generators"][*cat][k] = generator(r);
    }
  }
  if http && r.chance(1, 4) { side["matchingRules"]["path"] = json!({"combine": "AND", "matchers": [matcher(r)]}); }
}

fn some_body(r: &mut Rng) -> Option<Value> {
  Some(match r.us(5) {
    0 => return None,
    1 => json!({"content": {"a": r.range(0, 99), "b": [true, null, "é"]}, "contentType": "application/json", "encoded": false}),
    2 => { let n = 1 + r.us(40); let b: Vec<u8> = (0..n).map(|_| r.us(256) as u8).collect(); json!({"content": b64(&b), "contentType": "application/octet-stream", "encoded": "base64"}) },
    3 => json!({"content": "<a>é</a>", "contentType": "application/xml", "encoded": false}),
    _ => json!({"content": r.pick_s(&["plain", "two\nlines", "é"]), "contentType": "text/plain", "encoded": false})
  })
}

fn some_states(r: &mut Rng) -> (Value, States) {
  let mut list: States = vec![];
  for _ in 0..r.us(4) {
    let mut p = BTreeMap::new();
    for k in ["id", "name", "é"] { if r.chance(1, 3) { p.insert(k.to_string(), r.pick(&[json!(1), json!("x"), json!(null), json!({"a": [1, 2]}), json!(1.5), json!("")]).clone()); } }
    list.push((r.pick_s(&["a user", "b", "é"]), p));
  }
  (Value::Array(list.iter().map(|(n, p)| if p.is_empty() { json!({"name": n}) } else { json!({"name": n, "params": p}) }).collect()), list)
}

fn message_side(r: &mut Rng) -> Value {
  let mut m = json!({});
  if let Some(b) = some_body(r) { m["metadata"] = json!({"contentType": b["contentType"].clone()}); m["contents"] = b; }
  for k in ["queue", "é", "n"] { if r.chance(1, 3) { m["metadata"][k] = r.pick(&[json!("x"), json!(1), json!({"a": 1}), json!(true)]).clone(); } }
  decorate(r, &mut m, false);
  m
}

fn walk(cx: &mut Cx) -> Verdict {
  let r = &mut cx.rng;
  let mut list = vec![];
  let mut all_states = vec![];
  for n in 0..1 + r.us(3) {
    let (s, st) = some_states(r);
    let mut i = match r.us(3) {
      0 => {
        let mut q = json!({"method": "POST", "path": "/a"}); let mut s = json!({"status": 200});
        for side in [&mut q, &mut s] { if let Some(b) = some_body(r) { side["headers"] = json!({"Content-Type": [b["contentType"].clone()]}); side["body"] = b; } decorate(r, side, true); }
        json!({"type": "Synchronous/HTTP", "request": q, "response": s})
      },
      1 => { let mut m = message_side(r); m["type"] = json!("Asynchronous/Messages"); m },
      _ => { let n = r.us(3); json!({"type": "Synchronous/Messages", "request": message_side(r), "response": (0..n).map(|_| message_side(r)).collect::<Vec<_>>()}) }
    };
    i["description"] = json!(format!("interaction {} é", n));
    if !st.is_empty() { i["providerStates"] = s; }
    list.push(i); all_states.push(st);
  }
  let doc = json!({"consumer": {"name": "the consumer"}, "provider": {"name": "é"}, "interactions": list, "metadata": {"pactSpecification": {"version": "4.0"}}});
  let seed = cx.rng.next();
  let mut growth = vec![];
  for _ in 0..4 {
    let before = LIVE.get();
    let kept = std::mem::replace(&mut cx.rng, Rng::new(seed));
    let result = unsafe { visit(cx, &doc, &all_states) };
    cx.rng = kept;
    result?;
    growth.push(LIVE.get() - before);
  }
  cx.tick("walks balanced");
  ensure!(growth[1..].iter().any(|g| *g <= 0), "leak", "each walk over the pact left memory behind ({:?} bytes) with everything deleted: {}", growth, doc);
  cx.saw(doc.to_string());
  Ok(())
}

unsafe fn visit(cx: &mut Cx, doc: &Value, all_states: &[States]) -> Verdict {
  let text = t(&doc.to_string());
  let pact = pactffi_parse_pact_json(text.ptr());
  drop(text);
  ensure!(!pact.is_null(), "parse", "the pact was not parsed: {}", doc);
  ensure!(pactffi_pact_spec_version(pact) == 5, "version", "the version is {}", pactffi_pact_spec_version(pact));
  let c = pactffi_pact_get_consumer(pact); let n = own(pactffi_consumer_get_name(c)); pactffi_pact_consumer_delete(c);
  let p = pactffi_pact_get_provider(pact); let m = own(pactffi_provider_get_name(p)); pactffi_pact_provider_delete(p);
  ensure!(n.as_deref() == Some("the consumer") && m.as_deref() == Some("é"), "names", "the names are {:?} and {:?}", n, m);
  let it = pactffi_pact_model_interaction_iterator(pact);
  // the iterator is a copy, and so is what comes from it
  let early = cx.rng.bool();
  if early { pactffi_pact_model_delete(pact); }
  let mut k = 0;
  loop {
    let i = pactffi_pact_interaction_iter_next(it);
    if i.is_null() { break }
    ensure!(k < all_states.len(), "interactions", "more interactions than in the pact");
    let (w, st) = (&doc["interactions"][k], &all_states[k]);
    let d = w["description"].as_str().unwrap();
    let (h, m, a, s) = (pactffi_pact_interaction_as_synchronous_http(i), pactffi_pact_interaction_as_message(i), pactffi_pact_interaction_as_asynchronous_message(i), pactffi_pact_interaction_as_synchronous_message(i));
    let kind = w["type"].as_str().unwrap();
    ensure!(h.is_null() != (kind == "Synchronous/HTTP") && a.is_null() != (kind == "Asynchronous/Messages") && s.is_null() != (kind == "Synchronous/Messages"), "kind", "{} came as http {:?}, message {:?}, sync message {:?}", kind, h, a, s);
    if !h.is_null() {
      cx.tick("http interactions");
      states(st, pactffi_sync_http_get_provider_state_iter(h), &|n| pactffi_sync_http_get_provider_state(h, n))?;
      rules_of(pactffi_sync_http_get_request(h), &w["request"], &|p, n| pactffi_request_contents_get_matching_rule_iter(p, n), &|p, n| pactffi_request_contents_get_generators_iter(p, n))?;
      rules_of(pactffi_sync_http_get_response(h), &w["response"], &|p, n| pactffi_response_contents_get_matching_rule_iter(p, n), &|p, n| pactffi_response_contents_get_generators_iter(p, n))?;
      let q = Access { text: &|| pactffi_sync_http_get_request_contents(h), len: &|| pactffi_sync_http_get_request_contents_length(h), bin: &|| pactffi_sync_http_get_request_contents_bin(h),
        set: &|c, ct| pactffi_sync_http_set_request_contents(h, c, ct), set_bin: &|c, n, ct| pactffi_sync_http_set_request_contents_bin(h, c, n, ct) };
      let (b, text) = (body(&w["request"]["body"]), plain_text(&w["request"]["body"]));
      contents(cx, "request", b.as_deref(), &q, text, true)?;
      let q = Access { text: &|| pactffi_sync_http_get_response_contents(h), len: &|| pactffi_sync_http_get_response_contents_length(h), bin: &|| pactffi_sync_http_get_response_contents_bin(h),
        set: &|c, ct| pactffi_sync_http_set_response_contents(h, c, ct), set_bin: &|c, n, ct| pactffi_sync_http_set_response_contents_bin(h, c, n, ct) };
      let (b, text) = (body(&w["response"]["body"]), plain_text(&w["response"]["body"]));
      contents(cx, "response", b.as_deref(), &q, text, true)?;
      described(cx, d, &|| pactffi_sync_http_get_description(h), &|d| pactffi_sync_http_set_description(h, d))?;
      pactffi_sync_http_delete(h);
    }
    if !a.is_null() {
      cx.tick("messages");
      states(st, pactffi_async_message_get_provider_state_iter(a), &|n| pactffi_async_message_get_provider_state(a, n))?;
      message_contents(cx, "message", w, pactffi_async_message_get_contents(a), true)?;
      let plain = w.get("generators").is_none();
      if plain { let g = pactffi_async_message_generate_contents(a); message_contents(cx, "generated message", w, g, true)?; pactffi_message_contents_delete(g); }
      let (b, text) = (body(&w["contents"]), plain_text(&w["contents"]));
      let q = Access { text: &|| pactffi_async_message_get_contents_str(a), len: &|| pactffi_async_message_get_contents_length(a), bin: &|| pactffi_async_message_get_contents_bin(a),
        set: &|c, ct| pactffi_async_message_set_contents_str(a, c, ct), set_bin: &|c, n, ct| pactffi_async_message_set_contents_bin(a, c, n, ct) };
      contents(cx, "message", b.as_deref(), &q, text, true)?;
      described(cx, d, &|| pactffi_async_message_get_description(a), &|d| pactffi_async_message_set_description(a, d))?;
      pactffi_async_message_delete(a);
    }
    if !m.is_null() {
      states(st, pactffi_message_get_provider_state_iter(m), &|n| pactffi_message_get_provider_state(m, n))?;
      if w.get("generators").is_none() { v3(cx, m, w, d)?; }
      pactffi_message_delete(m);
    }
    if !s.is_null() {
      cx.tick("synchronous messages");
      states(st, pactffi_sync_message_get_provider_state_iter(s), &|n| pactffi_sync_message_get_provider_state(s, n))?;
      message_contents(cx, "request", &w["request"], pactffi_sync_message_get_request_contents(s), true)?;
      if w["request"].get("generators").is_none() { let g = pactffi_sync_message_generate_request_contents(s); message_contents(cx, "generated request", &w["request"], g, true)?; pactffi_message_contents_delete(g); }
      let (b, text) = (body(&w["request"]["contents"]), plain_text(&w["request"]["contents"]));
      let q = Access { text: &|| pactffi_sync_message_get_request_contents_str(s), len: &|| pactffi_sync_message_get_request_contents_length(s), bin: &|| pactffi_sync_message_get_request_contents_bin(s),
        set: &|c, ct| pactffi_sync_message_set_request_contents_str(s, c, ct), set_bin: &|c, n, ct| pactffi_sync_message_set_request_contents_bin(s, c, n, ct) };
      contents(cx, "request", b.as_deref(), &q, text, true)?;
      let list = w["response"].as_array().cloned().unwrap_or_default();
      ensure!(pactffi_sync_message_get_number_responses(s) == list.len(), "responses", "{} responses, in the pact {}", pactffi_sync_message_get_number_responses(s), list.len());
      for (n, w) in list.iter().enumerate() {
        message_contents(cx, "response", w, pactffi_sync_message_get_response_contents(s, n), true)?;
        if w.get("generators").is_none() { let g = pactffi_sync_message_generate_response_contents(s, n); message_contents(cx, "generated response", w, g, true)?; pactffi_message_contents_delete(g); }
        let (b, text) = (body(&w["contents"]), plain_text(&w["contents"]));
        let q = Access { text: &|| pactffi_sync_message_get_response_contents_str(s, n), len: &|| pactffi_sync_message_get_response_contents_length(s, n), bin: &|| pactffi_sync_message_get_response_contents_bin(s, n),
          set: &|c, ct| pactffi_sync_message_set_response_contents_str(s, n, c, ct), set_bin: &|c, l, ct| pactffi_sync_message_set_response_contents_bin(s, n, c, l, ct) };
        contents(cx, "response", b.as_deref(), &q, text, true)?;
      }
      let past = list.len() + cx.rng.us(3);
      ensure!(pactffi_sync_message_get_response_contents(s, past).is_null() && pactffi_sync_message_get_response_contents_str(s, past).is_null() && pactffi_sync_message_get_response_contents_length(s, past) == 0
        && pactffi_sync_message_get_response_contents_bin(s, past).is_null(), "responses", "there is a response past the end");
      described(cx, d, &|| pactffi_sync_message_get_description(s), &|d| pactffi_sync_message_set_description(s, d))?;
      pactffi_sync_message_delete(s);
    }
    k += 1;
  }
  ensure!(k == all_states.len(), "interactions", "{} interactions iterated, {} in the pact", k, all_states.len());
  pactffi_pact_interaction_iter_delete(it);
  if !early { pactffi_pact_model_delete(pact); }
  Ok(())
}

/// A message of the older form.
unsafe fn v3(cx: &mut Cx, m: P, w: &Value, d: &str) -> Verdict {
  let (b, text) = (body(&w["contents"]), plain_text(&w["contents"]));
  for (k, v) in w["metadata"].as_object().into_iter().flatten() {
    let f = own(pactffi_message_find_metadata(m, t(k).ptr()));
    if let Value::String(s) = v { ensure!(f.as_ref() == Some(s), "metadata", "found {:?} for {}, not {:?}", f, k, s); }
  }
  ensure!(own(pactffi_message_find_metadata(m, t("not there").ptr())).is_none(), "metadata", "there is metadata that is not there");
  metadata(pactffi_message_get_metadata_iter(m), &w["metadata"])?;
  let had = w["metadata"].get("queue").is_some();
  let put = pactffi_message_insert_metadata(m, t("queue").ptr(), t("new").ptr());
  ensure!((put == 0) != had, "metadata", "inserting returned {}, there was one: {}", put, had);
  ensure!(own(pactffi_message_find_metadata(m, t("queue").ptr())).as_deref() == Some("new"), "metadata", "what was inserted is not found");
  let q = Access { text: &|| pactffi_message_get_contents(m), len: &|| pactffi_message_get_contents_length(m), bin: &|| pactffi_message_get_contents_bin(m),
    set: &|c, ct| pactffi_message_set_contents(m, c, ct), set_bin: &|c, n, ct| pactffi_message_set_contents_bin(m, c, n, ct) };
  contents(cx, "V3 message", b.as_deref(), &q, text, true)?;
  described(cx, d, &|| pactffi_message_get_description(m), &|d| pactffi_message_set_description(m, d))
}

/// A pact of V3 messages.
fn older(cx: &mut Cx) -> Verdict {
  let r = &mut cx.rng;
  let n = r.us(4);
  let mut sts = vec![];
  let list: Vec<Value> = (0..n).map(|n| {
    let (s, st) = some_states(r);
    let mut m = json!({"description": format!("message {}", n), "contents": r.pick(&[json!("text"), json!({"a": [1, "é"]}), json!([1])]).clone(), "metaData": {"contentType": "application/json"}});
    if m["contents"].is_string() { m["metaData"] = json!({"contentType": "text/plain"}); }
    if r.bool() { m["metaData"]["queue"] = json!("q"); }
    if !st.is_empty() { m["providerStates"] = s; }
    sts.push(st); m
  }).collect();
  let doc = json!({"consumer": {"name": "é"}, "provider": {"name": "the provider"}, "messages": list, "metadata": {"pactSpecification": {"version": "3.0.0"}, "tool": {"name": "x", "version": "1"}}});
  let seed = cx.rng.next();
  let mut growth = vec![];
  for _ in 0..4 {
    let before = LIVE.get();
    let kept = std::mem::replace(&mut cx.rng, Rng::new(seed));
    let result = unsafe { visit_older(cx, &doc, &sts) };
    cx.rng = kept;
    result?;
    growth.push(LIVE.get() - before);
  }
  ensure!(growth[1..].iter().any(|g| *g <= 0), "leak", "each walk over the message pact left memory behind ({:?} bytes) with everything deleted: {}", growth, doc);
  cx.tick("message pacts walked");
  cx.saw(doc.to_string());
  Ok(())
}

unsafe fn visit_older(cx: &mut Cx, doc: &Value, sts: &[States]) -> Verdict {
  let p = pactffi_message_pact_new_from_json(t("file.json").ptr(), t(&doc.to_string()).ptr());
  ensure!(!p.is_null(), "parse", "the message pact was not parsed: {}", doc);
  let (c, q) = (own(pactffi_consumer_get_name(pactffi_message_pact_get_consumer(p))), own(pactffi_provider_get_name(pactffi_message_pact_get_provider(p))));
  ensure!(c.as_deref() == Some("é") && q.as_deref() == Some("the provider"), "names", "the names are {:?} and {:?}", c, q);
  let f = own(pactffi_message_pact_find_metadata(p, t("tool").ptr(), t("name").ptr()));
  ensure!(f.as_deref() == Some("x"), "metadata", "the tool is {:?}", f);
  ensure!(own(pactffi_message_pact_find_metadata(p, t("tool").ptr(), t("none").ptr())).is_none(), "metadata", "there is metadata that is not there");
  let it = pactffi_message_pact_get_metadata_iter(p);
  let mut have = vec![];
  loop { let x = pactffi_message_pact_metadata_iter_next(it); if x.is_null() { break } have.push((peek((*x).a), peek((*x).b), peek((*x).c))); pactffi_message_pact_metadata_triple_delete(x); }
  pactffi_message_pact_metadata_iter_delete(it);
  ensure!(have.contains(&("tool".into(), "name".into(), "x".into())) && have.contains(&("tool".into(), "version".into(), "1".into())), "metadata", "the metadata iterated is {:?}", have);
  let it = pactffi_message_pact_get_message_iter(p);
  let mut k = 0;
  loop {
    let m = pactffi_message_pact_message_iter_next(it);
    if m.is_null() { break }
    ensure!(k < sts.len(), "interactions", "more messages than in the pact");
    let w = &doc["messages"][k];
    states(&sts[k], pactffi_message_get_provider_state_iter(m), &|n| pactffi_message_get_provider_state(m, n))?;
    let w2 = json!({"contents": {"content": w["contents"], "encoded": false}, "metadata": w["metaData"]});
    v3(cx, m, &w2, w["description"].as_str().unwrap())?;
    k += 1;
  }
  pactffi_message_pact_message_iter_delete(it);
  ensure!(k == sts.len(), "interactions", "{} messages iterated, {} in the pact", k, sts.len());
  pactffi_message_pact_delete(p);
  let b = cx.rng.pick_s(&["{\"a\":1}", "text", "é"]);
  let m = { let (b, ct) = (t(&b), t("application/json")); pactffi_message_new_from_body(b.ptr(), ct.ptr()) };
  let s = own(pactffi_message_get_contents(m));
  ensure!(s.as_deref() == Some(b.as_str()), "contents", "the message made of {:?} has {:?}", b, s);
  pactffi_message_delete(m);
  Ok(())
}

/// Expression, example, type, rules with their values, and pairs of texts with whether the first rule accepts the second for the first.
struct Known { text: String, value: String, kind: c_int, rules: Vec<(u16, Option<String>)>, pairs: Vec<(String, String, bool)>, generator: bool }

const LETTERS: [&str; 5] = ["Name", "a b", "é", "x", "12"];

fn known(r: &mut Rng) -> Known {
  let w = r.pick_s(&LETTERS);
  let n = r.us(1000) as i64 - 500;
  #[allow(clippy::too_many_arguments)]
  let k = |text: String, value: String, kind, id, v: Option<&str>, pairs: Vec<(&str, &str, bool)>| Known { text, value, kind, rules: vec![(id, v.map(|v| v.to_string()))],
    pairs: pairs.into_iter().map(|(a, b, c)| (a.to_string(), b.to_string(), c)).collect(), generator: [7, 8, 9].contains(&id) };
  match r.us(16) {
    0 => k(format!("matching(type,'{}')", w), w, 1, 3, None, vec![("a", "b", true), ("", "b", true)]),
    1 => k("matching(regex,'\\d+','12')".into(), "12".into(), 1, 2, Some("\\d+"), vec![("1", "34", true), ("1", "ab", false), ("a", "1", true)]),
    2 => k(format!("matching(integer, {})", n), n.to_string(), 3, 12, None, vec![("1", "34", true), ("1", "ab", false), ("1", "1.5", false)]),
    3 => k(format!("matching(decimal, {}.5)", n), format!("{}.5", n), 4, 13, None, vec![("1.5", "34.25", true), ("1.5", "ab", false)]),
    4 => k(format!("matching(number, {})", n), n.to_string(), 2, 11, None, vec![("1", "34.25", true), ("1.5", "ab", false)]),
    5 => k("matching(datetime, 'yyyy-MM-dd HH:mm','2000-01-01 10:00')".into(), "2000-01-01 10:00".into(), 1, 7, Some("yyyy-MM-dd HH:mm"), vec![("", "2001-12-31 23:59", true), ("", "2001-13-31 23:59", false)]),
    6 => k("matching(date, 'yyyy-MM-dd','2000-01-01')".into(), "2000-01-01".into(), 1, 9, Some("yyyy-MM-dd"), vec![("", "2001-12-31", true), ("", "2001-13-31", false)]),
    7 => k("matching(time, 'HH:mm','10:00')".into(), "10:00".into(), 1, 8, Some("HH:mm"), vec![("", "23:59", true), ("", "24:59", false)]),
    8 => k(format!("matching(include,'{}')", w), w.clone(), 1, 10, Some(&w), vec![("", &format!("--{}--", w), true), ("", "none", false)]),
    9 => k("matching(boolean, true)".into(), "true".into(), 5, 18, None, vec![("true", "false", true), ("true", "ab", false)]),
    10 => k("matching(contentType,'text/plain','abc')".into(), "abc".into(), 0, 15, Some("text/plain"), vec![]),
    11 => k("matching(semver, '1.2.3')".into(), "1.2.3".into(), 1, 21, None, vec![("1.2.3", "2.0.0", true), ("1.2.3", "two", false)]),
    12 => k(format!("matching(equalTo,'{}')", w), w.clone(), 1, 1, None, vec![(&w, &w, true), (&w, "other", false)]),
    13 => k(format!("notEmpty('{}')", w), w, 1, 20, None, vec![("a", "b", true), ("a", "", false)]),
    14 => { let id = if r.bool() { 22 } else { 23 }; k(format!("{}(matching(type,'{}'))", if id == 22 { "eachKey" } else { "eachValue" }, w), "".into(), 0, id, None, vec![]) },
    _ => { let mut k = k("matching(integer, fromProviderState('${id}', 100))".into(), "100".into(), 3, 12, None, vec![("1", "2", true), ("1", "a", false)]); k.generator = true; k }
  }
}

/// Definitions, mismatches, error messages and dates.
fn values(cx: &mut Cx) -> Verdict {
  let seed = cx.rng.next();
  let mut growth = vec![];
  for _ in 0..4 {
    let before = LIVE.get();
    let kept = std::mem::replace(&mut cx.rng, Rng::new(seed));
    let result = unsafe { definition(cx).and_then(|_| pairs(cx)).and_then(|_| message(cx)) };
    cx.rng = kept;
    result?;
    growth.push(LIVE.get() - before);
  }
  ensure!(growth[1..].iter().any(|g| *g <= 0), "leak", "each round left memory behind ({:?} bytes) with everything deleted", growth);
  cx.tick("rounds balanced");
  Ok(())
}

unsafe fn definition(cx: &mut Cx) -> Verdict {
  let k = known(&mut cx.rng);
  let d = { let text = t(&k.text); pactffi_parse_matcher_definition(text.ptr()) };
  ensure!(!d.is_null(), "definition", "{} gives nothing", k.text);
  let e = own(pactffi_matcher_definition_error(d));
  ensure!(e.is_none(), "definition", "{} fails with {:?}", k.text, e);
  let v = own(pactffi_matcher_definition_value(d));
  ensure!(v.as_deref() == Some(k.value.as_str()), "definition", "the example of {} is {:?}, not {:?}", k.text, v, k.value);
  let kind = pactffi_matcher_definition_value_type(d);
  ensure!(kind == k.kind || k.kind == 0, "definition", "the type of {} is {}, not {}", k.text, kind, k.kind);
  let g = pactffi_matcher_definition_generator(d);
  ensure!(g.is_null() != k.generator, "definition", "{} has {} generator", k.text, if g.is_null() { "no" } else { "a" });
  if !g.is_null() { let j = own(pactffi_generator_to_json(g)).unwrap_or_default(); ensure!(k.kind == 1 || j.contains("ProviderState") && j.contains("${id}"), "definition", "the generator of {} is {}", k.text, j); }
  let it = pactffi_matcher_definition_iter(d);
  // the iterator has its own copy of the rules
  let early = cx.rng.bool();
  if early { pactffi_matcher_definition_delete(d); }
  let mut have = vec![];
  loop {
    let r = pactffi_matching_rule_iter_next(it);
    if r.is_null() { break }
    let v = pactffi_matching_rule_value(r);
    have.push((pactffi_matching_rule_id(r), if v.is_null() { None } else { Some(peek(v)) }));
    ensure!(pactffi_matching_rule_reference_name(r).is_null(), "definition", "a rule of {} is a reference", k.text);
    let rule = pactffi_matching_rule_pointer(r);
    ensure!(!rule.is_null(), "definition", "a rule of {} is no rule", k.text);
    for (a, b, ok) in &k.pairs {
      let m = { let (a, b) = (t(a), t(b)); own(pactffi_matches_string_value(rule, a.ptr(), b.ptr(), 0)) };
      ensure!(m.is_none() == *ok, "value", "{} compares {:?} with {:?} as {:?}", k.text, a, b, m);
      if ["1", "34", "2"].contains(&b.as_str()) && ["1", "2"].contains(&a.as_str()) {
        let (a, b) = (a.parse::<i64>().unwrap(), b.parse::<i64>().unwrap());
        let m = [own(pactffi_matches_i64_value(rule, a, b, 0)), own(pactffi_matches_u64_value(rule, a as u64, b as u64, 0))];
        ensure!(m.iter().all(|m| m.is_none() == *ok), "value", "{} compares the numbers {} with {} as {:?}", k.text, a, b, m);
      }
      cx.tick("values compared");
    }
  }
  ensure!(have == k.rules, "definition", "the rules of {} are {:?}, not {:?}", k.text, have, k.rules);
  pactffi_matching_rule_iter_delete(it);
  if !early { pactffi_matcher_definition_delete(d); }
  // and what is no definition has an error and nothing else
  let bad = cx.rng.pick_s(&["matching(", "", "matching(typ,'a')", "matching(integer, 'a')", "eachKey()"]);
  let d = { let text = t(&bad); pactffi_parse_matcher_definition(text.ptr()) };
  let e = own(pactffi_matcher_definition_error(d));
  ensure!(e.map(|e| !e.is_empty()) == Some(true) && pactffi_matcher_definition_value(d).is_null() && pactffi_matcher_definition_iter(d).is_null() && pactffi_matcher_definition_value_type(d) == 0 && pactffi_matcher_definition_generator(d).is_null(), "definition", "{:?} has no error, or a value", bad);
  pactffi_matcher_definition_delete(d);
  cx.saw(k.text);
  Ok(())
}

unsafe fn pairs(cx: &mut Cx) -> Verdict {
  let bodies: Vec<String> = ["{\"a\":1,\"b\":[1,2]}", "{\"a\":2,\"b\":[1,2]}", "{\"a\":1}", "[]", "\"x\"", "{\"a\":1,\"b\":[1]}"].iter().map(|s| s.to_string()).collect();
  let (a, b) = (cx.rng.pick(&bodies).clone(), cx.rng.pick(&bodies).clone());
  let make = |b: &str| { let (b, ct) = (t(b), t("application/json")); pactffi_message_new_from_body(b.ptr(), ct.ptr()) };
  let (m1, m2) = (make(&a), make(&b));
  let found = pactffi_match_message(m1, m2);
  ensure!(!found.is_null(), "mismatches", "nothing came of matching {} with {}", a, b);
  let it = pactffi_mismatches_get_iter(found);
  let mut n = 0;
  loop {
    let m = pactffi_mismatches_iter_next(it);
    if m.is_null() { break }
    n += 1;
    let (j, kind, s, d, c) = (own(pactffi_mismatch_to_json(m)).unwrap_or_default(), own(pactffi_mismatch_type(m)), own(pactffi_mismatch_summary(m)), own(pactffi_mismatch_description(m)), own(pactffi_mismatch_ansi_description(m)));
    let j: Value = serde_json::from_str(&j).unwrap_or_default();
    ensure!(j["type"].as_str() == kind.as_deref() && kind.is_some() && s.is_some() && d.is_some() && c.is_some(), "mismatches", "a mismatch of {} and {} is {}, {:?}, {:?}, {:?}, {:?}", a, b, j, kind, s, d, c);
  }
  ensure!((n == 0) == (a == b) || (a == "{\"a\":1}" && b != "[]" && b != "\"x\""), "mismatches", "{} mismatches between {} and {}", n, a, b);
  pactffi_mismatches_iter_delete(it);
  pactffi_mismatches_delete(found);
  // the messages are still the caller's
  for (m, w) in [(m1, &a), (m2, &b)] { let s = own(pactffi_message_get_contents(m)); ensure!(s.as_ref() == Some(w), "contents", "after matching, the message made of {:?} has {:?}", w, s); pactffi_message_delete(m); }
  cx.tick("messages matched");
  Ok(())
}

unsafe fn message(cx: &mut Cx) -> Verdict {
  // a failing call, and buffers of any size for what it says
  let bad = cx.rng.pick_s(&["2000-13-01", "x", "é", "a long text that is no date at all, not even close to one"]);
  let r = { let (v, f) = (t(&bad), t("yyyy-MM-dd")); pactffi_validate_datetime(v.ptr(), f.ptr()) };
  ensure!(r == 1, "date", "validating {} returns {}", bad, r);
  let want = format!("Date/Time string '{}' does not match pattern 'yyyy-MM-dd'", bad);
  let n = if cx.rng.bool() { want.len() + cx.rng.us(4) } else { cx.rng.us(200) };
  let mut buffer = vec![b'#'; n];
  let got = pactffi_get_error_message(buffer.as_mut_ptr() as *mut c_char, n as c_int);
  if n < want.len() + 1 { ensure!(got == -2, "message", "a buffer of {} for {:?} returns {}", n, want, got); }
  else {
    ensure!(got as usize == want.len() + 1 && &buffer[..want.len()] == want.as_bytes(), "message", "a buffer of {} for {:?} returns {} and has {:?}", n, want, got, buffer);
    ensure!(buffer[want.len()..].iter().all(|b| *b == 0), "message", "the excess of a buffer of {} for {:?} is {:?}", n, want, &buffer[want.len()..]);
  }
  cx.tick("messages written");
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P52", level: "exploration",
    rule: "A case is a random pact given to the C API as JSON and walked through its iterators and accessors four times, with every body and description read, changed from memory that is then overwritten and released, and read again, and everything deleted; under AddressSanitizer, with a count of the memory left",
    assumptions: vec!["memory left behind counts as leaked when each of the last three of four equal walks leaves some"],
    phases: vec![phase("walk", 600, walk), phase("older", 300, older), phase("values", 600, values)],
    floors: vec![("http interactions", 500), ("messages", 500), ("synchronous messages", 500), ("contents changed", 3000), ("walks balanced", 400), ("message pacts walked", 200), ("rounds balanced", 500), ("values compared", 1000), ("messages matched", 500), ("messages written", 500)],
    probes: vec![]
  }
}
