//! P50: no sequence of calls, however wrong, takes the process down, and the library works afterwards.
use moncore::*;
use pact_ffi::mock_server::handles::*;
use pact_ffi::mock_server::*;
use pact_ffi::models::iterators::*;
use pact_ffi::plugins::*;
use pact_models::PactSpecification;
use serde_json::json;
use crate::text::*;

macro_rules! call { ($cx:expr, $f:ident ( $($a:expr),* )) => {{ if trace() { eprintln!("{} {:?}", stringify!($f), ($(&$a,)*)); } $cx.tick(stringify!($f)); #[allow(deprecated)] let r = $f($($a),*); r }} }
pub fn trace() -> bool { static T: std::sync::OnceLock<bool> = std::sync::OnceLock::new(); *T.get_or_init(|| std::env::var("PACTMON_TRACE").is_ok()) }

fn handle(n: u32) -> InteractionHandle { unsafe { std::mem::transmute(n) } }
fn pact_handle(n: u16) -> PactHandle { unsafe { std::mem::transmute(n) } }
fn msg_handle(n: u32) -> MessageHandle { unsafe { std::mem::transmute(n) } }
fn of_pact(p: PactHandle) -> u16 { unsafe { std::mem::transmute(p) } }

/// Names make up the name of the file, which must stay in the scratch directory.
fn plain(t: Text) -> Text { match &t.0 { Some(s) if s.as_bytes().iter().any(|b| b"/\\.".contains(b)) || s.as_bytes().len() > 60 => Text::of("plain"), _ => t } }

fn part(r: &mut Rng) -> InteractionPart { if r.bool() { InteractionPart::Request } else { InteractionPart::Response } }

extern "C" { fn pactffi_string_delete(p: *mut libc::c_char); }

/// The caller frees the string in a result, whichever it is.
fn release(r: StringResult) { let p = match r { StringResult::Ok(p) | StringResult::Failed(p) => p }; if !p.is_null() { unsafe { pactffi_string_delete(p) } } }

fn sequences(cx: &mut Cx) -> Verdict {
  let mut pacts: Vec<PactHandle> = vec![];
  let mut ints: Vec<InteractionHandle> = vec![];
  let mut mpacts: Vec<MessagePactHandle> = vec![];
  let mut msgs: Vec<MessageHandle> = vec![];
  let mut freed: Vec<u16> = vec![];
  let mut ports: Vec<i32> = vec![];
  let dir = Text::of(cx.scratch.to_str().unwrap());
  let file = cx.scratch.join("part.txt");
  std::fs::write(&file, b"some contents").unwrap();
  pacts.push(pactffi_new_pact(Text::of("c").ptr(), Text::of("p").ptr()));
  ints.push(pactffi_new_interaction(pacts[0], Text::of("first").ptr()));
  let n = 3 + cx.rng.us(25);
  for _ in 0..n {
    let (a, b, c) = (hostile(&mut cx.rng), hostile(&mut cx.rng), hostile(&mut cx.rng));
    // most handles are good, some are the invalid handle the library itself hands out, some are stale
    let p = if cx.rng.chance(1, 12) && !freed.is_empty() { pact_handle(*cx.rng.pick(&freed)) } else { *cx.rng.pick(&pacts) };
    let i = match cx.rng.us(14) {
      0 => handle((of_pact(p) as u32) << 16),
      1 => handle(((of_pact(p) as u32) << 16) + cx.rng.us(4) as u32),
      2 if !freed.is_empty() => handle(((*cx.rng.pick(&freed) as u32) << 16) + 1),
      _ => *cx.rng.pick(&ints)
    };
    let m = if msgs.is_empty() || cx.rng.chance(1, 6) { msg_handle(unsafe { std::mem::transmute(i) }) } else { *cx.rng.pick(&msgs) };
    let part = part(&mut cx.rng);
    let idx = *cx.rng.pick(&[0usize, 0, 0, 1, 1, 2, 5, 40]);
    let data: Vec<u8> = { let n = cx.rng.us(40); (0..n).map(|_| cx.rng.us(256) as u8).collect() };
    let (dp, dl) = if cx.rng.chance(1, 8) { (std::ptr::null(), 0) } else { (data.as_ptr(), data.len()) };
    match cx.rng.us(50) {
      0 => { let (a, b) = (plain(a), plain(b)); let h = call!(cx, pactffi_new_pact(a.ptr(), b.ptr())); pacts.push(h) },
      1 => { let h = call!(cx, pactffi_new_interaction(p, a.ptr())); ints.push(h) },
      2 => { let h = call!(cx, pactffi_new_message_interaction(p, a.ptr())); ints.push(h) },
      3 => { let h = call!(cx, pactffi_new_sync_message_interaction(p, a.ptr())); ints.push(h) },
      4 => { call!(cx, pactffi_upon_receiving(i, a.ptr())); },
      5 => { call!(cx, pactffi_given(i, a.ptr())); },
      6 => { call!(cx, pactffi_given_with_param(i, a.ptr(), b.ptr(), c.ptr())); },
      7 => { call!(cx, pactffi_given_with_params(i, a.ptr(), b.ptr())); },
      8 => { call!(cx, pactffi_interaction_test_name(i, a.ptr())); },
      9 | 10 => { call!(cx, pactffi_with_request(i, a.ptr(), b.ptr())); },
      11 => { call!(cx, pactffi_with_query_parameter(i, a.ptr(), idx, b.ptr())); },
      12 | 13 => { call!(cx, pactffi_with_query_parameter_v2(i, a.ptr(), idx, b.ptr())); },
      14 => { let v = *cx.rng.pick(&[PactSpecification::V1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V4, PactSpecification::V4, PactSpecification::Unknown]); call!(cx, pactffi_with_specification(p, v)); },
      15 => { call!(cx, pactffi_with_pact_metadata(p, a.ptr(), b.ptr(), c.ptr())); },
      16 | 17 => { call!(cx, pactffi_with_metadata(i, a.ptr(), b.ptr(), part)); },
      18 => { call!(cx, pactffi_with_header(i, part, a.ptr(), idx, b.ptr())); },
      19 | 20 => { call!(cx, pactffi_with_header_v2(i, part, a.ptr(), idx, b.ptr())); },
      21 => { call!(cx, pactffi_set_header(i, part, a.ptr(), b.ptr())); },
      22 => { let s = cx.rng.us(65536) as u16; call!(cx, pactffi_response_status(i, s)); },
      23 => { call!(cx, pactffi_response_status_v2(i, a.ptr())); },
      24..=27 => {
        let (a, b) = if cx.rng.bool() { (a, b) } else {
          let t = cx.rng.pick_s(&["application/json", "application/xml", "text/xml", "application/x-www-form-urlencoded", "text/plain"]);
          (Text::of(&t), Text::of(&match cx.rng.us(4) { 0 => xml_doc(&mut cx.rng, 3).to_string(), 1 => json!({"root": xml_doc(&mut cx.rng, 3)}).to_string(), _ => doc(&mut cx.rng, 3).to_string() }))
        };
        call!(cx, pactffi_with_body(i, part, a.ptr(), b.ptr()));
      },
      28 => { call!(cx, pactffi_with_binary_body(i, part, a.ptr(), dp, dl)); },
      29 => { call!(cx, pactffi_with_binary_file(i, part, a.ptr(), dp, dl)); },
      30 | 31 => { call!(cx, pactffi_with_matching_rules(i, part, a.ptr())); },
      32 | 33 => { call!(cx, pactffi_with_generators(i, part, a.ptr())); },
      34 => {
        let f = match cx.rng.us(4) { 0 => Text::null(), 1 => Text::of("/nonexistent/x"), _ => Text::of(file.to_str().unwrap()) };
        if cx.rng.bool() { let r = call!(cx, pactffi_with_multipart_file_v2(i, part, a.ptr(), f.ptr(), b.ptr(), c.ptr())); release(r); }
        else { let r = call!(cx, pactffi_with_multipart_file(i, part, a.ptr(), f.ptr(), b.ptr())); release(r); }
      },
      35 => { call!(cx, pactffi_set_key(i, a.ptr())); },
      36 => { let v = cx.rng.bool(); call!(cx, pactffi_set_pending(i, v)); },
      37 => { call!(cx, pactffi_set_comment(i, a.ptr(), b.ptr())); },
      38 => { call!(cx, pactffi_add_text_comment(i, a.ptr())); },
      39 => {
        let it = call!(cx, pactffi_pact_handle_get_message_iter(p));
        if !it.is_null() { loop { let m = pactffi_pact_message_iter_next(it); if m.is_null() { break } } pactffi_pact_message_iter_delete(it); }
        let it = call!(cx, pactffi_pact_handle_get_async_message_iter(p));
        if !it.is_null() { loop { let m = pactffi_pact_async_message_iter_next(it); if m.is_null() { break } } pactffi_pact_async_message_iter_delete(it); }
      },
      40 => {
        let it = call!(cx, pactffi_pact_handle_get_sync_message_iter(p));
        if !it.is_null() { loop { let m = pactffi_pact_sync_message_iter_next(it); if m.is_null() { break } } pactffi_pact_sync_message_iter_delete(it); }
        let it = call!(cx, pactffi_pact_handle_get_sync_http_iter(p));
        if !it.is_null() { loop { let m = pactffi_pact_sync_http_iter_next(it); if m.is_null() { break } } pactffi_pact_sync_http_iter_delete(it); }
      },
      41 => {
        let h = call!(cx, pactffi_new_message_pact(a.ptr(), b.ptr())); mpacts.push(h);
        let m = call!(cx, pactffi_new_message(h, c.ptr())); msgs.push(m);
      },
      42 => { let m = call!(cx, pactffi_new_async_message(p, a.ptr())); msgs.push(m); },
      43 => {
        call!(cx, pactffi_message_expects_to_receive(m, a.ptr())); call!(cx, pactffi_message_given(m, b.ptr()));
        call!(cx, pactffi_message_given_with_param(m, a.ptr(), b.ptr(), c.ptr()));
      },
      44 => {
        // contents are given by length, or as text with its terminator
        let mut owned = match &b.0 { Some(s) => s.as_bytes_with_nul().to_vec(), None => vec![0] };
        if cx.rng.chance(1, 8) { call!(cx, pactffi_message_with_contents(m, a.ptr(), std::ptr::null::<u8>(), 0)); }
        else { let len = owned.len() - 1; call!(cx, pactffi_message_with_contents(m, a.ptr(), owned.as_ptr(), len)); }
        owned.iter_mut().for_each(|b| *b = b'!');
      },
      45 => { call!(cx, pactffi_message_with_metadata(m, a.ptr(), b.ptr())); },
      46 => { call!(cx, pactffi_message_with_metadata_v2(m, a.ptr(), b.ptr())); },
      47 => { call!(cx, pactffi_interaction_contents(i, part, a.ptr(), b.ptr())); },
      48 => {
        if cx.rng.bool() {
          let port = call!(cx, pactffi_create_mock_server_for_pact(p, Text::of("127.0.0.1:0").ptr(), cx.rng.bool())); ports.push(port);
        } else {
          let port = call!(cx, pactffi_create_mock_server_for_transport(p, Text::of("127.0.0.1").ptr(), 0, a.ptr(), b.ptr())); ports.push(port);
        }
      },
      _ => { if pacts.len() > 1 { let k = 1 + cx.rng.us(pacts.len() - 1); let h = pacts.swap_remove(k); call!(cx, pactffi_free_pact_handle(h)); freed.push(of_pact(h)); } }
    }
    drop(data);
    if cx.rng.chance(1, 6) { for m in &msgs { reify(cx, *m)?; } }
    if cx.rng.chance(1, 6) { let i = *cx.rng.pick(&ints); reify(cx, msg_handle(unsafe { std::mem::transmute(i) }))?; }
  }
  for m in msgs.clone() { reify(cx, m)?; }
  for port in &ports {
    call!(cx, pactffi_mock_server_mismatches(*port)); call!(cx, pactffi_mock_server_matched(*port));
    let over = cx.rng.bool();
    call!(cx, pactffi_write_pact_file(*port, dir.ptr(), over)); call!(cx, pactffi_mock_server_logs(*port)); call!(cx, pactffi_cleanup_mock_server(*port));
  }
  let mut written = vec![];
  for p in pacts {
    let p2 = call!(cx, pactffi_pact_handle_to_pointer(p));
    if !p2.is_null() { pact_ffi::models::pactffi_pact_model_delete(p2); }
    let name = pact_default_file_name(&p).unwrap_or_default();
    // a name that leads out of the directory is not followed
    if !name.contains('/') && !name.contains("..") { call!(cx, pactffi_pact_handle_write_file(p, dir.ptr(), true)); written.push(name); }
    call!(cx, pactffi_free_pact_handle(p));
    ensure!(call!(cx, pactffi_free_pact_handle(p)) == 1, "freed-twice", "a pact handle could be freed twice");
  }
  for p in mpacts { call!(cx, pactffi_free_message_pact_handle(p)); }
  for w in written { let _ = std::fs::remove_file(cx.scratch.join(w)); }
  // and the library still works
  let p = pactffi_new_pact(Text::of("after").ptr(), Text::of("all").ptr());
  let i = pactffi_new_interaction(p, Text::of("still there").ptr());
  ensure!(pactffi_with_request(i, Text::of("GET").ptr(), Text::of("/x").ptr()), "unusable", "an interaction can not be changed after the calls");
  ensure!(pactffi_pact_handle_write_file(p, dir.ptr(), true) == 0, "unusable", "a pact can not be written after the calls");
  let f = cx.scratch.join("after-all.json");
  let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap_or_default()).unwrap_or(json!(null));
  ensure!(v["interactions"][0]["request"]["path"] == "/x", "unusable", "the pact written after the calls is {}", v);
  let _ = std::fs::remove_file(f);
  pactffi_free_pact_handle(p);
  cx.tick("sequences survived");
  cx.saw((cx.case, n));
  Ok(())
}

fn reify(cx: &mut Cx, m: MessageHandle) -> Verdict {
  let s = call!(cx, pactffi_message_reify(m));
  ensure!(!s.is_null(), "reify-null", "message_reify returned NULL");
  let text = unsafe { std::ffi::CStr::from_ptr(s) }.to_string_lossy().to_string();
  unsafe { pactffi_free_string(s as *mut libc::c_char) };
  if !text.is_empty() {
    ensure!(serde_json::from_str::<serde_json::Value>(&text).is_ok(), "reify-json", "message_reify returned {}", text);
    cx.tick("messages reified");
  }
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P50", level: "exploration",
    rule: "A case is a sequence of up to 28 calls to the C API with arguments that are NULL, empty, not UTF-8, no JSON, unfinished or unexpected JSON, and handles that are invalid, freed or of another kind, run under AddressSanitizer and with overflow checks",
    assumptions: vec!["the mock server, plugin driver, TLS and multipart crates are stand-ins; pointers and lengths passed are those the documentation allows"],
    phases: vec![phase("sequences", 6000, sequences), phase("nothing", 1500, crate::nothing::nothing)],
    floors: vec![("sequences survived", 3000), ("messages reified", 500), ("pactffi_with_body", 1000), ("calls with nothing", 1200)],
    probes: vec![]
  }
}
