//! P54: consumer tests get their messages, and their pact file is written exactly when all went as said.
use std::sync::mpsc::channel;
use std::time::Duration;
use moncore::*;
use pact_consumer::prelude::*;
use pact_mock_server::matching::MatchResult;
use crate::built::{build, check, generated};

fn read(dir: &std::path::Path, consumer: &str) -> Option<Value> {
  std::fs::read_to_string(dir.join(format!("{}-provider.json", consumer))).ok().and_then(|s| serde_json::from_str(&s).ok())
}

/// Runs `f` where a test may run: with no runtime, in a runtime of one thread, in one of several.
fn somewhere<T: Send + 'static>(place: usize, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Violation> {
  let (tx, rx) = channel();
  std::thread::spawn(move || {
    let r = no_panic(move || match place {
      0 => f(),
      1 => tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async move { f() }),
      _ => tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap().block_on(async move { f() })
    });
    let _ = tx.send(r);
  });
  match rx.recv_timeout(Duration::from_secs(20)) {
    Ok(Ok(v)) => Ok(v),
    Ok(Err(p)) => violated("test-panicked", format!("the messages could not be had ({}): {}", PLACES[place], p)),
    Err(_) => violated("test-hangs", format!("the messages did not come within 20 s ({})", PLACES[place]))
  }
}
const PLACES: [&str; 3] = ["outside a runtime", "in a runtime of one thread", "in a runtime of several threads"];

/// A directory for the case alone.
struct Home(std::path::PathBuf);
impl Drop for Home { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn own(cx: &Cx) -> Home {
  static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
  let d = cx.scratch.join(format!("case-{}", NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
  let _ = std::fs::create_dir_all(&d);
  Home(d)
}

/// The pact file of a test that ran before, for the same parties
fn earlier(dir: &std::path::Path, kind: usize, consumer: &str) {
  let mut p = match kind { 0 => PactBuilder::new(consumer, "provider"), 1 => PactBuilder::new_v3_message(consumer, "provider"), _ => PactBuilder::new_v4(consumer, "provider") };
  if kind == 1 { p.message_interaction("left by another test", |i| i); } else { p.interaction("left by another test", "", |i| i); }
  let p = p.build();
  pact_models::pact::write_pact(p.boxed(), &dir.join(p.default_file_name()), p.specification_version(), true).unwrap();
}
/// Takes what the earlier test left out of the file.
fn without_earlier(mut doc: Value, kind: usize) -> Result<Value, Violation> {
  let key = if kind == 1 { "messages" } else { "interactions" };
  let list = doc[key].as_array_mut();
  let n = list.as_ref().map(|l| l.len()).unwrap_or(0);
  if let Some(l) = list { l.retain(|i| i["description"] != "left by another test"); if l.len() + 1 == n { return Ok(doc) } }
  violated("earlier-lost", format!("what an earlier test had written is not there: {}", doc))
}

fn messages(cx: &mut Cx) -> Verdict {
  let kind = 1 + cx.rng.us(2);
  let place = cx.rng.us(3);
  let which = cx.rng.us(2);
  let seed = cx.rng.next();
  let home = own(cx);
  let dir = home.0.clone();
  let before = cx.rng.chance(1, 4);
  if before { earlier(&dir, kind, "tester"); cx.tick("earlier_files"); }
  let taken = if cx.rng.chance(1, 4) { cx.rng.us(3) } else { 100 };
  let failing = cx.rng.chance(1, 5);
  let (got, wants) = somewhere(place, move || {
    let (p, wants) = build(&mut Rng::new(seed), kind, "tester", Some(&dir));
    let bytes = |b: &pact_models::bodies::OptionalBody| b.value().map(|b| b.to_vec());
    type Got = Vec<(String, Vec<Option<Vec<u8>>>)>;
    fn take<M>(it: impl Iterator<Item = M>, taken: usize, failing: bool, f: impl Fn(M) -> (String, Vec<Option<Vec<u8>>>)) -> Got {
      let mut got = vec![];
      if failing {
        // the test fails while it holds the iterator
        let r = no_panic(std::panic::AssertUnwindSafe(|| { let mut it = it; while let Some(m) = it.next() { got.push(f(m)); if got.len() >= taken { break } } if true { panic!("the test itself failed") } }));
        assert!(matches!(&r, Err(m) if m.contains("the test itself failed")), "a failing test ended with {:?}", r);
      } else { got.extend(it.take(taken).map(f)); }
      got
    }
    let got: Got = if kind == 1 {
      take(p.v3_messages(), taken, failing, |m| (m.description.clone(), vec![bytes(&m.contents)]))
    } else if which == 0 {
      take(p.messages(), taken, failing, |m| (m.description.clone(), vec![bytes(&m.contents.contents)]))
    } else {
      take(p.synchronous_messages(), taken, failing, |m| (m.description.clone(), std::iter::once(&m.request).chain(m.response.iter()).map(|c| bytes(&c.contents)).collect()))
    };
    (got, wants)
  })?;
  let of = if kind == 1 || which == 0 { 1 } else { 2 };
  let want: Vec<String> = wants.iter().filter(|(k, _)| *k == of).map(|(_, w)| w.description.clone()).take(if failing { taken.max(1) } else { taken }).collect();
  let names: Vec<String> = got.iter().map(|g| g.0.clone()).collect();
  ensure!(names == want, "messages", "the messages {:?} were handed out, those of the pact are {:?}", names, want);
  for ((_, w), (d, bodies)) in wants.iter().filter(|(k, _)| *k == of).zip(&got) {
    ensure!(bodies.len() == w.sides.len(), "handed-out", "{} came in {} parts", d, bodies.len());
    for (side, b) in w.sides.iter().zip(bodies) { generated(d, side, b.as_deref())?; cx.tick("bodies"); }
  }
  let doc = read(&home.0, "tester");
  if failing {
    ensure!(doc.as_ref().map(|d| d["interactions"].as_array().or(d["messages"].as_array()).map(|l| l.len()) == Some(1)).unwrap_or(!before), "written", "the pact was written though the test failed: {:?}", doc);
    cx.tick("failing_tests");
    return Ok(())
  }
  let Some(mut doc) = doc else { return violated("not-written", "no pact file was written after the messages were consumed".to_string()) };
  if before { doc = without_earlier(doc, kind)?; }
  check(&doc, kind, "tester", &wants)?;
  cx.add("messages", names.len() as u64);
  cx.tick(["outside", "one_thread", "threads"][place]);
  cx.saw(doc.to_string());
  Ok(())
}

fn servers(cx: &mut Cx) -> Verdict {
  let kind = *cx.rng.pick(&[0usize, 2]);
  let home = own(cx);
  let dir = home.0.clone();
  let (p, wants) = build(&mut cx.rng, kind, "server", Some(&dir));
  let before = cx.rng.chance(1, 4);
  if before { earlier(&home.0, kind, "server"); cx.tick("earlier_files"); }
  let was = read(&home.0, "server");
  let server = p.start_mock_server(None, None);
  let url = server.url();
  ensure!(server.path("/a/b").as_str() == format!("{}a/b", url), "path", "the path /a/b is {} on {}", server.path("/a/b"), url);
  let port = url.port_or_known_default().unwrap_or_default();
  ensure!(server.status().is_empty(), "status", "the server reports {:?} before anything happened", server.status());
  let mut faults = vec![];
  let requests: Vec<_> = p.build().interactions().iter().filter_map(|i| i.as_v4_http()).map(|h| h.request).collect();
  for q in &requests {
    match cx.rng.us(8) { 0 => faults.push(MatchResult::MissingRequest(q.clone())), 1 => faults.push(MatchResult::RequestNotFound(q.clone())), 2 => faults.push(MatchResult::RequestMismatch(q.clone(), q.clone(), vec![])), _ => () }
  }
  pact_mock_server::FAULTS.lock().unwrap().insert(port, faults.clone());
  ensure!(server.status().len() == faults.len(), "status", "the server reports {} faults of {}", server.status().len(), faults.len());
  let failing = cx.rng.chance(1, 4);
  // the trait object cannot cross threads: it is dropped here
  let out = no_panic(std::panic::AssertUnwindSafe(move || { let _s = server; if failing { panic!("the test itself failed") } }));
  pact_mock_server::FAULTS.lock().unwrap().remove(&port);
  let doc = read(&home.0, "server");
  if failing {
    ensure!(matches!(&out, Err(m) if m.contains("the test itself failed")), "other-failure", "a failing test ended with {:?}", out);
    cx.tick("failing_tests");
  } else if faults.is_empty() {
    ensure!(out.is_ok(), "false-failure", "the test failed though all went as said: {:?}", out);
    let Some(mut doc) = doc else { return violated("not-written", "no pact file was written".to_string()) };
    if before { doc = without_earlier(doc, kind)?; }
    check(&doc, kind, "server", &wants)?;
    cx.tick("passing_tests");
  } else {
    let Err(m) = out else { return violated("passed", format!("the test passed though there was {:?}", faults)) };
    for f in &faults {
      let (q, word) = match f { MatchResult::MissingRequest(q) => (q, "never occurred"), MatchResult::RequestNotFound(q) => (q, "unexpected request"), MatchResult::RequestMismatch(q, ..) => (q, "request"), _ => continue };
      ensure!(m.contains(word) && m.contains(&q.path) && m.contains(&q.method), "fault-not-named", "{:?} is not named by {}", f, m);
    }
    cx.tick("failed_tests");
  }
  if !faults.is_empty() { ensure!(read(&home.0, "server") == was, "written", "a pact file was written though the requests were not as said"); }
  cx.saw((faults.len(), failing, wants.len()));
  Ok(())
}

pub fn prop() -> Property {
  Property { id: "P54", level: "exploration",
    rule: "pacts with messages are iterated outside a runtime and inside runtimes of one and several threads, and tests against a mock server end with and without faults; what is handed out, what is written and how the test ends are compared with what was said",
    assumptions: vec!["the mock server crate, which is not part of the repository, is a stand-in that reports the faults it is told; built without plugins"],
    phases: vec![phase("messages", 200, messages), phase("servers", 300, servers)],
    floors: vec![("messages", 60), ("outside", 20), ("one_thread", 20), ("threads", 20), ("passing_tests", 30), ("failed_tests", 20), ("failing_tests", 10), ("bodies", 100), ("earlier_files", 20)], probes: vec![] }
}
