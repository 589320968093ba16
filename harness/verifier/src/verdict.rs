//! P40: what the verifier says about a provider whose behaviour is known.
use std::sync::{Arc, Mutex};
use moncore::*;
use serde_json::{json, Value};
use pact_verifier::*;
use pact_verifier::callback_executors::HttpRequestProviderStateExecutor;
use crate::stub::*;
use crate::world::*;

fn case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let npacts = *r.pick(&[1usize, 1, 1, 2, 3]);
  let mut all: Vec<Inter> = vec![];
  let mut pacts = vec![];
  let rate = *r.pick(&[0u64, 0, 2, 5, 10]);
  for p in 0..npacts {
    let spec = r.range(1, 4) as u32;
    let msgs = spec == 3 && r.bool();
    let n = r.range(1, 4) as usize;
    let mut mine = vec![];
    for _ in 0..n {
      let kind = match spec { 1 | 2 => Kind::Http, 3 => if msgs { Kind::Async } else { Kind::Http }, _ => *r.pick(&[Kind::Http, Kind::Http, Kind::Async, Kind::Sync]) };
      let states = (0..r.below(3)).map(|i| (format!("state {i}"), Default::default())).collect();
      let faulty = r.chance(rate, 10);
      let i = inter(r, all.len(), spec, kind, faulty, states);
      mine.push(i.clone()); all.push(i);
    }
    let refs: Vec<&Inter> = mine.iter().collect();
    pacts.push((pact(spec, msgs, &format!("consumer {p}"), "provider", &refs), mine));
  }
  // a source that can not be loaded is a failure too
  let mut sources: Vec<PactSource> = vec![];
  let mut bad_source = false;
  for (k, (p, _)) in pacts.iter().enumerate() {
    if r.bool() { sources.push(PactSource::String(p.to_string())); }
    else { let f = cx.scratch.join(format!("p{}-{k}.json", cx.case)); std::fs::write(&f, p.to_string()).unwrap(); sources.push(PactSource::File(f.to_string_lossy().to_string())); }
  }
  if r.chance(1, 10) {
    bad_source = true;
    let at = r.us(sources.len() + 1);
    sources.insert(at, match r.below(4) { 0 => PactSource::File("/nonexistent/pact.json".into()), 1 => PactSource::String("{\"consumer\":".into()), 2 => PactSource::Dir("/nonexistent/dir".into()), _ => PactSource::Unknown });
  }
  let log: Arc<Mutex<Vec<Option<usize>>>> = Default::default();
  let (world, log2) = (all.clone(), log.clone());
  let stub = Stub::start(move |q| { let w = whose(&world, &q); log2.lock().unwrap().push(w.map(|i| i.n)); w.map(|i| i.answer.clone()).unwrap_or_else(|| send(599, &[], "")) });
  let dead = r.chance(1, 25);
  let nobody = Dead::new();
  let info = provider("provider", if dead { nobody.port } else { stub.port });
  let opts: VerificationOptions<NullRequestFilterExecutor> = VerificationOptions { coloured_output: r.bool(), ..options() };
  cx.note(format!("pacts {:?}", pacts.iter().map(|p| p.0.to_string()).collect::<Vec<_>>()));
  cx.note(format!("behaviour {:?}", all.iter().map(|i| (&i.desc, &i.faults, &i.answer)).collect::<Vec<_>>()));
  cx.sample(|| json!({"pacts": pacts.iter().map(|p| p.0.clone()).collect::<Vec<_>>(), "faults": all.iter().map(|i| format!("{:?}", i.faults)).collect::<Vec<_>>()}));
  let res = match no_panic(|| block(verify_provider_async(info, sources, FilterInfo::None, vec![], &opts, None, &Arc::new(HttpRequestProviderStateExecutor::default()), None))) {
    Ok(Ok(v)) => v, Ok(Err(e)) => return violated("no-verdict", format!("{e}")), Err(p) => return violated("panic", p)
  };
  for (k, _) in pacts.iter().enumerate() { let _ = std::fs::remove_file(cx.scratch.join(format!("p{}-{k}.json", cx.case))); }
  let asked: Vec<Option<usize>> = log.lock().unwrap().clone();
  ensure!(asked == if dead { vec![] } else { all.iter().map(|i| Some(i.n)).collect::<Vec<_>>() }, "asked-provider", "the provider was asked for {:?}", asked);
  let failed = |i: &Inter| dead || !i.good();
  let expect = !bad_source && !all.iter().any(|i| failed(i) && !i.pending);
  ensure!(res.result == expect, if res.result { "passed-broken" } else { "failed-good" }, "the provider {} but the result is {}: {:?}", if expect { "does what the pacts say" } else { "breaks the pacts" }, res.result, res.errors);
  ensure!(res.interaction_results.len() == all.len(), "results-count", "{} results for {} interactions", res.interaction_results.len(), all.len());
  for (i, got) in all.iter().zip(&res.interaction_results) {
    ensure!(got.interaction_description == i.desc, "result-order", "result for '{}' where '{}' was verified", got.interaction_description, i.desc);
    ensure!(got.result.is_ok() != failed(i), if got.result.is_ok() { "passed-broken" } else { "failed-good" }, "interaction '{}' with {:?}: {:?}", i.desc, i.faults, got.result.as_ref().err());
    ensure!(got.pending == i.pending, "pending-flag", "interaction '{}' pending {}", i.desc, i.pending);
    ensure!(got.interaction_id == i.id, "interaction-id", "interaction '{}' has id {:?} and not {:?}", i.desc, got.interaction_id, i.id);
    cx.tick("interactions judged");
    match &got.result {
      Ok(()) => cx.tick("provider in line with the interaction"),
      Err(MismatchResult::Error(e, id)) => { ensure!(dead || i.faults.iter().any(|f| f.named().is_none()), "error-for-mismatch", "'{}' with {:?} gave the error {e}", i.desc, i.faults); ensure!(id == &i.id, "interaction-id", "error of '{}' for {:?}", i.desc, id); cx.tick("requests that failed") }
      Err(MismatchResult::Mismatches { mismatches, interaction_id, .. }) => {
        for f in &i.faults {
          let names = match f.named() { Some(n) => n, None => return violated("mismatch-for-error", format!("'{}' with {:?}: {:?}", i.desc, i.faults, mismatches)) };
          ensure!(mismatches.iter().any(|m| names.contains(&m.mismatch_type())), "mismatch-not-named", "'{}' with {:?}: {:?}", i.desc, i.faults, mismatches);
        }
        // nothing else is blamed (a missing or different body changes the content type header as well)
        for m in mismatches {
          let t = m.mismatch_type();
          ensure!(i.faults.iter().any(|f| f.named().map(|n| n.contains(&t)).unwrap_or(false) || (*f == Fault::BodyText && t == "HeaderMismatch")), "blames-good-part", "'{}' with {:?}: {:?}", i.desc, i.faults, mismatches);
        }
        ensure!(interaction_id == &i.id, "interaction-id", "mismatches of '{}' for {:?}", i.desc, interaction_id);
        cx.tick("mismatches reported")
      }
    }
    cx.saw((format!("{:?}", i.kind), &i.faults, i.pending, i.states.len(), dead, &i.json.to_string().len()));
  }
  // the lists of errors are those of the interactions
  let bad: Vec<&Inter> = all.iter().filter(|i| failed(i) && !i.pending).collect();
  let pend: Vec<&Inter> = all.iter().filter(|i| failed(i) && i.pending).collect();
  ensure!(res.errors.len() == bad.len() + bad_source as usize, "errors-listed", "{} errors for {} broken interactions (unloadable pact: {})", res.errors.len(), bad.len(), bad_source);
  ensure!(res.pending_errors.len() == pend.len(), "errors-listed", "{} pending errors for {} broken pending interactions", res.pending_errors.len(), pend.len());
  for i in &bad { ensure!(res.errors.iter().any(|(d, _)| d.ends_with(&format!(" - {}", i.desc))), "errors-listed", "'{}' is not among the errors {:?}", i.desc, res.errors); }
  for i in &pend { ensure!(res.pending_errors.iter().any(|(d, _)| d.ends_with(&format!(" - {}", i.desc))), "errors-listed", "'{}' is not among the pending errors {:?}", i.desc, res.pending_errors); cx.tick("pending failures"); }
  let j: Value = (&res).into();
  ensure!(j["result"] == json!(expect) && j["errors"].as_array().map(|a| a.len()) == Some(res.errors.len()) && j["pendingErrors"].as_array().map(|a| a.len()) == Some(res.pending_errors.len()), "result-json", "{j}");
  for i in &all { ensure!(res.output.iter().any(|l| l.contains(&i.desc)), "output", "'{}' does not appear in the output", i.desc); }
  if bad_source { cx.tick("pacts that do not load"); }
  if dead { cx.tick("providers that are not there"); }
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P40", level: "exploration",
    rule: "1-3 generated pacts (V1-V4: HTTP, asynchronous and synchronous messages, pending, type rules) verified against a loopback provider whose answer to each interaction is right, or wrong in one or two decided ways, or fails on the wire; the verdict, the result, kind of mismatch and pending flag of each interaction and the list of errors are compared with what was decided. Non-trivial: each distinct (kind, faults, pending, states, size).",
    assumptions: vec!["HTTP over loopback through a stand-in for reqwest; no TLS, no plugins.", "No broker: that is P44."],
    phases: vec![phase("verdicts", 6000, case)],
    floors: vec![("interactions judged", 12000), ("provider in line with the interaction", 4000), ("mismatches reported", 2500), ("requests that failed", 1000), ("pending failures", 150), ("pacts that do not load", 200), ("providers that are not there", 80)],
    probes: vec![]
  }
}
