//! P43: which interactions are verified.
use std::sync::{Arc, Mutex};
use moncore::*;
use serde_json::{json, Map, Value};
use pact_verifier::*;
use pact_verifier::callback_executors::HttpRequestProviderStateExecutor;
use crate::stub::*;
use crate::world::*;

/// A regular expression with its meaning
#[derive(Clone, Debug)]
enum Pat { Has(String), Starts(String), Ends(String), Is(String), Dot(String), Either(String, String) }
impl Pat {
  fn make(r: &mut Rng, pool: &[String]) -> Pat {
    let s = r.pick(pool).clone();
    let cs: Vec<char> = s.chars().collect();
    let cut = |r: &mut Rng| -> (usize, usize) { let a = r.us(cs.len()); (a, a + 1 + r.us(cs.len() - a)) };
    match r.below(6) {
      0 => { let (a, b) = cut(r); Pat::Has(cs[a..b].iter().collect()) }
      1 => { let n = 1 + r.us(cs.len()); Pat::Starts(cs[..n].iter().collect()) }
      2 => { let n = r.us(cs.len()); Pat::Ends(cs[n..].iter().collect()) }
      3 => Pat::Is(s),
      4 => { let (a, b) = cut(r); Pat::Dot(cs[a..b].iter().collect()) }
      _ => { let (a, b) = cut(r); Pat::Either(r.pick(pool).clone(), cs[a..b].iter().collect()) }
    }
  }
  fn src(&self) -> String {
    let esc = |s: &str| regex::escape(s);
    match self {
      Pat::Has(s) => esc(s), Pat::Starts(s) => format!("^{}", esc(s)), Pat::Ends(s) => format!("{}$", esc(s)), Pat::Is(s) => format!("^{}$", esc(s)),
      Pat::Dot(s) => { let mut c = s.chars(); c.next_back(); format!("{}.", esc(c.as_str())) }
      Pat::Either(a, b) => format!("^{}$|{}", esc(a), esc(b))
    }
  }
  fn fits(&self, t: &str) -> bool {
    match self {
      Pat::Has(s) => t.contains(s.as_str()), Pat::Starts(s) => t.starts_with(s.as_str()), Pat::Ends(s) => t.ends_with(s.as_str()), Pat::Is(s) => t == s,
      Pat::Dot(s) => { let mut c = s.chars(); c.next_back(); let p = c.as_str(); t.match_indices(p).any(|(i, _)| t[i + p.len()..].chars().next().is_some()) || (p.is_empty() && !t.is_empty()) }
      Pat::Either(a, b) => t == a || t.contains(b.as_str())
    }
  }
}

fn case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let alphabet = ['a', 'b', 'A', ' ', '.', '(', '+', 'é', '1'];
  let consumers = ["web", "Web", "mobile", "web app"];
  let dir = cx.scratch.join(format!("sel-{}", cx.case));
  let mut all: Vec<Inter> = vec![];
  struct P { consumer: String, provider: String, from: usize, to: usize, place: u8, source: usize }
  let mut ps: Vec<P> = vec![];
  let mut docs = vec![];
  let mut sources: Vec<PactSource> = vec![];
  let use_dir = r.chance(1, 2);
  if use_dir { sources.push(PactSource::Dir(dir.to_string_lossy().to_string())); std::fs::create_dir_all(&dir).unwrap(); }
  let mut descs: Vec<String> = vec![]; let mut names: Vec<String> = vec![];
  for p in 0..r.range(1, 4) as usize {
    let spec = r.range(1, 4) as u32;
    let msgs = spec == 3 && r.chance(1, 3);
    let from = all.len();
    for _ in 0..r.range(1, 4) {
      let n = all.len();
      let kind = match spec { 1 | 2 => Kind::Http, 3 => if msgs { Kind::Async } else { Kind::Http }, _ => *r.pick(&[Kind::Http, Kind::Async, Kind::Sync]) };
      let count = if spec < 3 { r.below(2) } else { r.below(3) };
      let states: Vec<(String, Map<String, Value>)> = (0..count).map(|_| (r.string_from(&alphabet, 1, 4), Map::new())).collect();
      let mut i = inter(r, n, spec, kind, false, states);
      // the number keeps message descriptions apart
      i.desc = format!("{}#{n}#{}", r.string_from(&alphabet, 0, 3), r.string_from(&alphabet, 0, 3));
      i.json["description"] = json!(i.desc);
      descs.push(i.desc.clone()); names.extend(i.states.iter().map(|s| s.0.clone()));
      all.push(i);
    }
    let consumer = r.pick_s(&consumers);
    let prov = if r.chance(1, 3) { "someone else" } else { "provider" };
    let refs: Vec<&Inter> = all[from..].iter().collect();
    let doc = pact(spec, msgs, &consumer, prov, &refs);
    let place = if use_dir && r.chance(2, 3) { 1 + r.below(2) as u8 } else { 0 };
    let source;
    if place == 0 { source = sources.len(); sources.push(PactSource::String(doc.to_string())); }
    else {
      source = 0;
      let d = if place == 1 { dir.clone() } else { dir.join(["sub", "sub/deep"][r.us(2)]) };
      std::fs::create_dir_all(&d).unwrap();
      std::fs::write(d.join(format!("p{p}.json")), doc.to_string()).unwrap();
    }
    docs.push(doc);
    ps.push(P { consumer, provider: prov.into(), from, to: all.len(), place, source });
  }
  let wanted: Vec<String> = if r.bool() { vec![] } else { r.subset(&consumers, 1, 2).into_iter().map(String::from).collect() };
  names.push("zzz".into()); descs.push("nothing".into());
  let dp = Pat::make(r, &descs); let sp = if r.chance(1, 4) { None } else { Some(Pat::make(r, &names)) };
  let s_src = sp.as_ref().map(|p| p.src()).unwrap_or_default();
  // a pattern for an empty text is a request for no state
  let (filter, by_desc, by_state) = match r.below(5) {
    0 => (FilterInfo::None, false, false), 1 => (FilterInfo::Description(dp.src()), true, false), 2 => (FilterInfo::State(s_src.clone()), false, true),
    _ => (FilterInfo::DescriptionAndState(dp.src(), s_src.clone()), true, true)
  };
  let fits = |i: &Inter| (!by_desc || dp.fits(&i.desc)) && (!by_state || match &sp { None => i.states.is_empty(), Some(p) => i.states.iter().any(|s| p.fits(&s.0)) });
  let log: Arc<Mutex<Vec<usize>>> = Default::default();
  let (w, l) = (all.clone(), log.clone());
  let stub = Stub::start(move |q| match whose(&w, &q) { Some(i) => { l.lock().unwrap().push(i.n); i.answer.clone() } None => send(599, &[], "") });
  cx.note(format!("pacts {:?} places {:?} filter {:?} consumers {:?}", docs.iter().map(|d| d.to_string()).collect::<Vec<_>>(), ps.iter().map(|p| p.place).collect::<Vec<_>>(), filter, wanted));
  cx.sample(|| json!({"pacts": docs, "filter": format!("{filter:?}"), "consumers": wanted}));
  let opts: VerificationOptions<NullRequestFilterExecutor> = options();
  let res = no_panic(|| block(verify_provider_async(provider("provider", stub.port), sources, filter.clone(), wanted.clone(), &opts, None, &Arc::new(HttpRequestProviderStateExecutor::default()), None)));
  let _ = std::fs::remove_dir_all(&dir);
  let res = match res { Ok(Ok(v)) => v, Ok(Err(e)) => return violated("no-verdict", format!("{e}")), Err(p) => return violated("panic", p) };
  drop(stub);
  let log = log.lock().unwrap().clone();
  // pacts of a directory are for the named provider only; other sources are taken as given
  let picked = |p: &P| (p.place == 0 || p.provider == "provider") && (wanted.is_empty() || wanted.contains(&p.consumer));
  let mut want: Vec<usize> = vec![];
  for p in &ps {
    for i in &all[p.from..p.to] {
      let due = picked(p) && fits(i);
      if due { want.push(i.n) }
      let got = log.iter().filter(|n| **n == i.n).count();
      ensure!(got == due as usize, if due { "not-verified" } else { "verified-unasked" }, "interaction '{}' with states {:?} of consumer {} (provider {}, place {}): sent {} times", i.desc, i.states, p.consumer, p.provider, p.place, got);
      let named = res.interaction_results.iter().filter(|x| x.interaction_description == i.desc).count();
      ensure!(named == due as usize, "result-for-selected", "interaction '{}' has {} results", i.desc, named);
      cx.tick(if due { "interactions selected" } else { "interactions left out" });
    }
    if p.place == 2 && picked(p) { cx.tick("pacts in sub-directories"); }
    if p.place > 0 && p.provider != "provider" { cx.tick("pacts of other providers"); }
    cx.saw((p.place, picked(p), by_desc, by_state, sp.is_none(), &wanted, want.len()));
  }
  // in the order of the file, file by file in the order of the sources
  let file_of = |n: &usize| ps.iter().position(|p| p.from <= *n && *n < p.to).unwrap();
  ensure!(log.windows(2).all(|w| if file_of(&w[0]) == file_of(&w[1]) { w[0] < w[1] } else { ps[file_of(&w[0])].source <= ps[file_of(&w[1])].source }), "order", "order {:?}", log);
  ensure!(res.result, "failed-good", "{:?}", res.errors);
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P43", level: "exploration",
    rule: "1-4 generated pacts of several consumers and providers, as documents and as files of nested directories, verified with generated consumer lists and filters by description and state (regular expressions of known meaning, and 'no state'); the interactions the loopback provider was asked for are compared with the ones selected. Non-trivial: each distinct (place, selection, filters, consumers, number).",
    assumptions: vec!["Directories hold pact files only.", "A directory's files may be verified in any order."],
    phases: vec![phase("selection", 4000, case)],
    floors: vec![("interactions selected", 4000), ("interactions left out", 8000), ("pacts in sub-directories", 200), ("pacts of other providers", 300)],
    probes: vec![]
  }
}
