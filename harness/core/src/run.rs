//! Case runner. A parent process supervises a child that executes the cases on several threads;
//! a crash or a hang of the child is narrowed to the case in flight and re-run alone before it is
//! reported. Verdicts are three-valued: violated (exit 1), held (exit 0), inconclusive (exit 3).
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::rng::{fnv, Rng};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

#[derive(Clone, Debug)]
pub struct Violation {
  /// Short stable key naming what was broken
  pub sig: String,
  pub detail: String
}

impl Violation { pub fn new(sig: &str, detail: String) -> Violation { Violation { sig: sig.into(), detail } } }

pub type Verdict = Result<(), Violation>;

pub fn violated<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
  Err(Violation { sig: sig.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
  ($cond:expr, $sig:expr, $($arg:tt)*) => { if !$cond { return $crate::violated($sig, format!($($arg)*)); } };
}

pub struct Cx {
  pub rng: Rng,
  pub tier: Tier,
  pub phase: &'static str,
  pub case: u64,
  pub seed: u64,
  pub scratch: PathBuf,
  events: BTreeMap<&'static str, u64>,
  seen: HashSet<u64>,
  notes: Vec<String>,
  pub sample: Option<Value>
}

impl Cx {
  /// Counts an observation made by a monitor.
  pub fn tick(&mut self, what: &'static str) { *self.events.entry(what).or_insert(0) += 1; }
  pub fn add(&mut self, what: &'static str, n: u64) { *self.events.entry(what).or_insert(0) += n; }
  pub fn count(&self, what: &'static str) -> u64 { self.events.get(what).copied().unwrap_or(0) }
  /// Records a distinct non-trivial observed case (by hash).
  pub fn saw<H: Hash>(&mut self, v: H) {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    self.phase.hash(&mut h);
    v.hash(&mut h);
    self.seen.insert(h.finish());
  }
  /// Describes the input being run; kept for the replay file when the case fails.
  pub fn note(&mut self, s: impl Into<String>) { self.notes.push(s.into()); }
  pub fn sample(&mut self, f: impl FnOnce() -> Value) { if self.sample.is_none() { self.sample = Some(f()); } }
}

pub type CaseFn = fn(&mut Cx) -> Verdict;

#[derive(Clone)]
pub struct Phase {
  pub name: &'static str,
  /// cases in the quick tier
  pub quick: u64,
  /// cases per round in the thorough tier (rounds repeat until the time budget is used)
  pub thorough: u64,
  /// run on this many threads (0 = all)
  pub threads: usize,
  pub f: CaseFn
}

pub fn phase(name: &'static str, quick: u64, f: CaseFn) -> Phase {
  Phase { name, quick, thorough: quick * 10, threads: 0, f }
}
pub fn phase_t(name: &'static str, quick: u64, threads: usize, f: CaseFn) -> Phase {
  Phase { name, quick, thorough: quick * 4, threads, f }
}

pub struct Property {
  pub id: &'static str,
  pub level: &'static str,
  /// How cases are made and what makes one non-trivial
  pub rule: &'static str,
  pub assumptions: Vec<&'static str>,
  pub phases: Vec<Phase>,
  /// Monitor events that must have been observed at least this often for "held" to be said
  pub floors: Vec<(&'static str, u64)>,
  /// Fixed-input probes of recorded known findings: (signature, what fails, probe). The probe
  /// returns Err when the defect is still present.
  pub probes: Vec<(&'static str, fn() -> Verdict)>
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
      else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let bt = if std::env::var("PACTMON_BT").is_ok() { format!("\n{}", std::backtrace::Backtrace::force_capture()) } else { String::new() };
    if std::env::var("PACTMON_TRACE").is_ok() { eprintln!("panic: {} at {}{}", msg, loc, bt); }
    LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}{}", msg, loc, bt));
  }));
}

pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

/// Runs code that must not panic. Returns Err(description) when it does.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn panic_sig(desc: &str) -> String {
  // the message without quoted input and without line numbers
  let d: String = desc.chars().take(400).collect();
  let file = d.rsplit(" at ").next().unwrap_or("").rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
  let msg: String = d.chars().take_while(|c| *c != ':' && *c != '`' && *c != '"' && *c != '\'' && *c != '(').collect();
  format!("panic:{}:{}", file, msg.trim().chars().take(60).collect::<String>())
}

pub fn run_case(prop: &Property, ph: &Phase, seed: u64, tier: Tier, case: u64, scratch: &Path) -> (Cx, Verdict) {
  let key = fnv(format!("{}/{}/{}/{}", prop.id, ph.name, seed, case).as_bytes());
  let mut cx = Cx {
    rng: Rng::new(key), tier, phase: ph.name, case, seed, scratch: scratch.to_path_buf(),
    events: BTreeMap::new(), seen: HashSet::new(), notes: vec![], sample: None
  };
  let r = catch_unwind(AssertUnwindSafe(|| (ph.f)(&mut cx)));
  let v = match r {
    Ok(v) => v,
    Err(_) => { let d = last_panic(); Err(Violation { sig: panic_sig(&d), detail: format!("panicked: {}", d) }) }
  };
  (cx, v)
}

#[derive(Default)]
struct Totals {
  evaluations: u64,
  events: BTreeMap<String, u64>,
  seen: HashSet<u64>,
  samples: Vec<Value>,
  violations: Vec<Value>,
  sigs: HashSet<String>,
  per_phase: BTreeMap<String, u64>
}

pub fn env_u64(k: &str, d: u64) -> u64 { std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d) }

fn tier() -> Tier { if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick } }

fn verif_dir() -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())) }

/// Per-thread "case in flight" slots, shared with the parent through a mapped file.
struct Slots { ptr: *mut u64, n: usize }
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
  fn map(path: &Path, n: usize) -> Slots {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
    f.set_len((n * 24) as u64).unwrap();
    use std::os::unix::io::AsRawFd;
    let p = unsafe { libc::mmap(std::ptr::null_mut(), n * 24, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED);
    Slots { ptr: p as *mut u64, n }
  }
  fn set(&self, i: usize, phase: u64, case: u64, tick: u64) {
    unsafe {
      (*(self.ptr.add(i * 3) as *const AtomicU64)).store(phase, Ordering::SeqCst);
      (*(self.ptr.add(i * 3 + 1) as *const AtomicU64)).store(case, Ordering::SeqCst);
      (*(self.ptr.add(i * 3 + 2) as *const AtomicU64)).store(tick, Ordering::SeqCst);
    }
  }
  fn get(&self, i: usize) -> (u64, u64, u64) {
    unsafe {
      ((*(self.ptr.add(i * 3) as *const AtomicU64)).load(Ordering::SeqCst),
       (*(self.ptr.add(i * 3 + 1) as *const AtomicU64)).load(Ordering::SeqCst),
       (*(self.ptr.add(i * 3 + 2) as *const AtomicU64)).load(Ordering::SeqCst))
    }
  }
}
const MAX_SLOTS: usize = 64;

fn child(prop: Arc<Property>, work: &Path) {
  install_panic_hook();
  let seed = env_u64("VERIF_SEED", 1);
  let tier = tier();
  let slots = Arc::new(Slots::map(&work.join("slots"), MAX_SLOTS));
  let totals = Arc::new(Mutex::new(Totals::default()));
  let start = Instant::now();
  let budget = Duration::from_secs(match tier {
    Tier::Quick => env_u64("PACTMON_QUICK_CAP_S", 400),
    Tier::Thorough => env_u64("PACTMON_BUDGET_S", 600)
  });
  // the quick tier goes on for a moment after its fixed number of cases
  let least = match tier { Tier::Quick => Duration::from_secs(env_u64("PACTMON_QUICK_S", 10)), Tier::Thorough => budget };
  let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(MAX_SLOTS);
  let stop = Arc::new(AtomicBool::new(false));
  let mut round = 0u64;
  loop {
    for (pi, ph) in prop.phases.iter().enumerate() {
      // the thorough tier starts with the cases of the quick one, then gives every phase an equal share of the time
      let n = if tier == Tier::Quick || round == 0 { ph.quick } else { ph.thorough };
      let phase_end = Instant::now() + Duration::from_millis(budget.as_millis() as u64 / (4 * prop.phases.len() as u64));
      let threads = if ph.threads == 0 { ncpu } else { ph.threads.min(ncpu) };
      let next = Arc::new(AtomicU64::new(0));
      let mut hs = vec![];
      for t in 0..threads {
        let (prop, next, totals, slots, stop, ph) = (prop.clone(), next.clone(), totals.clone(), slots.clone(), stop.clone(), ph.clone());
        let scratch = work.join(format!("t{}", t));
        let _ = std::fs::create_dir_all(&scratch);
        let b = std::thread::Builder::new().stack_size(8 << 20).name(format!("w{}", t));
        hs.push(b.spawn(move || {
          let mut local = Totals::default();
          let mut tickno = 0u64;
          loop {
            if stop.load(Ordering::SeqCst) { break }
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= n { break }
            if i % 16 == 0 && start.elapsed() > if round == 0 { budget.max(Duration::from_secs(400)) } else { least } { break }
            if i % 16 == 0 && tier == Tier::Thorough && round > 0 && Instant::now() > phase_end { break }
            let case = round * n + i;
            tickno += 1;
            slots.set(t, pi as u64 + 1, case, tickno);
            let (cx, v) = run_case(&prop, &ph, seed, tier, case, &scratch);
            local.evaluations += 1;
            *local.per_phase.entry(ph.name.to_string()).or_insert(0) += 1;
            for (k, v) in &cx.events { *local.events.entry(k.to_string()).or_insert(0) += v; }
            if local.seen.len() < 2_000_000 { local.seen.extend(cx.seen.iter()); }
            if local.samples.len() < 2 { if let Some(s) = &cx.sample { local.samples.push(json!({"phase": ph.name, "case": case, "input": s})); } }
            if let Err(viol) = v {
              let mut tot = totals.lock().unwrap();
              if tot.sigs.insert(format!("{}|{}", ph.name, viol.sig)) || std::env::var("PACTMON_ALL").is_ok() {
                tot.violations.push(json!({
                  "property": prop.id, "phase": ph.name, "case": case, "seed": seed, "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
                  "signature": viol.sig, "detail": viol.detail, "trace": cx.notes
                }));
              }
              if tot.violations.len() >= 25 && std::env::var("PACTMON_ALL").is_err() { stop.store(true, Ordering::SeqCst); }
            }
          }
          slots.set(t, 0, 0, 0);
          let mut tot = totals.lock().unwrap();
          tot.evaluations += local.evaluations;
          for (k, v) in local.events { *tot.events.entry(k).or_insert(0) += v; }
          for (k, v) in local.per_phase { *tot.per_phase.entry(k).or_insert(0) += v; }
          if tot.seen.len() < 4_000_000 { tot.seen.extend(local.seen); }
          let have = tot.samples.iter().filter(|s| s["phase"] == ph.name).count();
          if have < 2 { tot.samples.extend(local.samples.into_iter().take(2 - have)); }
        }).unwrap());
      }
      for h in hs { let _ = h.join(); }
    }
    round += 1;
    if start.elapsed() > least || stop.load(Ordering::SeqCst) { break }
  }
  let mut known = vec![];
  for (sig, probe) in &prop.probes {
    let r = match catch_unwind(AssertUnwindSafe(|| probe())) {
      Ok(v) => v,
      Err(_) => { let d = last_panic(); Err(Violation { sig: panic_sig(&d), detail: format!("panicked: {}", d) }) }
    };
    known.push(match r {
      Ok(()) => json!({"signature": sig, "present": false}),
      Err(v) => json!({"signature": sig, "present": true, "detail": v.detail})
    });
  }
  let tot = totals.lock().unwrap();
  let report = json!({
    "evaluations": tot.evaluations, "distinct": tot.seen.len(), "events": tot.events, "per_phase": tot.per_phase,
    "samples": tot.samples, "violations": tot.violations, "rounds": round, "known": known,
    "capped": start.elapsed() > budget && tier == Tier::Quick
  });
  std::fs::write(work.join("report.json.tmp"), report.to_string()).unwrap();
  std::fs::rename(work.join("report.json.tmp"), work.join("report.json")).unwrap();
}

fn load_known(id: &str) -> Vec<(String, String)> {
  let p = verif_dir().join("known_findings.jsonl");
  std::fs::read_to_string(p).unwrap_or_default().lines()
    .filter_map(|l| serde_json::from_str::<Value>(l).ok())
    .filter(|v| v["property"] == id && v["status"] == "known")
    .map(|v| (v["signature"].as_str().unwrap_or("").to_string(), v["what"].as_str().unwrap_or("").to_string()))
    .collect()
}

fn mkwork(id: &str) -> PathBuf {
  let d = std::env::temp_dir().join(format!("pactmon-{}-{}", id, std::process::id()));
  let _ = std::fs::remove_dir_all(&d);
  std::fs::create_dir_all(&d).unwrap();
  d
}

/// Re-runs one case in a process of its own. Ok(true) = fails (crash or hang or violation).
fn isolate(id: &str, phase: u64, case: u64, work: &Path) -> Option<String> {
  let exe = std::env::current_exe().unwrap();
  let out = work.join("iso.json");
  let _ = std::fs::remove_file(&out);
  let mut c = Command::new(exe).arg("one").arg(id).arg(phase.to_string()).arg(case.to_string()).arg(&out)
    .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
  let t = Instant::now();
  loop {
    match c.try_wait() {
      Ok(Some(st)) => {
        if st.success() { return None }
        return Some(match std::fs::read_to_string(&out) { Ok(s) => s, Err(_) => format!("process died: {:?}", st) })
      }
      Ok(None) => {
        if t.elapsed() > Duration::from_secs(90) { let _ = c.kill(); let _ = c.wait(); return Some("case did not finish within 90 s of running alone (normally well under a second)".into()) }
        std::thread::sleep(Duration::from_millis(50));
      }
      Err(_) => return None
    }
  }
}

pub fn main_with(props: Vec<Property>) {
  let args: Vec<String> = std::env::args().collect();
  let find = |id: &str| props.iter().position(|p| p.id == id);
  let mode = args.get(1).map(|s| s.as_str()).unwrap_or("");
  match mode {
    "list" => { for p in &props { println!("{}", p.id); } }
    "one" => {
      install_panic_hook();
      let p = &props[find(&args[2]).unwrap()];
      let ph = &p.phases[args[3].parse::<usize>().unwrap() - 1];
      let w = mkwork(p.id);
      let (ph2, seed, case) = (ph.clone(), env_u64("VERIF_SEED", 1), args[4].parse().unwrap());
      let r = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || run_case(p, &ph2, seed, tier(), case, &w)).unwrap().join()
      });
      let _ = std::fs::remove_dir_all(&w);
      match r {
        Ok((cx, Err(v))) => { let _ = std::fs::write(&args[5], json!({"signature": v.sig, "detail": v.detail, "trace": cx.notes}).to_string()); std::process::exit(1) }
        Ok((_, Ok(()))) => {}
        Err(_) => std::process::exit(1)
      }
    }
    "child" => {
      let i = find(&args[2]).unwrap();
      let mut props = props;
      let p = props.swap_remove(i);
      child(Arc::new(p), Path::new(&args[3]));
    }
    "replay" => {
      install_panic_hook();
      let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
      let p = &props[find(v["property"].as_str().unwrap()).unwrap()];
      let ph = p.phases.iter().find(|ph| ph.name == v["phase"].as_str().unwrap()).unwrap();
      let w = mkwork(p.id);
      let t = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
      let (cx, r) = run_case(p, ph, v["seed"].as_u64().unwrap(), t, v["case"].as_u64().unwrap(), &w);
      let _ = std::fs::remove_dir_all(&w);
      for n in &cx.notes { println!("{}", n); }
      match r {
        Ok(()) => println!("case holds"),
        Err(v) => { println!("VIOLATED [{}] {}", v.sig, v.detail); std::process::exit(1) }
      }
    }
    "run" => {
      let id = args[2].clone();
      let p = match find(&id) { Some(i) => &props[i], None => { eprintln!("unknown property {}", id); std::process::exit(2) } };
      std::process::exit(parent(p));
    }
    _ => { eprintln!("usage: run <id> | list | replay <file>"); std::process::exit(2) }
  }
}

fn parent(p: &Property) -> i32 {
  let t0 = Instant::now();
  let seed = env_u64("VERIF_SEED", 1);
  let tier_s = if tier() == Tier::Quick { "quick" } else { "thorough" };
  let mut violations: Vec<Value> = vec![];
  let mut report = Value::Null;
  let mut inconclusive: Option<String> = None;
  let work = mkwork(p.id);
  let exe = std::env::current_exe().unwrap();
  let slots = Slots::map(&work.join("slots"), MAX_SLOTS);
  let mut c = match Command::new(&exe).arg("child").arg(p.id).arg(&work).stdin(Stdio::null()).stdout(Stdio::null()).spawn() {
    Ok(c) => c, Err(e) => { eprintln!("cannot start child: {}", e); return 3 }
  };
  let mut last: Vec<((u64, u64, u64), Instant)> = (0..slots.n).map(|_| ((0, 0, 0), Instant::now())).collect();
  let mut suspects: Vec<(u64, u64, String)> = vec![];
  let status = loop {
    match c.try_wait() {
      Ok(Some(st)) => break Some(st),
      Ok(None) => {
        for i in 0..slots.n {
          let g = slots.get(i);
          if g != last[i].0 { last[i] = (g, Instant::now()); }
          else if g.0 != 0 && last[i].1.elapsed() > Duration::from_secs(60) { suspects.push((g.0, g.1, "hang".into())); }
        }
        if !suspects.is_empty() { let _ = c.kill(); let _ = c.wait(); break None }
        std::thread::sleep(Duration::from_millis(20));
      }
      Err(_) => break None
    }
  };
  if let Ok(s) = std::fs::read_to_string(work.join("report.json")) {
    report = serde_json::from_str(&s).unwrap_or(Value::Null);
  }
  if report.is_null() {
    if suspects.is_empty() {
      for i in 0..slots.n { let g = slots.get(i); if g.0 != 0 { suspects.push((g.0, g.1, format!("child died: {:?}", status))); } }
    }
    let mut confirmed = false;
    for (ph, case, why) in suspects.iter().take(8) {
      if let Some(desc) = isolate(p.id, *ph, *case, &work) {
        confirmed = true;
        let name = p.phases[*ph as usize - 1].name;
        let (sig, detail, trace) = match serde_json::from_str::<Value>(&desc) {
          Ok(v) => (v["signature"].as_str().unwrap_or("").to_string(), v["detail"].as_str().unwrap_or("").to_string(), v["trace"].clone()),
          Err(_) => (format!("abort:{}", name), format!("{} ({})", desc, why), Value::Null)
        };
        violations.push(json!({"property": p.id, "phase": name, "case": case, "seed": seed, "tier": tier_s,
          "signature": sig, "detail": detail, "trace": trace}));
        break;
      }
    }
    if !confirmed { inconclusive = Some(format!("the workload process ended early ({:?}) and no single case reproduces it", status)); }
  } else {
    violations.extend(report["violations"].as_array().cloned().unwrap_or_default());
  }
  if std::env::var("PACTMON_KEEP").is_err() { let _ = std::fs::remove_dir_all(&work); }

  let known = load_known(p.id);
  // every known-findings entry must correspond to a probe that still fails
  for k in report["known"].as_array().cloned().unwrap_or_default() {
    let sig = k["signature"].as_str().unwrap_or("").to_string();
    let listed = known.iter().find(|(s, _)| *s == sig);
    if k["present"] == true {
      match listed {
        Some((_, what)) => println!("KNOWN-FINDING: property={} {} [{}]", p.id, what, sig),
        None => violations.push(json!({"property": p.id, "phase": "probe", "case": 0, "seed": seed, "tier": tier_s, "signature": sig, "detail": k["detail"]}))
      }
    }
  }
  let mut real = vec![];
  for v in violations {
    let sig = format!("{}|{}", v["phase"].as_str().unwrap_or(""), v["signature"].as_str().unwrap_or(""));
    match known.iter().find(|(s, _)| *s == sig) {
      Some((_, what)) => println!("KNOWN-FINDING: property={} {} [{}]", p.id, what, sig),
      None => real.push(v)
    }
  }
  let ev = report["events"].as_object().cloned().unwrap_or_default();
  if real.is_empty() && inconclusive.is_none() {
    for (k, n) in &p.floors {
      let got = ev.get(*k).and_then(|v| v.as_u64()).unwrap_or(0);
      if got < *n { inconclusive = Some(format!("monitor event '{}' observed {} times, need {}", k, got, n)); }
    }
  }
  let wall = t0.elapsed().as_secs_f64();
  let mut cov = json!({
    "evaluations": report["evaluations"].as_u64().unwrap_or(0),
    "distinct_nontrivial": report["distinct"].as_u64().unwrap_or(0),
    "rule": p.rule,
    "samples": report["samples"].as_array().cloned().unwrap_or_default(),
    "monitor_events": ev,
    "cases_per_phase": report["per_phase"],
    "rounds": report["rounds"],
    "known_finding_probes": report["known"],
    "verdict": if !real.is_empty() { "violated" } else if inconclusive.is_some() { "inconclusive" } else { "held" }
  });
  if let Some(why) = &inconclusive { cov["inconclusive"] = json!(why); }
  let evidence = json!({
    "property": p.id, "tier": tier_s, "seed": seed, "level": p.level, "coverage": cov,
    "assumptions": p.assumptions, "wall_s": (wall * 1000.0).round() / 1000.0, "violations": real.len()
  });
  let evd = verif_dir().join("evidence");
  let _ = std::fs::create_dir_all(&evd);
  if let Err(e) = std::fs::write(evd.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&evidence).unwrap() + "\n") {
    eprintln!("cannot write evidence: {}", e);
  }
  if !real.is_empty() {
    let rd = verif_dir().join("replay");
    let _ = std::fs::create_dir_all(&rd);
    for (i, v) in real.iter().enumerate() {
      let f = rd.join(format!("{}-{}-{}.json", p.id, seed, i));
      let _ = std::fs::write(&f, serde_json::to_string_pretty(v).unwrap());
      println!("VIOLATION property={} replay={}", p.id, f.display());
      println!("  phase={} case={} [{}] {}", v["phase"].as_str().unwrap_or(""), v["case"], v["signature"].as_str().unwrap_or(""),
        v["detail"].as_str().unwrap_or("").chars().take(1500).flat_map(|c| if c.is_control() && c != '\n' { c.escape_default().collect::<Vec<_>>() } else { vec![c] }).collect::<String>());
    }
    let _ = std::io::stdout().flush();
    return 1;
  }
  if let Some(why) = inconclusive { println!("INCONCLUSIVE property={} {}", p.id, why); return 3; }
  println!("held: property={} tier={} seed={} cases={} distinct={} wall={:.1}s", p.id, tier_s, seed,
    report["evaluations"], report["distinct"], wall);
  0
}
