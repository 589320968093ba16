//! Writing pact files: histories of concurrent writers and readers (threads and processes) are
//! recorded and checked for linearizability; failed writes change nothing.
use std::collections::BTreeMap;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use moncore::*;
use pact_models::file_utils::{with_read_lock, with_write_lock};
use pact_models::pact::{read_pact, write_pact, ReadWritePact};
use pact_models::sync_pact::RequestResponsePact;
use pact_models::message_pact::MessagePact;
use pact_models::v4::pact::V4Pact;
use crate::merge::{self, contents, item_doc, load, pact_doc, spec, Id, Kind};

type State = BTreeMap<Id, u64>;

#[derive(Clone, Debug)]
enum Op { Merge(State), Overwrite(State), Read(Option<State>) }
#[derive(Clone, Debug)]
struct Ev { op: Op, ok: bool, err: String, from: u64, to: u64 }

fn now() -> u64 {
  let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
  unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
  t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

fn kind_of(n: u64) -> Kind { match n { 0 => Kind::V4, 1 => Kind::V3, 2 => Kind::Msg, 3 => Kind::V2, _ => Kind::V1 } }

fn read_state(path: &Path, k: Kind) -> Result<State, String> {
  let p = match k {
    Kind::Msg => MessagePact::read_pact(path).map(|p| Box::new(p) as merge::BoxPact),
    _ => read_pact(path)
  }.map_err(|e| format!("{:#}", e))?;
  Ok(contents(&p.to_json(spec(k)).map_err(|e| e.to_string())?).into_iter().collect())
}

/// One writer thread: executes its operations and records what it saw
fn run_ops(path: &Path, k: Kind, ops: &[Value]) -> Vec<Value> {
  let mut out = vec![];
  for op in ops {
    let us = op["wait"].as_u64().unwrap_or(0);
    if us > 0 { std::thread::sleep(Duration::from_micros(us)); }
    let from;
    let (ok, err, seen) = match op["op"].as_str().unwrap() {
      "read" => { from = now(); match read_state(path, k) {
        Ok(s) => (true, String::new(), json!(s.into_iter().map(|(i, v)| json!([i.typ, i.desc, i.states, v])).collect::<Vec<_>>())),
        Err(e) => (false, e, Value::Null)
      } }
      o => {
        let p = load(&op["doc"]).unwrap();
        from = now();
        let r = write_pact(p, path, spec(k), o == "overwrite");
        (r.is_ok(), r.err().map(|e| format!("{:#}", e)).unwrap_or_default(), Value::Null)
      }
    };
    out.push(json!({"from": from, "to": now(), "ok": ok, "err": err, "seen": seen, "n": op["n"]}));
  }
  out
}

/// Entry point of a writer process: several threads working on the same file
pub fn process(plan: &Path) {
  let plan_v: Value = serde_json::from_str(&std::fs::read_to_string(plan).unwrap()).unwrap();
  if let Some(n) = plan_v["fsize"].as_u64() {
    unsafe {
      libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
      libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: n, rlim_max: n });
    }
  }
  let path = Path::new(plan_v["path"].as_str().unwrap());
  let k = kind_of(plan_v["kind"].as_u64().unwrap());
  let start = plan_v["start"].as_u64().unwrap();
  let res: Vec<Vec<Value>> = std::thread::scope(|s| {
    let hs: Vec<_> = plan_v["threads"].as_array().unwrap().iter().map(|ops| s.spawn(move || {
      while now() < start { std::thread::sleep(Duration::from_micros(50)); }
      run_ops(path, k, ops.as_array().unwrap())
    })).collect();
    hs.into_iter().map(|h| h.join().unwrap()).collect()
  });
  let out = json!(res).to_string();
  // the result goes to stdout: a pipe, not subject to a file size limit
  print!("{}", out);
}

fn spawn(plan: &Value, dir: &Path, n: usize, delay: u64) -> std::process::Child {
  let f = dir.join(format!("plan{}.json", n));
  std::fs::write(&f, plan.to_string()).unwrap();
  Command::new(std::env::current_exe().unwrap()).env("PACTMON_WRITER", &f).env("PACTMON_FS2_DELAY", delay.to_string())
    .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap()
}

/// Is there an order of the operations, consistent with real time, that explains every result
/// and the final contents? (state = contents of the file; None = no file)
fn linearizable(evs: &[Ev], init: Option<State>, fin: &Option<State>, v4: bool) -> bool {
  fn go(evs: &[Ev], done: u32, st: &Option<State>, fin: &Option<State>, v4: bool, seen: &mut std::collections::HashSet<(u32, Option<State>)>) -> bool {
    if done.count_ones() as usize == evs.len() { return st == fin }
    if !seen.insert((done, st.clone())) { return false }
    let limit = evs.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, e)| e.to).min().unwrap();
    for (i, e) in evs.iter().enumerate() {
      if done & (1 << i) != 0 || e.from > limit { continue }
      let next = match &e.op {
        _ if !e.ok => Some(st.clone()),
        Op::Merge(s) => {
          let mut n = st.clone().unwrap_or_default();
          for (k, v) in s { if v4 { n.insert(k.clone(), *v); } else { n.entry(k.clone()).or_insert(*v); } }
          Some(Some(n))
        }
        Op::Overwrite(s) => Some(Some(s.clone())),
        Op::Read(r) => if r == st { Some(st.clone()) } else { None }
      };
      if let Some(n) = next { if go(evs, done | (1 << i), &n, fin, v4, seen) { return true } }
    }
    false
  }
  go(evs, 0, &init, fin, v4, &mut Default::default())
}

fn subset(r: &mut Rng, k: Kind, pool: &[Id], keyed: bool, ver: u64) -> (Value, State) {
  let n = r.range(1, 3.min(pool.len() as i64)) as usize;
  let mut ix: Vec<usize> = (0..pool.len()).collect();
  r.shuffle(&mut ix);
  ix.truncate(n);
  let doc = pact_doc(k, ix.iter().map(|i| item_doc(k, &pool[*i], *i, ver, if keyed { Some(format!("k{}", i)) } else { None })).collect());
  let st = contents(&doc).into_iter().collect();
  (doc, st)
}

fn concurrent_case(cx: &mut Cx) -> Verdict {
  let dir = cx.scratch.join(format!("c{}", cx.case));
  std::fs::create_dir_all(&dir).unwrap();
  let r = concurrent(cx, &dir);
  let _ = std::fs::remove_dir_all(&dir);
  r
}

fn concurrent(cx: &mut Cx, dir: &Path) -> Verdict {
  let kn = *cx.rng.pick(&[0u64, 0, 0, 1, 1, 2, 3]);
  let k = kind_of(kn);
  let np = cx.rng.range(1, 4) as usize;
  let npool = cx.rng.range(2, 8) as usize;
  let pool = merge::pool(&mut cx.rng, k, npool);
  let keyed = k == Kind::V4 && cx.rng.bool();
  let overwrites = cx.rng.chance(1, 3);
  let path = dir.join("sub").join("p.json");
  let mut init = None;
  if cx.rng.bool() {
    let (doc, st) = subset(&mut cx.rng, k, &pool, keyed, 1000);
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    let mut text = serde_json::to_string_pretty(&doc).unwrap();
    if cx.rng.bool() { text.push_str(&"\n".repeat(3000)); }
    std::fs::write(&path, text).unwrap();
    init = Some(st);
  }
  let delay = *cx.rng.pick(&[0u64, 200, 3000, 20000, 60000]);
  let start = now() + 30_000_000;
  let mut plans = vec![]; let mut ops_of: Vec<Vec<Vec<Op>>> = vec![];
  let mut ver = 0;
  let mut total = 0;
  for _ in 0..np {
    let nt = cx.rng.range(1, 3) as usize;
    let mut threads = vec![]; let mut tops = vec![];
    for _ in 0..nt {
      let n = cx.rng.range(1, 3);
      let mut ops = vec![]; let mut models = vec![];
      for _ in 0..n {
        if total == 14 { break }
        total += 1; ver += 1;
        let wait = if cx.rng.bool() { 0 } else { cx.rng.below(40000) };
        match cx.rng.below(8) {
          0 | 1 => { ops.push(json!({"op": "read", "wait": wait})); models.push(Op::Read(None)); }
          2 if overwrites => { let (doc, st) = subset(&mut cx.rng, k, &pool, keyed, ver); ops.push(json!({"op": "overwrite", "doc": doc, "wait": wait})); models.push(Op::Overwrite(st)); }
          _ => { let (doc, st) = subset(&mut cx.rng, k, &pool, keyed, ver); ops.push(json!({"op": "merge", "doc": doc, "wait": wait})); models.push(Op::Merge(st)); }
        }
      }
      threads.push(json!(ops)); tops.push(models);
    }
    plans.push(json!({"path": path.to_str(), "kind": kn, "start": start, "threads": threads}));
    ops_of.push(tops);
  }
  cx.note(format!("{:?} delay {} init {:?} plans {}", k, delay, init, json!(plans)));
  let kids: Vec<_> = plans.iter().enumerate().map(|(i, p)| spawn(p, dir, i, delay)).collect();
  let mut evs = vec![];
  for (kid, tops) in kids.into_iter().zip(ops_of) {
    let o = kid.wait_with_output().unwrap();
    ensure!(o.status.success(), "writer-crashed", "writer process ended with {:?}", o.status);
    let res: Vec<Vec<Value>> = match serde_json::from_slice(&o.stdout) { Ok(v) => v, Err(e) => return violated("writer-crashed", format!("no result: {}", e)) };
    for (rs, ms) in res.into_iter().zip(tops) { for (x, m) in rs.into_iter().zip(ms) {
      let op = match m { Op::Read(_) => Op::Read(x["seen"].as_array().map(|a| a.iter().map(|t| (Id { typ: t[0].as_u64().unwrap() as usize, desc: t[1].as_str().unwrap().into(), states: t[2].as_str().unwrap().into() }, t[3].as_u64().unwrap())).collect())), o => o };
      evs.push(Ev { op, ok: x["ok"] == true, err: x["err"].as_str().unwrap_or("").into(), from: x["from"].as_u64().unwrap(), to: x["to"].as_u64().unwrap() });
    } }
  }
  evs.sort_by_key(|e| e.from);
  for e in &evs { cx.note(format!("{:?}", e)); }
  // failures are only allowed for lack of a lock, or reading before there is anything to read
  let first_ok = if init.is_some() { 0 } else { evs.iter().filter(|e| e.ok && !matches!(e.op, Op::Read(_))).map(|e| e.to).min().unwrap_or(u64::MAX) };
  for e in &evs {
    if !e.ok {
      let lock = e.err.contains("lock on");
      let early = matches!(e.op, Op::Read(_)) && e.from < first_ok;
      ensure!(lock || early, "unexpected-failure", "{:?} failed: {}", e.op, e.err);
      cx.tick(if lock { "operations refused for lack of a lock" } else { "reads before the file exists" });
    } else { cx.tick(match e.op { Op::Merge(_) => "merging writes", Op::Overwrite(_) => "overwriting writes", Op::Read(_) => "reads" }); }
  }
  let fin = if path.exists() {
    let text = std::fs::read_to_string(&path).unwrap();
    if text.is_empty() && init.is_none() && first_ok == u64::MAX { None } else {
      match read_state(&path, k) { Ok(s) => {
        let v: Value = serde_json::from_str(&text).unwrap();
        let c = contents(&v);
        ensure!(c.len() == s.len(), "duplicates-in-file", "{}", v);
        Some(s)
      } Err(e) => return violated("file-corrupt", format!("{}: {:?}", e, text)) }
    }
  } else { None };
  let ok: Vec<Ev> = evs.iter().filter(|e| e.ok).cloned().collect();
  let overlaps = ok.iter().enumerate().filter(|(i, a)| ok[i + 1..].iter().any(|b| b.from < a.to && a.from < b.to)).count();
  if overlaps > 0 { cx.tick("histories with overlapping operations"); }
  // every interaction reported as written is there (checked first, for a clear message)
  if !ok.iter().any(|e| matches!(e.op, Op::Overwrite(_))) {
    for e in &ok { if let Op::Merge(s) = &e.op { for i in s.keys() {
      ensure!(fin.as_ref().map(|f| f.contains_key(i)).unwrap_or(false), "write-lost", "{:?} was reported written but is not in the file, final contents {:?}", i, fin);
    } } }
  }
  ensure!(linearizable(&ok, init, &fin, k == Kind::V4), "not-linearizable", "no order of the operations explains what was read and the final contents {:?}", fin);
  let mut order: Vec<(u64, usize)> = evs.iter().enumerate().map(|(i, e)| (e.to, i)).collect();
  order.sort();
  cx.saw((plans.len(), order.iter().map(|o| o.1).collect::<Vec<_>>(), evs.iter().map(|e| e.ok).collect::<Vec<_>>()));
  cx.sample(|| json!({"plans": plans, "history": evs.iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>()}));
  Ok(())
}

/// One writer: the file always holds exactly what the operations so far say
fn sequence_case(cx: &mut Cx) -> Verdict {
  let dir = cx.scratch.join(format!("s{}", cx.case));
  let r = sequence(cx, &dir);
  let _ = std::fs::remove_dir_all(&dir);
  r
}

fn sequence(cx: &mut Cx, dir: &Path) -> Verdict {
  let kn = *cx.rng.pick(&[0u64, 0, 1, 2, 3, 4]);
  let k = kind_of(kn);
  let npool = cx.rng.range(1, 8) as usize;
  let pool = merge::pool(&mut cx.rng, k, npool);
  let keyed = k == Kind::V4 && cx.rng.bool();
  let path = if cx.rng.bool() { dir.join("a").join("b").join("p.json") } else { dir.join("p.json") };
  let mut st: Option<State> = None;
  for step in 0..cx.rng.range(2, 7) as u64 {
    let (mut doc, s) = subset(&mut cx.rng, k, &pool, keyed, step);
    match cx.rng.below(9) {
      // refused writes leave the file as it was
      0 if st.is_some() => {
        doc["provider"]["name"] = json!("q");
        let before = std::fs::read(&path).unwrap();
        ensure!(write_pact(load(&doc)?, &path, spec(k), false).is_err(), "other-party-written", "a pact of another provider was merged into the file");
        ensure!(std::fs::read(&path).unwrap() == before, "failed-write-changed-file", "refused merge changed the file");
        cx.tick("refused writes");
        continue
      }
      1 if st.is_some() && k == Kind::V3 => {
        let i = st.as_ref().unwrap().keys().next().unwrap().clone();
        let n = pool.iter().position(|p| *p == i).unwrap();
        let mut x = item_doc(k, &i, n, 0, None);
        x["response"]["status"] = json!(555);
        let before = std::fs::read(&path).unwrap();
        ensure!(write_pact(load(&pact_doc(k, vec![x]))?, &path, spec(k), false).is_err(), "conflict-written", "a contradictory interaction was merged into the file");
        ensure!(std::fs::read(&path).unwrap() == before, "failed-write-changed-file", "refused merge changed the file");
        cx.tick("refused writes");
        continue
      }
      2 if st.is_some() => {
        let text = std::fs::read(&path).unwrap();
        let mut bad = text.clone();
        match cx.rng.below(4) { 0 => { bad.truncate(text.len() / 2); } 1 => { bad = b"not a pact".to_vec(); } 2 => { bad.extend(b"}"); } _ => { bad[0] = 0xff; } }
        std::fs::write(&path, &bad).unwrap();
        ensure!(write_pact(load(&doc)?, &path, spec(k), false).is_err(), "merged-into-corrupt", "merge into a corrupt file reported success");
        ensure!(std::fs::read(&path).unwrap() == bad, "failed-write-changed-file", "refused merge changed the file");
        cx.tick("refused writes");
        if cx.rng.bool() { std::fs::write(&path, &text).unwrap(); continue }
        // overwriting replaces it, whatever it was
        if let Err(e) = write_pact(load(&doc)?, &path, spec(k), true) { return violated("write-error", e.to_string()) }
        st = Some(s);
      }
      3 if k == Kind::V4 && st.is_some() => {
        // can not be written at V3: mixed kinds
        let mixed = pact_doc(k, vec![item_doc(k, &Id { typ: 0, desc: "x".into(), states: "[]".into() }, 0, 0, None), item_doc(k, &Id { typ: 1, desc: "y".into(), states: "[]".into() }, 0, 0, None)]);
        let before = std::fs::read(&path).unwrap();
        let ow = cx.rng.bool();
        ensure!(write_pact(load(&mixed)?, &path, spec(Kind::V3), ow).is_err(), "mixed-written", "a pact with mixed interactions was written as V3");
        ensure!(std::fs::read(&path).unwrap() == before, "failed-write-changed-file", "refused write changed the file");
        cx.tick("refused writes");
        continue
      }
      4 | 5 => {
        if let Err(e) = write_pact(load(&doc)?, &path, spec(k), true) { return violated("write-error", e.to_string()) }
        st = Some(s);
        cx.tick("overwriting writes");
      }
      _ => {
        if let Err(e) = write_pact(load(&doc)?, &path, spec(k), false) { return violated("write-error", format!("{:#}", e)) }
        let mut n = st.clone().unwrap_or_default();
        for (i, v) in s { if k == Kind::V4 { n.insert(i, v); } else { n.entry(i).or_insert(v); } }
        st = Some(n);
        cx.tick("merging writes");
      }
    }
    let text = std::fs::read_to_string(&path).unwrap();
    let v: Value = match serde_json::from_str(&text) { Ok(v) => v, Err(e) => return violated("file-corrupt", format!("{}: {:?}", e, text)) };
    let c = contents(&v);
    ensure!(c.len() == st.as_ref().unwrap().len() && c.iter().cloned().collect::<State>() == *st.as_ref().unwrap(), "file-contents", "expected {:?}, file has {:?}", st, c);
    match read_state(&path, k) { Ok(s) => ensure!(Some(&s) == st.as_ref(), "read-differs", "{:?} vs {:?}", s, st), Err(e) => return violated("read-error", e) }
    if k != Kind::Msg && k != Kind::V4 {
      match <RequestResponsePact as ReadWritePact>::read_pact(&path) { Ok(p) => ensure!(p.interactions.len() == c.len(), "read-differs", "{}", p.interactions.len()), Err(e) => return violated("read-error", e.to_string()) }
    }
    if k == Kind::V4 {
      match <V4Pact as ReadWritePact>::read_pact(&path) { Ok(p) => ensure!(p.interactions.len() == c.len(), "read-differs", "{}", p.interactions.len()), Err(e) => return violated("read-error", e.to_string()) }
      // writing it once more, nothing changes
      if cx.rng.chance(1, 3) {
        let p = read_pact(&path).unwrap();
        if let Err(e) = write_pact(p, &path, spec(k), false) { return violated("write-error", e.to_string()) }
        let lines = |v: &Value| { let mut a: Vec<String> = v["interactions"].as_array().unwrap().iter().map(|i| i.to_string()).collect(); a.sort(); a };
        let w: Value = serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap_or_default();
        ensure!(w["metadata"] == v["metadata"] && lines(&w) == lines(&v), "rewrite-changed-file", "writing the file's own contents back changed it: {} to {}", v, w);
        cx.tick("re-writes");
      }
    }
    cx.saw((kn, text));
  }
  Ok(())
}

/// Locks exclude: a write lock holder is alone, read lock holders only meet other readers
fn lock_case(cx: &mut Cx) -> Verdict {
  use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
  let path = cx.scratch.join(format!("l{}", cx.case));
  std::fs::write(&path, "x").unwrap();
  let (readers, writers, bad, got) = (AtomicI64::new(0), AtomicI64::new(0), AtomicU64::new(0), AtomicU64::new(0));
  let plan: Vec<Vec<(bool, u64)>> = (0..cx.rng.range(2, 5)).map(|_| (0..cx.rng.range(1, 3)).map(|_| (cx.rng.bool(), cx.rng.below(3000))).collect()).collect();
  std::thread::scope(|s| { for ops in &plan {
    let (path, readers, writers, bad, got) = (&path, &readers, &writers, &bad, &got);
    s.spawn(move || for (w, us) in ops {
      let hold = Duration::from_micros(*us);
      if *w {
        let mut f = std::fs::OpenOptions::new().read(true).write(true).open(path).unwrap();
        let _ = with_write_lock(path, &mut f, 3, &mut |_| {
          if writers.fetch_add(1, SeqCst) != 0 || readers.load(SeqCst) != 0 { bad.fetch_add(1, SeqCst); }
          std::thread::sleep(hold);
          if readers.load(SeqCst) != 0 { bad.fetch_add(1, SeqCst); }
          writers.fetch_sub(1, SeqCst); got.fetch_add(1, SeqCst); Ok(())
        });
      } else {
        let _ = with_read_lock(path, 3, &mut |_| {
          readers.fetch_add(1, SeqCst);
          if writers.load(SeqCst) != 0 { bad.fetch_add(1, SeqCst); }
          std::thread::sleep(hold);
          if writers.load(SeqCst) != 0 { bad.fetch_add(1, SeqCst); }
          readers.fetch_sub(1, SeqCst); got.fetch_add(1, SeqCst); Ok(())
        });
      }
    });
  } });
  // the lock is free again, including after the closure failed
  let t = Instant::now();
  let mut f = std::fs::OpenOptions::new().read(true).write(true).open(&path).unwrap();
  let e: Result<(), _> = with_write_lock(&path, &mut f, 3, &mut |_| Err(std::io::Error::new(std::io::ErrorKind::Other, "x").into()));
  ensure!(e.is_err(), "lock-error-swallowed", "the error of the closure was swallowed");
  let mut g = std::fs::OpenOptions::new().read(true).write(true).open(&path).unwrap();
  ensure!(with_write_lock(&path, &mut g, 1, &mut |_| Ok(())).is_ok(), "lock-leaked", "lock still held after its closure returned an error");
  // without the lock the closure does not run
  use std::os::fd::AsRawFd;
  unsafe { libc::flock(g.as_raw_fd(), libc::LOCK_EX) };
  let mut ran = false;
  let r = with_write_lock(&path, &mut f, 1, &mut |_| { ran = true; Ok(()) });
  ensure!(r.is_err() && !ran, "ran-without-lock", "closure ran without the exclusive lock");
  let r = with_read_lock(&path, 1, &mut |_| { ran = true; Ok(()) });
  ensure!(r.is_err() && !ran, "ran-without-lock", "closure ran without the shared lock");
  // one that has to wait gets its turn: the lock is let go well before the last attempt
  if cx.case % 4 == 0 {
    let shared = cx.rng.bool();
    let start = Instant::now();
    let (waited, released) = std::thread::scope(|s| {
      let w = s.spawn(|| if shared { with_read_lock(&path, 3, &mut |_| Ok(Instant::now())) } else { let mut f = std::fs::OpenOptions::new().read(true).write(true).open(&path).unwrap(); with_write_lock(&path, &mut f, 3, &mut |_| Ok(Instant::now())) });
      std::thread::sleep(Duration::from_millis(60));
      let before = Instant::now();
      unsafe { libc::flock(g.as_raw_fd(), libc::LOCK_UN) };
      let released = Instant::now();
      (w.join().unwrap(), (before, released))
    });
    let kind = if shared { "shared" } else { "exclusive" };
    match waited {
      Ok(at) => ensure!(at >= released.0, "ran-without-lock", "closure ran without the {kind} lock"),
      Err(e) => ensure!(released.1 - start > Duration::from_millis(400), "no-wait", "the {kind} lock was let go after {:?}, but: {e}", released.1 - start)
    }
    cx.tick("locks waited for");
  }
  let _ = t;
  let _ = std::fs::remove_file(&path);
  ensure!(bad.load(SeqCst) == 0, "lock-not-exclusive", "{} overlapping exclusive sections, plan {:?}", bad.load(SeqCst), plan);
  cx.add("locked sections", got.load(SeqCst));
  cx.saw(format!("{:?}", plan));
  Ok(())
}

fn torn_write() -> Verdict {
  let dir = std::env::temp_dir().join(format!("pactmon-torn-{}", std::process::id()));
  std::fs::create_dir_all(&dir).unwrap();
  let path = dir.join("p.json");
  let mk = |n: usize, long: usize| item_doc(Kind::V3, &Id { typ: 0, desc: "x".repeat(long) + &n.to_string(), states: "[]".into() }, n, 0, None);
  let before = serde_json::to_string_pretty(&pact_doc(Kind::V3, vec![mk(0, 1)])).unwrap();
  std::fs::write(&path, &before).unwrap();
  let plan = json!({"path": path.to_str(), "kind": 1, "start": 0, "fsize": 3000, "threads": [[{"op": "merge", "doc": pact_doc(Kind::V3, vec![mk(1, 5000)])}]]});
  let out = spawn(&plan, &dir, 0, 0).wait_with_output().unwrap();
  let res: Value = serde_json::from_slice(&out.stdout).unwrap_or(Value::Null);
  let after = std::fs::read_to_string(&path).unwrap_or_default();
  let _ = std::fs::remove_dir_all(&dir);
  ensure!(res[0][0]["ok"] == false, "short-write-reported-ok", "{}", res);
  ensure!(after == before, "torn-write", "a write that failed part way left {} bytes of the file, previous contents lost", after.len());
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P05", level: "exploration",
    rule: "Histories of 1-4 writer processes with 1-3 threads each, merging, overwriting and reading one pact file with delays injected around every lock call, checked for linearizability against the file's final contents; single-writer sequences with refused writes and corrupt files checked step by step; lock exclusion under threads. Non-trivial: each distinct completion order of a concurrent history, each distinct file contents of a sequence.",
    assumptions: vec!["Locks are advisory flock(2) locks: every process that touches the file uses this library."],
    phases: vec![phase("concurrent", 120, concurrent_case), phase("sequence", 1500, sequence_case), phase("locks", 80, lock_case)],
    floors: vec![("merging writes", 1000), ("overwriting writes", 300), ("reads", 50), ("histories with overlapping operations", 40), ("refused writes", 200), ("locked sections", 100), ("locks waited for", 15), ("re-writes", 100)],
    probes: vec![("torn-write", torn_write)]
  }
}
