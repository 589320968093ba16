//! Date-time formats (Java DateTimeFormatter letters): what they accept, what is generated from them.
use std::collections::HashMap;
use chrono::{DateTime, Datelike, Local, TimeZone, Timelike};
use moncore::*;
use pact_models::generators::{GenerateValue, Generator, NoopVariantMatcher, VariantMatcher};
use pact_models::time_utils::{generate_string, parse_pattern, to_chrono_pattern, validate_datetime};
use crate::dates::{civil, days, month_len, weekday};

#[derive(Clone, Copy, Debug)]
pub struct F { y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64, ns: i64, off: i64 }

const MON: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
const DAY: [&str; 7] = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];

fn off(f: &F, colon: &str) -> String { let a = f.off.abs(); format!("{}{:02}{}{:02}", if f.off < 0 { '-' } else { '+' }, a / 60, colon, a % 60) }
fn doy(f: &F) -> i64 { days(f.y, f.mo, f.d) - days(f.y, 1, 1) + 1 }

/// kind of the text: how it may sit next to others
#[derive(Clone, Copy, PartialEq, Debug)] enum K { Fixed, Digits, Word }

/// The text of a pattern letter for an instant, when it is one the formats define
fn text(p: &str, f: &F) -> Option<(String, K)> {
  let n = p.len(); let c = p.chars().next().unwrap();
  let num = |v: i64| if n >= 2 { (format!("{:0w$}", v, w = n), K::Fixed) } else { (v.to_string(), K::Digits) };
  Some(match (c, n) {
    ('y', 2) | ('Y', 2) | ('u', 2) => (format!("{:02}", f.y % 100), K::Fixed),
    ('y', 1) | ('Y', 1) | ('u', 1) => (f.y.to_string(), K::Digits),
    ('y', _) | ('Y', _) | ('u', _) => (format!("{:0w$}", f.y, w = n), if n == 4 { K::Fixed } else { K::Digits }),
    ('M', 1..=2) | ('L', _) => num(f.mo), ('M', 3) => (MON[f.mo as usize - 1][..3].into(), K::Word), ('M', 4) => (MON[f.mo as usize - 1].into(), K::Word),
    ('d', 1..=2) => num(f.d), ('D', 3) => (format!("{:03}", doy(f)), K::Fixed), ('D', 1) => (doy(f).to_string(), K::Digits),
    ('E', 1..=3) => (DAY[weekday(days(f.y, f.mo, f.d)) as usize][..3].into(), K::Word), ('E', 4) => (DAY[weekday(days(f.y, f.mo, f.d)) as usize].into(), K::Word),
    ('e', 1) | ('c', 1) => ((weekday(days(f.y, f.mo, f.d)) + 1).to_string(), K::Fixed),
    ('a', 1) => (if f.h < 12 { "AM" } else { "PM" }.into(), K::Word),
    ('H', 1..=2) => num(f.h), ('k', 1..=2) => num(if f.h == 0 { 24 } else { f.h }), ('h', 1..=2) => num((f.h + 11) % 12 + 1), ('K', 1..=2) => num(f.h % 12),
    ('m', 1..=2) => num(f.mi), ('s', 1..=2) => num(f.s),
    ('S', 1..=9) => (format!("{:09}", f.ns)[..n].into(), K::Fixed),
    ('n', 1) => (f.ns.to_string(), K::Digits), ('N', 1) => ((((f.h * 60 + f.mi) * 60 + f.s) * 1_000_000_000 + f.ns).to_string(), K::Digits), ('A', 1) => ((((f.h * 60 + f.mi) * 60 + f.s) * 1000 + f.ns / 1_000_000).to_string(), K::Digits),
    ('Q', 1..=2) | ('q', 1..=2) => num((f.mo + 2) / 3), ('Q', 3) => (format!("Q{}", (f.mo + 2) / 3), K::Word), ('Q', 4) => (format!("{} quarter", ["1st", "2nd", "3rd", "4th"][(f.mo as usize + 2) / 3 - 1]), K::Word),
    ('G', 1..=3) => ("AD".into(), K::Word),
    ('Z', 1..=3) => (off(f, ""), K::Fixed), ('Z', 4) if f.off != 0 => (format!("GMT{}", off(f, ":")), K::Fixed), ('Z', 5) => (off(f, ":"), K::Fixed),
    ('X', _) if f.off == 0 => ("Z".into(), K::Fixed),
    ('X', 1) | ('x', 1) => (if f.off % 60 == 0 { off(f, "")[..3].into() } else { off(f, "") }, K::Digits),
    ('X', 2) | ('x', 2) | ('X', 4) | ('x', 4) => (off(f, ""), K::Digits), ('X', 3) | ('x', 3) | ('X', 5) | ('x', 5) => (off(f, ":"), K::Digits),
    ('O', 4) => (format!("GMT{}", off(f, ":")), K::Fixed),
    ('O', 1) => { let a = f.off.abs(); (format!("GMT{}{}{}", if f.off < 0 { '-' } else { '+' }, a / 60, if a % 60 == 0 { String::new() } else { format!(":{:02}", a % 60) }), K::Digits) }
    _ => return None
  })
}

const LETTERS: [&str; 62] = ["yyyy", "yyyy", "yy", "y", "u", "uuuu", "YYYY", "M", "MM", "MM", "MMM", "MMMM", "L", "LL", "d", "dd", "dd", "D", "DDD", "E", "EEE", "EEEE", "e", "c", "a", "H", "HH", "HH", "k", "kk", "h", "hh", "K", "KK",
  "m", "mm", "mm", "s", "ss", "ss", "S", "SS", "SSS", "SSSSSS", "SSSSSSSSS", "n", "N", "A", "Q", "QQ", "QQQ", "QQQQ", "G", "Z", "ZZZZ", "ZZZZZ", "X", "XX", "XXX", "x", "xxx", "O"];

fn literal(r: &mut Rng) -> (String, String) {
  match r.below(7) {
    0 => { let t = r.pick_s(&["at", "T", "W", "o''clock", "dd-MM", "''x''", "%Y 100%", "é❤", "a''''b", "Z"]); (format!("'{}'", t), t.replace("''", "'")) }
    1 => ("''".into(), "'".into()),
    _ => { let t = r.pick_s(&["-", "/", ".", ":", " ", ", ", "T-"].map(|x| if x == "T-" { "; " } else { x })); (t.clone(), t) }
  }
}

pub fn instant(r: &mut Rng) -> F {
  let y = *r.pick(&[2024i64, 2023, 2000, 1999, 1900, 2100, 1970, 2038, 1582]);
  let mo = r.range(1, 12);
  let d = match r.below(4) { 0 => month_len(y, mo), 1 => 1, _ => r.range(1, month_len(y, mo)) };
  let (mo, d) = if r.chance(1, 10) && month_len(y, 2) == 29 { (2, 29) } else { (mo, d) };
  F { y, mo, d, h: *r.pick(&[0, 12, 23, 11, 1, 13, 9]), mi: *r.pick(&[0, 59, 30, 7]), s: *r.pick(&[0, 59, 8, 42]), ns: *r.pick(&[0, 999_999_999, 5, 123_456_789, 500_000_000, 7_000_000]),
    off: *r.pick(&[0i64, 60, -60, 330, -570, 720, 840, -720, 345, 600, -210]) }
}

/// A pattern with its parts: (letters or literal, text)
fn pattern(r: &mut Rng, f: &F) -> Vec<(String, String, bool)> {
  let mut parts: Vec<(String, String, bool)> = vec![]; let mut used: Vec<char> = vec![]; let mut open = false;
  for _ in 0..r.range(1, 6) {
    let p = *r.pick(&LETTERS); let c = match p.chars().next().unwrap() { 'u' | 'Y' => 'y', 'L' => 'M', c => c };
    if used.contains(&c) { continue }
    // day-of-year above 356 is not accepted (known)
    if c == 'D' && doy(f) > 356 { continue }
    let Some((t, k)) = text(p, f) else { continue };
    // a text without a fixed width must not run into the next one
    let last = parts.last().map(|(p, _, _)| p.chars().next().unwrap());
    if open || matches!(k, K::Digits | K::Word) && !parts.is_empty() && r.bool() || last.map_or(false, |l| l.is_ascii_alphabetic() && p.starts_with(l)) { let l = loop { let l = literal(r); if !l.1.starts_with(|c: char| c.is_ascii_digit()) && !l.1.starts_with(':') { break l } }; parts.push((l.0, l.1, false)); }
    else if !parts.is_empty() && r.chance(2, 3) { let l = literal(r); parts.push((l.0, l.1, false)); }
    used.push(c); parts.push((p.into(), t, true)); open = k != K::Fixed;
  }
  // two quoted texts next to each other would be read as one
  parts
}

fn join(parts: &[(String, String, bool)]) -> (String, String) { (parts.iter().map(|p| p.0.as_str()).collect(), parts.iter().map(|p| p.1.as_str()).collect()) }

fn valid(v: &str, p: &str) -> Result<Result<(), String>, Violation> {
  no_panic(|| validate_datetime(v, p)).map_err(|e| Violation { sig: "panic".into(), detail: format!("validate_datetime({:?}, {:?}) panicked: {}", v, p, e) })
}

fn accept_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let f = instant(r);
  let parts = pattern(r, &f);
  if parts.is_empty() { return Ok(()) }
  let (p, v) = join(&parts);
  if quotes_touch(&parts) { return Ok(()) }
  cx.note(format!("{:?} {:?}", p, v));
  let tokens = parse_pattern(&p).map_err(|e| Violation { sig: "pattern-refused".into(), detail: format!("{:?}: {}", p, e) })?;
  ensure!(!tokens.is_empty(), "pattern-empty", "{:?}", p);
  let res = valid(&v, &p)?;
  ensure!(res.is_ok(), format!("refused"), "{:?} is a value of format {:?} but was refused: {:?}", v, p, res);
  cx.tick("values accepted");
  // case of words does not matter
  let low: String = parts.iter().map(|(p, t, field)| if *field && "MEaG".contains(&p[..1]) { t.to_lowercase() } else { t.clone() }).collect();
  ensure!(valid(&low, &p)?.is_ok(), "refused", "{:?} is a value of format {:?}", low, p);
  // one part made wrong
  let k = r.us(parts.len());
  let (pt, t, field) = parts[k].clone();
  let bad: Vec<String> = if field {
    let c = pt.chars().next().unwrap(); let n = pt.len();
    let mut b: Vec<String> = match (c, n) {
      ('M', 1..=2) | ('L', _) => vec!["00".into(), "13".into(), "99".into(), "xx".into()], ('M', 3) => vec!["Jax".into(), "01".into(), "Mbr".into()], ('M', _) => vec!["Jan".into(), "Smarch".into(), "1".into()],
      ('d', _) => vec!["00".into(), "32".into(), "99".into()], ('D', _) => vec!["000".into(), "367".into(), "999".into()],
      ('E', 1..=3) => vec!["Xon".into(), "1".into()], ('E', _) => vec!["Mon".into(), "Moonday".into()], ('e', _) | ('c', _) => vec!["0".into(), "8".into(), "9".into()],
      ('a', _) => vec!["XM".into(), "A".into(), "noon".into()], ('H', _) => vec!["24".into(), "99".into()], ('k', _) => vec!["00".into(), "25".into()], ('h', _) => vec!["00".into(), "13".into()], ('K', _) => vec!["12".into(), "99".into()],
      ('m', _) => vec!["60".into(), "99".into()], ('s', _) => vec!["61".into(), "99".into()],
      ('Q', 1..=2) => vec!["0".into(), "5".into()], ('Q', 3) => vec!["Q0".into(), "Q5".into(), "1".into()], ('Q', _) => vec!["5th quarter".into(), "1st".into()],
      ('G', _) => vec!["XX".into(), "B".into()],
      ('Z', 1..=3) => vec!["0800".into(), "Z".into(), "+08".into(), "+-0800".into(), "+9900".into(), "+0860".into()], ('Z', 5) => vec!["0800".into(), "+-08:00".into(), "+08:60".into()], ('Z', _) => vec!["+08:00".into(), "GMX".into(), "GMT+99:00".into()],
      ('X', 3) | ('x', 3) => vec!["+0800".into(), "0800".into(), "++08:00".into(), "+08:60".into()], ('X', _) | ('x', _) => vec!["0800".into(), "-+0800".into(), "+99".into()],
      ('O', _) => vec!["+8".into(), "GMX+8".into(), "GMT++8".into(), "GMT+99".into()],
      _ => vec![]
    };
    if "yYuMdDHkhKmsSnNAeQcL".contains(c) && !(c == 'M' && n > 2) && !(c == 'Q' && n > 2) { b.push("".into()); b.push("x".into()); b.push("-1".into()); b.push(" 1".into()); }
    b
  } else { vec![format!("{}~", t), "~".into()] };
  if bad.is_empty() { return Ok(()) }
  let bt = r.pick(&bad).clone();
  let mut w = parts.clone(); w[k].1 = bt.clone();
  // a neighbour may legitimately absorb what is left, so the damaged part has to be delimited
  let fenced = |i: usize| -> bool { (i == 0 || !parts[i - 1].2 || parts[i - 1].1.chars().last().map_or(false, |c| c.is_alphabetic())) && (i + 1 == parts.len() || !parts[i + 1].2 || parts[i + 1].1.starts_with(|c: char| c.is_alphabetic())) };
  let numeric = |x: &str| x.chars().all(|c| c.is_ascii_digit() || c == '-' || c == '+' || c == ':');
  if fenced(k) || numeric(&bt) && k + 1 == parts.len() && (k == 0 || !parts[k - 1].2) {
    let (_, bv) = join(&w);
    if bv != v {
      let res = valid(&bv, &p)?;
      ensure!(res.is_err(), format!("accepted-{}", if field { &pt[..1] } else { "text" }), "{:?} is not a value of format {:?} but was accepted ({:?} in place of {:?})", bv, p, bt, t);
      cx.tick("damaged values refused");
    }
  }
  // something left at the end
  let tail = r.pick_s(&["~", " x", "-", "é"]);
  ensure!(valid(&format!("{}{}", v, tail), &p)?.is_err(), "accepted-tail", "{:?} was accepted by {:?}", format!("{}{}", v, tail), p);
  cx.saw((p, v));
  Ok(())
}

/// quoted text next to other quoted text or to a quote reads differently
fn quotes_touch(parts: &[(String, String, bool)]) -> bool { parts.windows(2).any(|w| w[0].0.ends_with('\'') && w[1].0.starts_with('\'')) }

/// Days a month does not have
fn calendar_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let y = match r.below(3) { 0 => *r.pick(&[1900i64, 2000, 2100, 2400, 2024, 2023, 1600, 1700]), 1 => r.range(1, 9999), _ => r.range(1900, 2100) };
  let mo = if r.chance(1, 3) { 2 } else { r.range(1, 12) };
  let len = month_len(y, mo);
  let d = *r.pick(&[1, 27, 28, 29, 30, 31, len, len + 1].map(|x: i64| x.min(31)));
  let f = F { y, mo, d, h: 0, mi: 0, s: 0, ns: 0, off: 0 };
  let mt = *r.pick(&["MM", "M", "MMM", "MMMM", "LL", "L"]); let dt = *r.pick(&["dd", "d"]); let yt = *r.pick(&["yyyy", "yyyy", "uuuu", "yyyyy", "", "yy"]);
  let mut parts = vec![(mt, text(mt, &f).unwrap().0), (dt, text(dt, &f).unwrap().0)];
  if !yt.is_empty() { parts.push((yt, text(yt, &f).unwrap().0)); }
  r.shuffle(&mut parts);
  let p = parts.iter().map(|x| x.0).collect::<Vec<_>>().join("-"); let v = parts.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("-");
  // without the century or the year the best year counts
  let ok = match yt { "" => d <= month_len(2000, mo), "yy" => d <= month_len(2000 + y % 100, mo), _ => d <= len };
  cx.note(format!("{} {}", p, v));
  let res = valid(&v, &p)?;
  ensure!(res.is_ok() == ok, if ok { "calendar-refused" } else { "calendar-accepted" }, "{:?} with format {:?}: {:?}", v, p, res);
  cx.tick(if ok { "calendar days accepted" } else { "calendar days refused" });
  cx.saw((p, v));
  Ok(())
}

fn local(f: &F) -> Option<(DateTime<Local>, F)> {
  let u = Local.timestamp_opt(days(f.y, f.mo, f.d) * 86400 + (f.h * 60 + f.mi) * 60 + f.s, f.ns as u32).single()?;
  let n = u.naive_local(); let (y, mo, d) = civil(days(n.year() as i64, n.month() as i64, n.day() as i64));
  let secs = u.offset().local_minus_utc() as i64;
  if secs % 60 != 0 { return None }
  Some((u, F { y, mo, d, h: n.hour() as i64, mi: n.minute() as i64, s: n.second() as i64, ns: n.nanosecond() as i64, off: secs / 60 }))
}

/// Letters whose generated text is exactly what the letter describes
const GEN: [&str; 38] = ["yyyy", "yyyy", "yy", "u", "y", "MM", "M", "MMM", "MMMM", "LL", "dd", "d", "DDD", "EEE", "E", "EEEE", "e", "a", "HH", "H", "hh", "h", "mm", "m", "ss", "s", "SSS", "SSSSSS", "SSSSSSSSS", "G", "Z", "ZZZZZ", "XX", "XXX", "XXXXX", "xx", "xxx", "xxxxx"];
fn generated(p: &str, f: &F) -> String {
  // numbers are generated with leading zeroes
  match p { "M" | "d" | "H" | "h" | "m" | "s" => text(&p.repeat(2), f).unwrap().0, "XX" | "XXX" | "XXXXX" if f.off == 0 => text(&p.to_lowercase(), f).unwrap().0, _ => text(p, f).unwrap().0 }
}

fn run_gen(g: &Generator, base: &DateTime<Local>) -> Result<String, Violation> {
  let key = match g { Generator::Date(..) => "baseDate", Generator::Time(..) => "baseTime", _ => "baseDateTime" };
  let ctx: HashMap<&str, Value> = [(key, json!(base.to_rfc3339()))].into_iter().collect();
  let vm: Box<dyn VariantMatcher + Send + Sync> = NoopVariantMatcher.boxed();
  no_panic(|| g.generate_value(&json!("x"), &ctx, &vm)).map_err(|e| Violation { sig: "panic".into(), detail: format!("{:?} panicked: {}", g, e) })?
    .map_err(|e| Violation { sig: "generate-error".into(), detail: format!("{:?}: {}", g, e) }).map(|v| v.as_str().map(String::from).unwrap_or_else(|| v.to_string()))
}

fn generate_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let Some((base, f)) = local(&instant(r)) else { return Ok(()) };
  let mut parts: Vec<(String, String)> = vec![]; let mut used = vec![];
  for _ in 0..r.range(1, 7) {
    let p = *r.pick(&GEN); let c = p.to_lowercase().chars().next().unwrap(); let c = match c { 'u' => 'y', 'l' => 'M', _ => p.chars().next().unwrap() };
    if used.contains(&c) || c == 'D' && doy(&f) > 356 { continue }
    if !parts.is_empty() { let l = loop { let l = literal(r); if !l.1.starts_with(':') || !used.last().map_or(false, |c| "xX".contains(*c)) { break l } }; parts.push(l) }
    used.push(c); parts.push((p.into(), generated(p, &f)));
  }
  if parts.is_empty() { return Ok(()) }
  let three: Vec<_> = parts.iter().map(|(a, b)| (a.clone(), b.clone(), false)).collect();
  if quotes_touch(&three) { return Ok(()) }
  let p: String = parts.iter().map(|x| x.0.as_str()).collect(); let want: String = parts.iter().map(|x| x.1.as_str()).collect();
  cx.note(format!("{:?} at {}", p, base.to_rfc3339()));
  let g = match r.below(3) { 0 => Generator::DateTime(Some(p.clone()), None), 1 => Generator::Time(Some(p.clone()), None), _ => Generator::Date(Some(p.clone()), None) };
  let got = run_gen(&g, &base)?;
  ensure!(got == want, "generated", "{:?} at {} gave {:?} instead of {:?}", g, base.to_rfc3339(), got, want);
  ensure!(valid(&got, &p)?.is_ok(), "generated-invalid", "{:?} was generated for {:?} and is not valid: {:?}", got, p, validate_datetime(&got, &p));
  // the current time
  let now = no_panic(|| generate_string(&p)).map_err(|e| Violation { sig: "panic".into(), detail: format!("generate_string({:?}) panicked: {}", p, e) })?;
  match now { Ok(s) => if !p.contains('D') { ensure!(valid(&s, &p)?.is_ok(), "generated-invalid", "generate_string({:?}) gave {:?}: {:?}", p, s, validate_datetime(&s, &p)) }, Err(e) => return violated("generate-error", format!("{:?} {}", p, e)) }
  // without a format: ISO
  let d = run_gen(&Generator::Date(None, None), &base)?; let t = run_gen(&Generator::Time(None, None), &base)?; let dt = run_gen(&Generator::DateTime(None, None), &base)?;
  ensure!(d == format!("{}-{}-{}", text("yyyy", &f).unwrap().0, text("MM", &f).unwrap().0, text("dd", &f).unwrap().0), "default-date", "{} at {}", d, base);
  ensure!(t == format!("{}:{}:{}", text("HH", &f).unwrap().0, text("mm", &f).unwrap().0, text("ss", &f).unwrap().0), "default-time", "{} at {}", t, base);
  ensure!(dt == format!("{}T{}.{}{}", d, t, text("SSS", &f).unwrap().0, off(&f, "")), "default-datetime", "{} at {}", dt, base);
  cx.tick("values generated");
  cx.saw((p, got));
  Ok(())
}

/// Same cases under other time zones
pub fn zone_process(spec: &str) {
  let (seed, n) = spec.split_once(':').unwrap();
  let (seed, n): (u64, u64) = (seed.parse().unwrap(), n.parse().unwrap());
  let p = prop(); let ph = p.phases.iter().find(|x| x.name == "generate").unwrap();
  let mut distinct = 0u64; let mut offs = std::collections::BTreeSet::new();
  for c in 0..n {
    let (cx, v) = run_case(&p, ph, seed, Tier::Quick, c, std::path::Path::new("/tmp"));
    let mut r = Rng::new(c); if let Some((_, f)) = local(&instant(&mut r)) { offs.insert(f.off); }
    if let Err(e) = v { println!("{}", json!({"sig": e.sig, "detail": e.detail})); return }
    distinct += cx.count("values generated");
  }
  println!("{}", json!({"values": distinct, "offsets": offs.len()}));
}

fn zones_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let zones = ["UTC0", "AAA-5:30", "BBB9:30", "CCC-14", "DDD12", "EEE-12:45", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NNN3:30"];
  let z = zones[cx.case as usize % zones.len()];
  let out = std::process::Command::new(std::env::current_exe().unwrap()).env("TZ", z).env("PACTMON_ZONE", format!("{}:{}", r.next() >> 1, 400)).output().unwrap();
  let v: Value = serde_json::from_slice(&out.stdout).map_err(|e| Violation { sig: "process".into(), detail: format!("{} {}", e, String::from_utf8_lossy(&out.stderr)) })?;
  if let Some(s) = v["sig"].as_str() { return violated(s, format!("TZ={}: {}", z, v["detail"].as_str().unwrap_or(""))) }
  cx.add("values generated in other zones", v["values"].as_u64().unwrap());
  cx.saw(z);
  Ok(())
}

fn total_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let alphabet: Vec<char> = "GuyDMLdQqYwWEecFahKkHmsSAnNVzOXxZ'' -:/.,[]{}#é0129%TP".chars().collect();
  let p: String = match r.below(3) {
    0 => r.string_from(&alphabet, 0, 12),
    1 => { let mut s = String::new(); for _ in 0..r.range(1, 5) { let c = *r.pick(&alphabet); let n = *r.pick(&[1, 1, 2, 3, 4, 5, 6, 9, 10, 20, 25, 300]); for _ in 0..n { s.push(c) } } s }
    _ => { let f = instant(r); let (mut p, _) = join(&pattern(r, &f)); if !p.is_empty() && p.is_ascii() { let i = r.us(p.len()); match r.below(3) { 0 => { p.remove(i); } 1 => p.insert(i, *r.pick(&alphabet)), _ => p.truncate(i) } } p }
  };
  let valphabet: Vec<char> = "0123456789999-+:/TZ GMTUTCADampmJanFeb'é ,.".chars().collect();
  let v = match r.below(4) { 0 => r.string_from(&valphabet, 0, 30), 1 => "9".repeat(r.range(1, 400) as usize), _ => { let f = instant(r); p.clone().chars().fold((String::new(), None), |(mut s, prev), c| { if prev != Some(c) || !c.is_alphabetic() { match text(&c.to_string(), &f) { Some((t, _)) => s.push_str(&t), None => s.push(c) } } (s, Some(c)) }).0 } };
  cx.note(format!("{:?} {:?}", p, v));
  let res = valid(&v, &p)?;
  let tokens = no_panic(|| parse_pattern(&p)).map_err(|e| Violation { sig: "panic".into(), detail: format!("parse_pattern({:?}): {}", p, e) })?;
  if tokens.is_err() { ensure!(res.is_err(), "bad-format-accepts", "{:?} is valid for the illegal format {:?}", v, p); }
  if let Ok(t) = &tokens { no_panic(|| to_chrono_pattern(t)).map_err(|e| Violation { sig: "panic".into(), detail: format!("to_chrono_pattern({:?}): {}", p, e) })?; cx.tick("legal formats"); }
  let g = no_panic(|| generate_string(&p)).map_err(|e| Violation { sig: "generate-panic".into(), detail: format!("generate_string({:?}): {}", p, e) })?;
  ensure!(g.is_ok() == tokens.is_ok(), "generate-legal", "generate_string({:?}) = {:?}, parse_pattern = {:?}", p, g, tokens);
  if let Some((base, _)) = local(&instant(r)) {
    for g in [Generator::Date(Some(p.clone()), None), Generator::Time(Some(p.clone()), None), Generator::DateTime(Some(p.clone()), None)] {
      match run_gen(&g, &base) { Err(e) if e.sig == "panic" => return Err(e), _ => () }
    }
  }
  cx.saw((p, v));
  Ok(())
}

/// Every letter generates a value that is valid for it, at every hour and on every day
fn letter(p: &str) -> Verdict {
  for y in [2023i64, 2024] { for mo in 1..=12 { for d in [1, 2, 9, month_len(y, mo)] { for h in [0i64, 1, 11, 12, 13, 23] {
    let Some((base, _)) = local(&F { y, mo, d, h, mi: 5, s: 9, ns: 7_008_009, off: 0 }) else { continue };
    let got = run_gen(&Generator::DateTime(Some(p.into()), None), &base)?;
    let res = valid(&got, p)?;
    ensure!(res.is_ok(), format!("letter-{}", p), "{:?} generated for format {:?} at {} is not valid: {:?}", got, p, base.to_rfc3339(), res);
  } } } }
  Ok(())
}

fn zone_ids() -> Verdict {
  for z in ["Europe/Warsaw", "America/New_York", "America/Argentina/Buenos_Aires", "Etc/GMT+5", "UTC", "Asia/Ho_Chi_Minh", "America/Port-au-Prince"] {
    let v = format!("2020-01-01 {}", z);
    ensure!(valid(&v, "yyyy-MM-dd VV")?.is_ok(), "zone-id", "{:?} is not accepted by VV: {:?}", v, validate_datetime(&v, "yyyy-MM-dd VV"));
  }
  for z in ["Europe/Nowhere", "Warsaw", "+01", ""] { ensure!(valid(z, "VV")?.is_err(), "zone-id-accepted", "{:?}", z); }
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P16", level: "exploration",
    rule: "Seeded formats over every letter with the text an independent formatter gives for seeded instants and offsets, the same text with one part damaged, calendar days that do and do not exist, and values generated at seeded instants under several time zones; arbitrary formats and values for totality. Non-trivial: each distinct (format, value).",
    assumptions: vec!["Letters that run into each other without a fixed width are ambiguous and not generated.", "The offset of the local zone at an instant is taken from the time zone library."],
    phases: vec![phase("accept", 40000, accept_case), phase("calendar", 20000, calendar_case), phase("generate", 12000, generate_case), phase("total", 24000, total_case), phase_t("zones", 9, 4, zones_case)],
    floors: vec![("values accepted", 5000), ("damaged values refused", 1500), ("calendar days refused", 500), ("values generated", 2000), ("legal formats", 1000), ("values generated in other zones", 1000)],
    probes: vec![("zone-id", zone_ids), ("letter-D", || letter("D")), ("letter-k", || letter("k")), ("letter-K", || letter("K")), ("letter-w", || letter("w")), ("letter-W", || letter("W")), ("letter-S", || letter("S")), ("letter-SSSS", || letter("SSSS")),
      ("letter-X", || letter("X")), ("letter-x", || letter("x")), ("letter-ZZZZ", || letter("ZZZZ")), ("letter-O", || letter("O")), ("letter-z", || letter("z")), ("letter-VV", || letter("VV")), ("letter-Q", || letter("Q")), ("letter-A", || letter("A")), ("letter-N", || letter("N")), ("letter-F", || letter("F")), ("letter-n", || letter("n")), ("letter-c", || letter("c")), ("letter-LLL", || letter("LLL")), ("letter-XXXX", || letter("XXXX"))]
  }
}
