//! Date/time expressions against an independent calendar.
use std::collections::HashMap;
use chrono::{DateTime, Datelike, FixedOffset, TimeZone, Timelike, Utc};
use moncore::*;
use pact_models::generators::datetime_expressions::{execute_date_expression, execute_datetime_expression, execute_time_expression};
use pact_models::generators::{GenerateValue, Generator, NoopVariantMatcher, VariantMatcher};
use crate::gen;

/// Days since 1970-01-01 of a civil date, and back (Gregorian, any year)
pub fn days(y: i64, m: i64, d: i64) -> i64 {
  let y = if m <= 2 { y - 1 } else { y };
  let era = y.div_euclid(400); let yoe = y - era * 400;
  let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
  era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
pub fn civil(z: i64) -> (i64, i64, i64) {
  let z = z + 719468; let era = z.div_euclid(146097); let doe = z - era * 146097;
  let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  let doy = doe - (365 * yoe + yoe / 4 - yoe / 100); let mp = (5 * doy + 2) / 153;
  let d = doy - (153 * mp + 2) / 5 + 1; let m = if mp < 10 { mp + 3 } else { mp - 9 };
  (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
pub fn month_len(y: i64, m: i64) -> i64 { if m == 12 { 31 } else { days(y, m + 1, 1) - days(y, m, 1) } }
/// 0 = Monday
pub fn weekday(z: i64) -> i64 { (z + 3).rem_euclid(7) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct T { pub z: i64, pub ms: i64 }

const DAYMS: i64 = 86_400_000;
impl T {
  fn plus_ms(self, d: i64) -> T { let t = self.ms + d; T { z: self.z + t.div_euclid(DAYMS), ms: t.rem_euclid(DAYMS) } }
  fn months(self, n: i64) -> T { let (y, m, d) = civil(self.z); let t = y * 12 + m - 1 + n; let (y, m) = (t.div_euclid(12), t.rem_euclid(12) + 1); T { z: days(y, m, d.min(month_len(y, m))), ms: self.ms } }
}

pub fn to_dt(t: T, off: i32) -> DateTime<FixedOffset> {
  let (y, m, d) = civil(t.z);
  let o = FixedOffset::east_opt(off).unwrap();
  o.with_ymd_and_hms(y as i32, m as u32, d as u32, (t.ms / 3_600_000) as u32, (t.ms / 60_000 % 60) as u32, (t.ms / 1000 % 60) as u32).unwrap() + chrono::Duration::milliseconds(t.ms % 1000)
}
pub fn from_dt<Z: TimeZone>(d: &DateTime<Z>) -> T {
  T { z: days(d.year() as i64, d.month() as i64, d.day() as i64), ms: d.num_seconds_from_midnight() as i64 * 1000 + (d.nanosecond() / 1_000_000) as i64 }
}

fn sp(r: &mut Rng, need: bool) -> String { let n = r.below(3) as usize; let n = if need { n.max(1) } else { n }; (0..n).map(|_| *r.pick(&[' ', ' ', ' ', '\t'])).collect() }

const WD: [[&str; 2]; 7] = [["mon", "monday"], ["tues", "tuesday"], ["wed", "wednesday"], ["thurs", "thursday"], ["fri", "friday"], ["sat", "saturday"], ["sun", "sunday"]];
const MON: [[&str; 2]; 12] = [["jan", "january"], ["feb", "february"], ["mar", "march"], ["apr", "april"], ["may", "may"], ["jun", "june"], ["jul", "july"], ["aug", "august"], ["sep", "september"], ["oct", "october"], ["nov", "november"], ["dec", "december"]];

fn date_ops(r: &mut Rng, n: i64, mut t: T, e: &mut String) -> T {
  for _ in 0..n {
    let v = match r.below(6) { 0 => 0, 1 => 1, 2 => r.range(2, 12), 3 => r.range(13, 80), 4 => r.range(1, 400), _ => r.range(1, 31) };
    let plus = r.bool(); let s = if plus { v } else { -v };
    let u = r.below(4);
    e.push_str(if plus { "+" } else { "-" }); e.push_str(&sp(r, false)); e.push_str(&v.to_string()); e.push_str(&sp(r, false));
    let pl = if r.bool() { "s" } else { "" };
    e.push_str(["day", "week", "month", "year"][u as usize]); e.push_str(pl); e.push_str(&sp(r, false));
    t = match u { 0 => T { z: t.z + s, ..t }, 1 => T { z: t.z + 7 * s, ..t }, 2 => t.months(s), _ => t.months(12 * s) };
  }
  t
}

/// A date expression and where it leads
fn date_expr(r: &mut Rng, t: T) -> (String, T) {
  let mut e = sp(r, false);
  match r.below(3) {
    0 => { let n = r.range(1, 3); let t2 = date_ops(r, n, t, &mut e); (e, t2) }
    1 => {
      let b = r.below(4);
      e.push_str(["now", "today", "yesterday", "tomorrow"][b as usize]); e.push_str(&sp(r, false));
      let t = T { z: t.z + match b { 2 => -1, 3 => 1, _ => 0 }, ..t };
      let n = r.range(0, 2); let t = date_ops(r, n, t, &mut e); (e, t)
    }
    _ => {
      let next = r.bool(); let s = if next { 1 } else { -1 };
      e.push_str(if next { "next" } else { "last" }); e.push_str(&sp(r, true));
      let t = match r.below(3) {
        0 => { let u = r.below(5); e.push_str(["day", "week", "month", "year", "fortnight"][u as usize]);
          match u { 0 => T { z: t.z + s, ..t }, 1 => T { z: t.z + 7 * s, ..t }, 2 => t.months(s), 3 => t.months(12 * s), _ => T { z: t.z + 14 * s, ..t } } }
        1 => { let w = r.us(7); e.push_str(*r.pick(&WD[w])); let mut z = t.z + s; while weekday(z) != w as i64 { z += s } T { z, ..t } }
        _ => { let m = r.us(12) as i64 + 1; e.push_str(*r.pick(&MON[m as usize - 1]));
          // the first day of the nearest such month that is not this one
          let (y, cm, _) = civil(t.z);
          let y = if next { if m > cm { y } else { y + 1 } } else if m < cm { y } else { y - 1 };
          T { z: days(y, m, 1), ..t } }
      };
      e.push_str(&sp(r, false));
      let n = r.range(0, 2); let t = date_ops(r, n, t, &mut e); (e, t)
    }
  }
}

fn time_ops(r: &mut Rng, n: i64, mut t: T, e: &mut String) -> T {
  for _ in 0..n {
    let v = match r.below(5) { 0 => 0, 1 => 1, 2 => r.range(2, 60), 3 => r.range(60, 5000), _ => r.range(1, 24) };
    let plus = r.bool(); let u = r.us(4);
    e.push_str(if plus { "+" } else { "-" }); e.push_str(&sp(r, false)); e.push_str(&v.to_string()); e.push_str(&sp(r, false));
    e.push_str(["hour", "minute", "second", "millisecond"][u]); if r.bool() { e.push('s') } e.push_str(&sp(r, false));
    t = t.plus_ms([3_600_000, 60_000, 1000, 1][u] * if plus { v } else { -v });
  }
  t
}

fn time_expr(r: &mut Rng, t: T) -> (String, T) {
  let mut e = sp(r, false);
  match r.below(4) {
    0 => { let n = r.range(1, 3); let t = time_ops(r, n, t, &mut e); (e, t) }
    1 => {
      let b = r.us(3); e.push_str(["now", "midnight", "noon"][b]); e.push_str(&sp(r, false));
      let t = T { ms: [t.ms, 0, 12 * 3_600_000][b], ..t };
      let n = r.range(0, 2); let t = time_ops(r, n, t, &mut e); (e, t)
    }
    2 => {
      let s = if r.bool() { 1 } else { -1 }; let u = r.us(4);
      e.push_str(if s > 0 { "next" } else { "last" }); e.push_str(&sp(r, true)); e.push_str(["hour", "minute", "second", "millisecond"][u]); e.push_str(&sp(r, false));
      let t = t.plus_ms([3_600_000, 60_000, 1000, 1][u] * s);
      let n = r.range(0, 2); let t = time_ops(r, n, t, &mut e); (e, t)
    }
    _ => {
      // "h o'clock": without am or pm, the one after a base time before noon is in the afternoon
      // when h has already passed; other combinations are not specified and not generated
      let mut h = r.range(1, 12); let bh = t.ms / 3_600_000;
      let which = match r.below(3) { 2 if bh < 12 && bh > 0 => { h = if r.chance(1, 6) { 12 } else { r.range(1, bh) }; 2 } 2 => 0, k => k };
      e.push_str(&h.to_string()); e.push_str(&sp(r, false)); e.push_str("o'clock"); e.push_str(&sp(r, false));
      match which { 0 => e.push_str("am"), 1 => e.push_str("pm"), _ => {} }
      e.push_str(&sp(r, false));
      let t = T { ms: (if which == 0 { h } else { h % 12 + 12 }) * 3_600_000, ..t };
      let n = r.range(0, 2); let t = time_ops(r, n, t, &mut e); (e, t)
    }
  }
}

pub fn base(r: &mut Rng) -> T {
  let (y, m) = (r.range(1950, 2090), r.range(1, 12));
  let y = if r.chance(1, 4) { *r.pick(&[1999, 2000, 2001, 2023, 2024, 2100, 1972]) } else { y };
  let l = month_len(y, m);
  let d = match r.below(4) { 0 => l, 1 => 1, 2 => r.range(28, l), _ => r.range(1, l) };
  let (m, d) = if r.chance(1, 12) { (2, month_len(y, 2)) } else { (m, d) };
  let ms = match r.below(5) { 0 => 0, 1 => DAYMS - 1, 2 => 36_000_000, _ => r.range(0, DAYMS - 1) };
  T { z: days(y, m, d), ms }
}

fn show(t: T) -> String { let (y, m, d) = civil(t.z); format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}.{:03}", y, m, d, t.ms / 3_600_000, t.ms / 60_000 % 60, t.ms / 1000 % 60, t.ms % 1000) }

fn arithmetic(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let t = base(r);
  let off = *r.pick(&[0, 0, 36000, -18000, 19800, 45900]);
  let dt = to_dt(t, off);
  ensure!(from_dt(&dt) == t, "harness", "calendar disagrees with chrono for {:?}", dt);
  let (kind, e, want) = match r.below(4) {
    0 => { let (e, w) = date_expr(r, t); (0, e, w) }
    1 => { let (e, w) = time_expr(r, t); (1, e, w) }
    2 => { let (e, w) = date_expr(r, t); (2, e, w) }
    _ => { let (d, w) = if r.chance(1, 8) { (String::new(), t) } else { date_expr(r, t) }; let (s, w) = if r.chance(1, 8) { (String::new(), w) } else { time_expr(r, w) }; (2, format!("{}@{}", d, s), w) }
  };
  cx.note(format!("base {} offset {} kind {} expression {:?} expected {}", show(t), off, kind, e, show(want)));
  let got = match kind { 0 => execute_date_expression(&dt, &e), 1 => execute_time_expression(&dt, &e), _ => execute_datetime_expression(&dt, &e) };
  match got {
    Ok(d) => {
      ensure!(from_dt(&d) == want && d.nanosecond() % 1_000_000 == 0 && d.offset() == dt.offset(), "wrong-result", "{:?} on {} is {} not {}", e, show(t), d, show(want));
      cx.tick(match kind { 0 => "date expressions", 1 => "time expressions", _ => "date-time expressions" });
    }
    Err(x) => return violated("refused", format!("{:?}: {}", e, x))
  }
  // the same through a generator, whose base time comes from the test context
  if r.chance(1, 4) {
    let m: Box<dyn VariantMatcher + Send + Sync> = Box::new(NoopVariantMatcher);
    let b = to_dt(t, 0).with_timezone(&Utc).to_rfc3339();
    let (g, key, exp) = match kind {
      0 => (Generator::Date(Some("yyyy-MM-dd".into()), Some(e.clone())), "baseDate", show(want)[..10].to_string()),
      1 => (Generator::Time(Some("HH:mm:ss.SSS".into()), Some(e.clone())), "baseTime", show(want)[11..].to_string()),
      _ => (Generator::DateTime(Some("yyyy-MM-dd HH:mm:ss.SSS".into()), Some(e.clone())), "baseDateTime", show(want))
    };
    let ctx: HashMap<&str, Value> = [(key, json!(b))].into_iter().collect();
    for as_json in [false, true] {
      let got = if as_json { g.generate_value(&json!("x"), &ctx, &m).map(|v| v.as_str().unwrap_or("?").to_string()) } else { g.generate_value(&"x".to_string(), &ctx, &m) };
      ensure!(got.as_ref().ok() == Some(&exp), "generator", "{:?} with base {} generated {:?} not {}", g, b, got, exp);
      cx.tick("generated from expressions");
    }
  }
  cx.saw((kind, &e, t.z));
  cx.sample(|| json!({"base": show(t), "expression": e, "result": show(want)}));
  Ok(())
}

fn garbage(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let t = base(r);
  let dt = to_dt(t, 0);
  let bad = r.below(4);
  let (kind, e) = match bad {
    0 => { // a legal expression followed or preceded by something that is not part of one
      let k = r.below(2);
      let e = if k == 0 { date_expr(r, t).0 } else { time_expr(r, t).0 };
      let junk = r.pick_s(&["x", "é", "?", "1", "day", "next", "now", "last week", "+", "-", "+ 1", "+ 1 foo", "%%", "o'clock", "🕐", "+ 99999999999999999999999 days"]);
      (k, if r.bool() && !["+", "-", "1", "next", "now", "last week"].contains(&&*junk) && !junk.starts_with('+') { format!("{} {}", junk, e) } else { format!("{} {}", e, junk) })
    }
    1 => { let k = r.below(2); (k, format!("{} {} {}", r.pick(&["+", "-"]), r.pick(&["99999999", "999999999999", "9223372036854775807", "9223372036854775808", "18446744073709551615", "300000", "2147483647", "2147483648", "95000000", "3200000"]),
      r.pick(if k == 0 { &["days", "weeks", "months", "years"] } else { &["hours", "minutes", "seconds", "milliseconds"] }))) }
    2 => (2, { let (a, b) = (date_expr(r, t).0, time_expr(r, t).0); let mut s: Vec<char> = format!("{}@{}", a, b).chars().collect(); for _ in 0..r.range(1, 3) { let i = r.us(s.len()); match r.below(3) { 0 => { s.remove(i); if s.is_empty() { s.push('x') } } 1 => s.insert(i, *r.pick(&['@', 'x', 'é', '9', ' ', '+', '😀', '\n', '\''])), _ => s[i] = *r.pick(&['-', 'z', '0', 'ß']) } } s.into_iter().collect() }),
    _ => (r.below(3), gen::text(r))
  };
  cx.note(format!("kind {} base {} expression {:?}", kind, show(t), e));
  let res = no_panic(|| match kind { 0 => execute_date_expression(&dt, &e), 1 => execute_time_expression(&dt, &e), _ => execute_datetime_expression(&dt, &e) });
  match res {
    Err(p) => return violated("panics", format!("{:?}: {}", e, p)),
    Ok(Ok(d)) => {
      ensure!(bad != 0, "junk-accepted", "{:?} is not an expression but gives {}", e, d);
      if bad == 1 { ensure!((d > dt) == e.starts_with('+') && d != dt, "wrong-direction", "{:?} on {} is {}", e, dt, d); }
      cx.tick("odd expressions evaluated");
    }
    Ok(Err(x)) => { ensure!(!x.to_string().is_empty(), "no-message", "{:?}", e); cx.tick("expressions refused"); }
  }
  cx.saw((kind, &e));
  Ok(())
}

pub fn prop() -> Property {
  Property {
    id: "P15", level: "exploration",
    rule: "Seeded date, time and combined expressions in every legal form over base times on both sides of month ends, leap days, years and offsets; corrupted expressions and extreme amounts. Non-trivial: each distinct expression evaluated and compared with an independent calendar.",
    assumptions: vec!["A month or year later that does not have the day means the last day of that month.", "An hour with neither am nor pm is only specified for base times before noon whose hour it has passed."],
    phases: vec![phase("arithmetic", 40000, arithmetic), phase("odd", 15000, garbage)],
    floors: vec![("date expressions", 5000), ("time expressions", 5000), ("date-time expressions", 5000), ("generated from expressions", 2000), ("expressions refused", 2000)],
    probes: vec![]
  }
}
