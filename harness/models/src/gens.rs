//! Generated values, where they go, and values taken from provider states.
use std::collections::{HashMap, HashSet};
use moncore::*;
use pact_models::expression_parser::{DataType, DataValue};
use pact_models::generators::*;
use pact_models::path_exp::DocPath;

type Ctx<'a> = HashMap<&'a str, Value>;
fn noop() -> Box<dyn VariantMatcher + Send + Sync> { NoopVariantMatcher.boxed() }
fn crash<T>(what: impl std::fmt::Debug, f: impl FnOnce() -> T + std::panic::UnwindSafe) -> Result<T, Violation> { no_panic(f).map_err(|e| Violation { sig: "crash".into(), detail: format!("{:?}: {}", what, e) }) }
pub fn gen_str(g: &Generator, v: &str, c: &Ctx) -> Result<Result<String, String>, Violation> { let (g2, c2, v) = (g.clone(), c.clone(), v.to_string()); crash(g, move || g2.generate_value(&v, &c2, &noop()).map_err(|e| e.to_string())) }
pub fn gen_json(g: &Generator, v: &Value, c: &Ctx) -> Result<Result<Value, String>, Violation> { let (g2, c2, v) = (g.clone(), c.clone(), v.clone()); crash(g, move || g2.generate_value(&v, &c2, &noop()).map_err(|e| e.to_string())) }
fn gen_u16(g: &Generator, v: u16, c: &Ctx) -> Result<Result<u16, String>, Violation> { let (g2, c2) = (g.clone(), c.clone()); crash(g, move || g2.generate_value(&v, &c2, &noop()).map_err(|e| e.to_string())) }

// ---- values conform to their generator

fn original(r: &mut Rng) -> Value { match r.below(6) { 0 => json!("text"), 1 => json!(r.range(-5, 500)), 2 => json!(1.5), 3 => Value::Null, 4 => json!(true), _ => json!({"a": [1]}) } }
fn is_hex(s: &str) -> bool { s.chars().all(|c| c.is_ascii_digit() || ('A'..='F').contains(&c)) }

fn uuid_ok(s: &str, f: Option<UuidFormat>) -> Result<String, String> {
  let body = match f.unwrap_or(UuidFormat::LowerCaseHyphenated) { UuidFormat::Urn => s.strip_prefix("urn:uuid:").ok_or("no urn:uuid: prefix")?, _ => s };
  let hy = !matches!(f, Some(UuidFormat::Simple));
  let parts: Vec<&str> = body.split('-').collect();
  let lens: Vec<usize> = parts.iter().map(|p| p.len()).collect();
  if hy && lens != [8, 4, 4, 4, 12] || !hy && lens != [32] { return Err(format!("groups of {:?} digits", lens)) }
  let up = matches!(f, Some(UuidFormat::UpperCaseHyphenated));
  let d = parts.concat();
  if !d.chars().all(|c| c.is_ascii_digit() || if up { ('A'..='F').contains(&c) } else { ('a'..='f').contains(&c) }) { return Err("digits of the wrong case".into()) }
  let b = d.as_bytes();
  if b[12] != b'4' { return Err("not version 4".into()) }
  if !matches!(b[16].to_ascii_lowercase(), b'8' | b'9' | b'a' | b'b') { return Err("not the RFC variant".into()) }
  Ok(d.to_lowercase())
}

fn decimal_ok(s: &str, n: usize) -> Result<(), String> {
  let digits = s.chars().filter(|c| c.is_ascii_digit()).count();
  if digits != n { return Err(format!("{} digits and not {}", digits, n)) }
  if n < 2 { return if s.len() == n { Ok(()) } else { Err("not only digits".into()) } }
  let Some((a, b)) = s.split_once('.') else { return Err("no decimal point".into()) };
  if a.is_empty() || b.is_empty() || a.len() + b.len() != n { return Err("no digit before or after the decimal point".into()) }
  if a.len() > 1 && a.starts_with('0') { return Err("leading zero".into()) }
  Ok(())
}

fn ends(r: &mut Rng) -> (i32, i32) {
  match r.below(7) {
    0 => (i32::MIN, i32::MAX), 1 => { let n = r.range(0, 3) as i32; (i32::MAX - n, i32::MAX) } 2 => { let n = r.range(0, 3) as i32; (i32::MIN, i32::MIN + n) }
    3 => { let a = r.range(-1000, 1000) as i32; (a, a) }
    _ => { let a = r.range(-100, 100); let b = a + match r.below(3) { 0 => r.range(0, 3), 1 => r.range(0, 100), _ => r.range(0, 100000) }; (a as i32, b as i32) }
  }
}

fn random_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let c: Ctx = HashMap::new();
  let o = original(r);
  let k = r.below(6);
  cx.saw((k, r.clone().next()));
  match k {
    0 => {
      let (lo, hi) = ends(r); let g = Generator::RandomInt(lo, hi);
      let mut seen = HashSet::new();
      let n = if (hi as i64 - lo as i64) < 4 { 250 } else { 4 };
      for _ in 0..n {
        let s = match gen_str(&g, "0", &c)? { Ok(s) => s, Err(e) => return violated("int-error", format!("{:?}: {}", g, e)) };
        let v = match s.parse::<i64>() { Ok(v) if v.to_string() == s => v, _ => return violated("int", format!("{:?} gave {:?}", g, s)) };
        ensure!(v >= lo as i64 && v <= hi as i64, "int-range", "{:?} gave {}", g, v);
        let j = match gen_json(&g, &o, &c)? { Ok(j) => j, Err(e) => return violated("int-error", format!("{:?}: {}", g, e)) };
        let w = match (&o, &j) { (Value::String(_), Value::String(s)) => s.parse::<i64>().ok(), (Value::String(_), _) => None, (_, j) => j.as_i64() };
        let Some(w) = w else { return violated("int-type", format!("{:?} gave {} for {}", g, j, o)) };
        ensure!(w >= lo as i64 && w <= hi as i64, "int-range", "{:?} gave {}", g, w);
        seen.insert(v); seen.insert(w);
        cx.add("values generated", 2);
      }
      // 500 draws from at most four numbers: each one comes up
      if n == 250 { for v in lo as i64..=hi as i64 { ensure!(seen.contains(&v), "int-reach", "{:?} never gave {} in 500 draws", g, v); } cx.tick("ranges exhausted"); }
      // whole HTTP status range
      let (a, b) = (r.range(0, 65535), r.range(0, 65535)); let (a, b) = (a.min(b) as i32, a.max(b) as i32);
      let g = Generator::RandomInt(a, b);
      for _ in 0..4 { match gen_u16(&g, 200, &c)? { Ok(v) => ensure!(v as i32 >= a && v as i32 <= b, "int-range", "{:?} gave status {}", g, v), Err(e) => return violated("int-error", format!("{:?} for a status: {}", g, e)) } }
      // limits from a pact file, which can be any number
      let (a, b) = (r.range(-5_000_000_000, 5_000_000_000), r.range(-5_000_000_000, 5_000_000_000)); let (a, b) = (a.min(b), a.max(b));
      let d = json!({ "min": a, "max": b });
      if let Some(g) = no_panic(|| Generator::from_map("RandomInt", d.as_object().unwrap())).or_else(|p| violated("panic", p))? {
        if let Ok(v) = gen_json(&g, &json!(1), &c)? {
          // the closest numbers there are, when no 32 bit number is in range
          let (a, b) = (a.clamp(i32::MIN as i64, i32::MAX as i64), b.clamp(i32::MIN as i64, i32::MAX as i64));
          ensure!(v.as_i64().map(|v| v >= a && v <= b).unwrap_or(false), "int-range", "RandomInt {} gave {}", d, v);
          cx.tick("wide limits");
        }
      }
      let size = r.range(65_536, 400_000);
      let d = json!({ "size": size });
      if r.chance(1, 20) {
        if let Some(g) = no_panic(|| Generator::from_map("RandomString", d.as_object().unwrap())).or_else(|p| violated("panic", p))? {
          if let Ok(v) = gen_str(&g, "", &c)? { ensure!(v.chars().count() >= 65_535, "string-size", "RandomString {} gave {} characters", d, v.chars().count()) }
        }
      }
      // a range that is none, or has no 16 bit number
      for g in [Generator::RandomInt(r.range(1, 1000) as i32, r.range(-1000, 0) as i32), Generator::RandomInt(lo, hi)] {
        let Generator::RandomInt(a, b) = g else { unreachable!() };
        let u = gen_u16(&g, 200, &c)?;
        if let Ok(v) = u { ensure!(a <= b && v as i32 >= a && v as i32 <= b, "int-range", "{:?} gave status {}", g, v) }
        if let Ok(v) = gen_str(&g, "", &c)? { ensure!(a <= b, "int-range", "{:?} gave {}", g, v) }
        if let Ok(v) = gen_json(&g, &o, &c)? { ensure!(a <= b, "int-range", "{:?} gave {}", g, v) }
      }
    }
    1 => {
      let f = *r.pick(&[None, Some(UuidFormat::Simple), Some(UuidFormat::LowerCaseHyphenated), Some(UuidFormat::UpperCaseHyphenated), Some(UuidFormat::Urn)]);
      let g = Generator::Uuid(f); let mut seen = HashSet::new();
      for _ in 0..20 {
        let s = match gen_str(&g, "", &c)? { Ok(s) => s, Err(e) => return violated("uuid-error", e) };
        match uuid_ok(&s, f) { Ok(d) => ensure!(seen.insert(d), "uuid-twice", "{:?} gave {} twice", g, s), Err(e) => return violated("uuid", format!("{:?} gave {:?}: {}", g, s, e)) }
        match gen_json(&g, &o, &c)? { Ok(Value::String(s)) => match uuid_ok(&s, f) { Ok(d) => ensure!(seen.insert(d), "uuid-twice", "{:?} gave {} twice", g, s), Err(e) => return violated("uuid", format!("{:?} gave {:?} for {}: {}", g, s, o, e)) }, x => return violated("uuid-type", format!("{:?} gave {:?}", g, x)) }
        cx.add("values generated", 2);
      }
    }
    2 => {
      let n = match r.below(3) { 0 => r.range(0, 4), 1 => r.range(2, 16), _ => r.range(2, 60) } as usize; let g = Generator::RandomDecimal(n as u16);
      for _ in 0..20 {
        match gen_str(&g, "", &c)? { Ok(s) => if let Err(e) = decimal_ok(&s, n) { return violated("decimal", format!("{:?} gave {:?}: {}", g, s, e)) }, Err(e) => return violated("decimal-error", e) }
        match (gen_json(&g, &o, &c)?, &o) {
          (Ok(Value::Number(x)), Value::Number(_)) => { let f = x.as_f64().unwrap_or(-1.0); ensure!(f >= 0.0 && f.is_finite() && (n < 2 || f < 10f64.powi(n as i32 - 1)), "decimal", "{:?} gave {}", g, x) }
          (Ok(Value::String(s)), o) if !o.is_number() => if let Err(e) = decimal_ok(&s, n) { return violated("decimal", format!("{:?} gave {:?} for {}: {}", g, s, o, e)) },
          (Err(_), Value::Number(_)) if n == 0 => {}
          (x, o) => return violated("decimal-type", format!("{:?} gave {:?} for {}", g, x, o))
        }
        cx.add("values generated", 2);
      }
    }
    3 | 4 => {
      let n = match r.below(3) { 0 => r.range(0, 4), 1 => r.range(5, 20), _ => r.range(17, 300) } as usize;
      let g = if k == 3 { Generator::RandomHexadecimal(n as u16) } else { Generator::RandomString(n as u16) };
      let mut all = String::new(); let mut repeated = false;
      for _ in 0..10 {
        let s = match gen_str(&g, "", &c)? { Ok(s) => s, Err(e) => return violated("string-error", e) };
        let t = match gen_json(&g, &o, &c)? { Ok(Value::String(s)) => s, x => return violated("string-type", format!("{:?} gave {:?}", g, x)) };
        for s in [s, t] {
          ensure!(s.chars().count() == n && s.is_ascii(), "string-length", "{:?} gave {:?}", g, s);
          ensure!(if k == 3 { is_hex(&s) } else { s.chars().all(|c| c.is_ascii_alphanumeric()) }, "string-charset", "{:?} gave {:?}", g, s);
          let set: HashSet<char> = s.chars().collect(); repeated |= set.len() < s.len();
          all.push_str(&s);
        }
        cx.add("values generated", 2);
      }
      // twenty strings of eight or more random characters out of 16 (62): some repeat one
      if n >= 8 && k == 3 || n >= 20 { ensure!(repeated, "string-repeats", "{:?} never repeats a character", g) }
      if k == 3 && n >= 20 { for d in "0123456789ABCDEF".chars() { ensure!(all.contains(d), "string-reach", "{:?} never gave {}", g, d) } }
    }
    _ => {
      let mut seen = HashSet::new();
      for _ in 0..60 { match gen_str(&Generator::RandomBoolean, "", &c)? { Ok(s) if s == "true" || s == "false" => { seen.insert(s); } x => return violated("boolean", format!("{:?}", x)) }
        match gen_json(&Generator::RandomBoolean, &o, &c)? { Ok(Value::Bool(b)) => { seen.insert(format!("json {}", b)); } x => return violated("boolean", format!("{:?}", x)) } cx.add("values generated", 2); }
      ensure!(seen.len() == 4, "boolean-reach", "only {:?}", seen);
    }
  }
  Ok(())
}

/// A regular expression of the kind used in pacts
fn regex(r: &mut Rng, depth: u32) -> String {
  let n = r.range(1, 3); let mut o = String::new();
  for _ in 0..n {
    let (a, quant) = match r.below(if depth == 0 { 7 } else { 9 }) {
      0 => ("\\d".to_string(), true), 1 => ("\\w".to_string(), true), 2 => (r.pick_s(&["[a-z]", "[A-Z0-9]", "[a-f0-9_]", "[abc]", "[a-zA-Z-]"]), true),
      3 => (r.pick_s(&["\\.", "\\$", "\\^", "\\/", "\\-", "\\(", "\\+", "\\\\", "\\|", "\\["]), true),
      4 | 5 => { let s = r.string_from(&['a', 'b', 'x', '-', '/', '7', ' ', ':'], 1, 4); (s, false) }
      6 => (r.pick_s(&["a", "9", "_"]), true),
      7 => (format!("({})", regex(r, depth - 1)), true),
      _ => (format!("({}|{})", regex(r, depth - 1), regex(r, depth - 1)), true)
    };
    o.push_str(&a);
    if quant { match r.below(8) { 0 => o.push('?'), 1 => o.push('*'), 2 => o.push('+'), 3 => { let n = r.range(0, 3); o.push_str(&format!("{{{}}}", n)) } 4 => { let n = r.range(0, 3); o.push_str(&format!("{{{},{}}}", n, n + r.range(0, 3))) } 5 => { let n = r.range(0, 2); o.push_str(&format!("{{{},}}", n)) } _ => {} } }
  }
  o
}

fn regex_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let body = regex(r, 2);
  let e = match r.below(4) { 0 => format!("^{}$", body), 1 => format!("^{}", body), 2 => format!("{}$", body), _ => body.clone() };
  let Ok(oracle) = regex::Regex::new(&format!("^(?:{})$", body)) else { return Ok(()) };
  let g = Generator::Regex(e.clone()); let c: Ctx = HashMap::new();
  cx.saw(&e);
  let o = original(r);
  for _ in 0..3 {
    let s = match gen_str(&g, "", &c)? { Ok(s) => s, Err(x) => return violated("regex-error", format!("{:?}: {}", e, x)) };
    ensure!(oracle.is_match(&s), "regex", "{:?} gave {:?}, which it does not match", e, s);
    let s = match gen_json(&g, &o, &c)? { Ok(Value::String(s)) => s, x => return violated("regex-error", format!("{:?} gave {:?}", e, x)) };
    ensure!(oracle.is_match(&s), "regex", "{:?} gave {:?}, which it does not match", e, s);
    cx.add("values of regular expressions", 2);
  }
  // anything else: an error or a matching value, no crash
  let junk = r.string_from(&['a', '.', '*', '+', '(', ')', '[', ']', '^', '$', '\\', '{', '}', '2', ',', 'b', 'd', '?', '|', 'é', 'B'], 0, 8);
  let g = Generator::Regex(junk.clone());
  if let (Ok(s), Ok(re)) = (gen_str(&g, "", &c)?, regex::Regex::new(&junk)) { ensure!(re.is_match(&s), "regex", "{:?} gave {:?}, which it does not match", junk, s); cx.tick("values of arbitrary expressions") }
  Ok(())
}

fn url_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let seg = |r: &mut Rng| r.string_from(&['a', 'b', '1', '-', '_'], 1, 5);
  let path = { let n = r.range(1, 3); (0..n).map(|_| format!("/{}", seg(r))).collect::<String>() };
  let base = format!("http://{}:{}", seg(r), r.range(1, 65535));
  let url = format!("{}://{}{}{}", r.pick(&["http", "https"]), r.pick(&["127.0.0.1", "[::1]", "mock.local"]), if r.bool() { format!(":{}", r.range(1, 65535)) } else { String::new() }, r.pick(&["", "/sub/path"]));
  let example = format!("{}{}", base, path);
  let c: Ctx = HashMap::from([("mockServer", if r.bool() { json!({"url": url, "port": 1}) } else { json!({"href": url, "port": 1}) }), ("other", json!(1))]);
  let re = match r.below(3) { 0 => format!(".*({})$", path), 1 => format!("^.*(\\/{}.*)$", &path[1..2]), _ => format!("http://[^/]+({})", path) };
  // the group is the path from the last place it can start at
  let Ok(o) = regex::Regex::new(&re) else { return Ok(()) };
  let Some(m) = o.captures(&example) else { return Ok(()) };
  let want = format!("{}{}{}{}", &example[..m.get(0).unwrap().start()], url, m.get(1).map(|m| m.as_str()).unwrap_or(""), &example[m.get(0).unwrap().end()..]);
  let g = Generator::MockServerURL(example.clone(), re.clone());
  cx.saw((&example, &re, &url));
  match gen_json(&g, &json!("x"), &c)? { Ok(Value::String(s)) => ensure!(s == want, "url", "{:?} with {:?} gave {} and not {}", g, c, s, want), x => return violated("url-error", format!("{:?} with {:?} gave {:?}", g, c, x)) }
  match gen_str(&g, "x", &c)? { Ok(s) => ensure!(s == want, "url", "{:?} with {:?} gave {} and not {}", g, c, s, want), x => return violated("url-error", format!("{:?} with {:?} gave {:?}", g, c, x)) }
  cx.add("URLs generated", 2);
  // without a server, with a server of another shape, with an expression without a group
  for c in [HashMap::new(), HashMap::from([("mockServer", json!("http://x"))]), HashMap::from([("mockServer", json!({"port": 1}))])] { ensure!(gen_json(&g, &json!("x"), &c)?.is_err() && gen_str(&g, "x", &c)?.is_err(), "url-nowhere", "{:?} gave a URL with {:?}", g, c) }
  for bad in [".*", "(", "a(b)?|.*", ""] { let g = Generator::MockServerURL(example.clone(), bad.to_string()); let _ = gen_json(&g, &json!("x"), &c)?; let _ = gen_str(&g, "x", &c)?; }
  Ok(())
}

fn default_dates(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let (y, m) = (r.range(1971, 2099), r.range(1, 12)); let d = r.range(1, crate::dates::month_len(y, m));
  let (hh, mm, ss, ms) = (r.range(0, 23), r.range(0, 59), r.range(0, 59), r.range(0, 999));
  let base = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}+00:00", y, m, d, hh, mm, ss, ms);
  let c: Ctx = HashMap::from([("baseDate", json!(base)), ("baseTime", json!(base)), ("baseDateTime", json!(base))]);
  cx.saw(&base);
  for (g, want) in [(Generator::Date(None, None), format!("{:04}-{:02}-{:02}", y, m, d)), (Generator::Time(None, None), format!("{:02}:{:02}:{:02}", hh, mm, ss)), (Generator::DateTime(None, None), format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}+0000", y, m, d, hh, mm, ss, ms)),
    (Generator::Date(Some("yyyy-MM-dd".into()), None), format!("{:04}-{:02}-{:02}", y, m, d)), (Generator::Date(None, Some("".into())), format!("{:04}-{:02}-{:02}", y, m, d))] {
    match gen_str(&g, "", &c)? { Ok(s) => ensure!(s == want, "date-default", "{:?} at {} gave {} and not {}", g, base, s, want), Err(e) => return violated("date-error", format!("{:?}: {}", g, e)) }
    match gen_json(&g, &original(r), &c)? { Ok(Value::String(s)) => ensure!(s == want, "date-default", "{:?} at {} gave {} and not {}", g, base, s, want), x => return violated("date-error", format!("{:?}: {:?}", g, x)) }
    cx.add("dates generated", 2);
  }
  Ok(())
}

pub fn values() -> Property {
  Property {
    id: "P13", level: "exploration",
    rule: "Seeded generators of every random kind with small, large and extreme attributes, drawn repeatedly for originals of every JSON type; seeded regular expressions over the constructs pacts use; mock server URLs over server details. Non-trivial: each distinct generator drawn from.",
    assumptions: vec!["The random source is the operating system's; that all of a small range turns up is checked with a chance of a false alarm below 1e-20.", "Regular expressions are judged by the regex crate."],
    phases: vec![phase("random", 6000, random_case), phase("regex", 9000, regex_case), phase("url", 9000, url_case), phase("dates", 4000, default_dates)],
    floors: vec![("values generated", 50000), ("ranges exhausted", 200), ("values of regular expressions", 20000), ("URLs generated", 4000), ("dates generated", 10000)],
    probes: vec![]
  }
}

// ---- values taken from provider states

fn text(v: &Value) -> String { match v { Value::String(s) => s.clone(), Value::Null => String::new(), _ => v.to_string() } }

/// A whole number of any size, in decimal digits
fn whole(r: &mut Rng) -> String {
  let n = r.next() >> r.below(64);
  let near = *r.pick(&[1u64 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 62, 1 << 63, 0]);
  let n = if r.chance(1, 3) { near.wrapping_add(r.below(5)).wrapping_sub(2) } else { n };
  format!("{}{}", if r.chance(1, 4) && n != 0 { "-" } else { "" }, n)
}

fn state_value(r: &mut Rng) -> Value {
  match r.below(13) {
    9 => { let s = whole(r); s.parse::<i64>().map(|n| json!(n)).or_else(|_| s.parse::<u64>().map(|n| json!(n))).unwrap_or(json!(0)) }
    10 => { let s = whole(r); json!(s.parse::<f64>().unwrap() * *r.pick(&[1.0, 0.5, 0.001, 1e10, 1e300])) }
    11 => json!(whole(r)),
    12 => json!(format!("{}.{}", whole(r), r.pick(&["0", "5", "25", "999"]))),
    0 => Value::Null, 1 => json!(r.bool()), 2 => json!(r.range(-1000, 70000)), 3 => json!(*r.pick(&[i64::MAX, i64::MIN, 65535, 65536, -1, 0, 1, 255, 256, i32::MAX as i64 + 1])), 4 => json!(*r.pick(&[u64::MAX, i64::MAX as u64 + 1])),
    5 => json!(*r.pick(&[0.05, 0.9, 0.0, 1.5, -0.25, 100.0, 2.75, -1000.5])),
    6 => json!(r.pick_s(&["12", "-12", "0", "65536", "70000", "9223372036854775807", "-9223372036854775808", "1.5", "-2.25", "true", "false", "abc", "", "007", " 1", "TRUE", "1e3", "Jörg ${x}", "a}b"])),
    7 => json!(["a", 1, {"b": null}]), _ => json!({"k": "v", "n": [1, 2]})
  }
}

const NAMES: &[&str] = &["id", "user.name", "user-id", "x y", "é", "a$b", "{", "${", "UPPER", "id2"];

fn expr_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let mut ctx: Ctx = HashMap::new();
  for n in NAMES { if r.chance(3, 4) { ctx.insert(n, state_value(r)); } }
  let n = r.range(1, 5);
  let (mut e, mut parts): (String, Vec<Option<Value>>) = (String::new(), vec![]);
  let mut used_missing = false; let mut open = false;
  for i in 0..n {
    if r.chance(3, 5) {
      let k = *r.pick(NAMES);
      e.push_str("${"); e.push_str(k);
      if i == n - 1 && r.chance(1, 12) { open = true } else { e.push('}'); }
      match ctx.get(k) { Some(v) => parts.push(Some(v.clone())), None => { used_missing = true; parts.push(None) } }
    } else {
      let s = r.string_from(&['a', '/', '}', '{', '-', 'é', ' ', '"', '中'], 1, 5);
      e.push_str(&s); parts.push(Some(json!(s)));
    }
  }
  if !e.contains("${") { return Ok(()) }
  // neighbouring literal parts are one part; what counts is whether there is only one
  let single = e.starts_with("${") && parts.len() == 1;
  cx.saw((&e, format!("{:?}", { let mut k: Vec<_> = ctx.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(); k.sort(); k })));
  let nested = r.bool();
  let full: Ctx = if nested { HashMap::from([("providerState", Value::Object(ctx.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())), ("id", json!("wrong"))]) } else { ctx.clone() };
  let g = Generator::ProviderStateGenerator(e.clone(), *r.pick(&[None, Some(DataType::RAW)]));
  let got = gen_json(&g, &json!("old"), &full)?;
  let (e2, c2) = (e.clone(), ctx.clone());
  let direct = crash(&e, move || generate_value_from_context(&e2, &c2, &None).and_then(|v| v.as_json()).map_err(|e| e.to_string()))?;
  ensure!(direct == got || direct.is_err() && got.is_err(), "context", "{:?} gave {:?} from the state and {:?} from its values", e, got, direct);
  if open || used_missing {
    if let Ok(v) = got { return violated("missing", format!("{:?} gave {} although {}", e, v, if open { "a brace is not closed" } else { "a value is missing" })) }
    cx.tick("expressions refused"); return Ok(())
  }
  let vals: Vec<Value> = parts.into_iter().flatten().collect();
  let want = if single { vals[0].clone() } else { json!(vals.iter().map(text).collect::<String>()) };
  match got { Ok(v) => ensure!(v == want, "expression", "{:?} with {:?} gave {} and not {}", e, ctx, v, want), Err(x) => return violated("expression", format!("{:?} with {:?} was refused: {}", e, ctx, x)) }
  match gen_str(&g, "old", &full)? { Ok(s) => ensure!(s == text(&want), "expression-text", "{:?} with {:?} gave {:?} and not {:?}", e, ctx, s, text(&want)), Err(x) => return violated("expression-text", format!("{:?} with {:?} was refused: {}", e, ctx, x)) }
  cx.add("expressions evaluated", 1);
  Ok(())
}

/// What a value is as another type: Some(None) when it can not be one, None when nothing is said about it
fn cast(v: &Value, t: DataType) -> Option<Option<Value>> {
  Some(match (t, v) {
    (DataType::RAW, v) => Some(v.clone()),
    (DataType::STRING, Value::Null) => return None,
    (DataType::STRING, v) => Some(json!(text(v))),
    (DataType::BOOLEAN, Value::Null) => Some(json!(false)),
    (DataType::BOOLEAN, Value::Bool(b)) => Some(json!(b)),
    (DataType::BOOLEAN, Value::Number(n)) => { let f = n.as_f64()?; if f < 0.0 { return None } Some(json!(f > 0.0)) }
    (DataType::BOOLEAN, Value::String(s)) => match s.as_str() { "true" => Some(json!(true)), "false" => Some(json!(false)), "TRUE" => return None, _ => None },
    (DataType::INTEGER, Value::Null) => Some(json!(0)), (DataType::INTEGER, Value::Bool(b)) => Some(json!(*b as i64)),
    (DataType::INTEGER, Value::Number(n)) => if n.is_f64() {
      let f = n.as_f64()?.trunc();
      if f >= -9223372036854775808.0 && f < 9223372036854775808.0 { Some(json!(f as i64)) } else if f > 0.0 && f < 18446744073709551616.0 { Some(json!(f as u64)) } else { None }
    } else { Some(v.clone()) },
    (DataType::INTEGER, Value::String(s)) => match s.parse::<i128>() {
      Ok(n) => if let Ok(n) = i64::try_from(n) { Some(json!(n)) } else if let Ok(n) = u64::try_from(n) { Some(json!(n)) } else { None },
      Err(_) => if s.parse::<f64>().is_ok() { return None } else { None } },
    (DataType::DECIMAL | DataType::FLOAT, Value::Null) => Some(json!(0.0)), (DataType::DECIMAL | DataType::FLOAT, Value::Bool(b)) => Some(json!(*b as i64 as f64)),
    (DataType::DECIMAL | DataType::FLOAT, Value::Number(n)) => Some(json!(n.as_f64()?)),
    (DataType::DECIMAL | DataType::FLOAT, Value::String(s)) => s.parse::<f64>().ok().map(|f| json!(f)),
    (_, _) => None
  })
}

fn cast_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let v = state_value(r);
  let t = *r.pick(&[DataType::STRING, DataType::INTEGER, DataType::DECIMAL, DataType::FLOAT, DataType::RAW, DataType::BOOLEAN]);
  let plain = r.bool();
  let e = if plain { "key" } else { "${key}" };
  let c: Ctx = HashMap::from([("providerState", json!({"key": v, "other": 1}))]);
  let g = Generator::ProviderStateGenerator(e.to_string(), Some(t));
  cx.saw((v.to_string(), format!("{:?}", t), plain));
  let what = format!("{} as {:?}", v, t);
  let js = gen_json(&g, &json!("old"), &c)?;
  let st = gen_str(&g, "old", &c)?;
  let st16 = gen_u16(&g, 200, &c)?;
  match cast(&v, t) {
    Some(Some(w)) => {
      match &js { Ok(j) => ensure!(*j == w, "cast", "{} gave {} and not {}", what, j, w), Err(x) => return violated("cast", format!("{} was refused: {}", what, x)) }
      match &st {
        Ok(s) => { let same = if w.is_f64() { s.parse::<f64>().ok() == w.as_f64() } else { *s == text(&w) }; ensure!(same, "cast-text", "{} gave the text {:?} and not {:?}", what, s, text(&w)) }
        Err(x) => return violated("cast-text", format!("{} was refused as a text: {}", what, x))
      }
      cx.tick("values cast");
    }
    Some(None) => { if let Ok(j) = &js { return violated("cast-accepted", format!("{} gave {}", what, j)) } if let Ok(s) = &st { return violated("cast-accepted", format!("{} gave the text {:?}", what, s)) } cx.tick("values refused") }
    None => {}
  }
  // a status is the number itself or an error
  let num = match &v { Value::Null => Some(0.0), Value::Bool(b) => Some(*b as i64 as f64), Value::Number(n) => n.as_f64(), Value::String(s) => s.parse::<f64>().ok(), _ => None };
  if let Ok(s) = st16 {
    match num { Some(n) => ensure!((s as f64 - n).abs() < 1.0, "status", "{} gave the status {}", what, s), None => return violated("status", format!("{} gave the status {}", what, s)) }
    cx.tick("statuses cast");
  } else if let (Some(n), false) = (num, v.is_string()) { ensure!(n.fract() != 0.0 || n < 0.0 || n > 65535.0, "status", "{} was refused as a status", what) }
  // the other number types
  let dv = DataValue { wrapped: v.clone(), data_type: t };
  let d2 = dv.clone(); let i = crash(&what, move || i64::try_from(d2).ok())?;
  let d2 = dv.clone(); let u = crash(&what, move || u64::try_from(d2).ok())?;
  let d2 = dv.clone(); let f = crash(&what, move || f64::try_from(d2).ok())?;
  let d2 = dv.clone(); let b = crash(&what, move || bool::try_from(d2).ok())?;
  let exact: Option<i128> = match &v { Value::Number(n) if !n.is_f64() => n.as_i64().map(|n| n as i128).or(n.as_u64().map(|n| n as i128)), Value::String(s) => s.parse::<i128>().ok(), _ => None };
  if let Some(x) = exact {
    // decimal types go through a floating point number
    let same = |y: i128| if matches!(t, DataType::FLOAT | DataType::DECIMAL) { y as f64 == x as f64 } else { y == x };
    if let Some(i) = i { ensure!(same(i as i128), "number", "{} gave the 64 bit number {}", what, i) }
    if let Some(u) = u { ensure!(same(u as i128), "number", "{} gave the unsigned 64 bit number {}", what, u) }
    if let Some(f) = f { ensure!(f == x as f64, "number", "{} gave the decimal number {}", what, f) }
  }
  // what is no whole number loses at most its fraction
  if let (Some(n), None) = (num, exact) {
    if let Some(i) = i { ensure!(i as f64 == n.trunc() && n.abs() < 9.3e18 && (i as i128) == n.trunc() as i128, "number", "{} gave the 64 bit number {}", what, i) }
    if let Some(u) = u { ensure!((u as i128) == n.trunc() as i128, "number", "{} gave the unsigned 64 bit number {}", what, u) }
    if let Some(f) = f { ensure!(f == n, "number", "{} gave the decimal number {}", what, f) }
  }
  if num.is_none() { ensure!(i.is_none() && u.is_none() && f.is_none(), "number", "{} gave a number: {:?} {:?} {:?}", what, i, u, f) }
  // and whole numbers that fit are not refused
  if let (Some(x), Value::Number(_)) = (exact, &v) {
    ensure!(f.is_some() && i.is_some() == i64::try_from(x).is_ok() && u.is_some() == u64::try_from(x).is_ok(), "number", "{} gave {:?} {:?} {:?}", what, i, u, f);
  }
  if let (Some(b), Value::String(s)) = (b, &v) { ensure!(s.eq_ignore_ascii_case(&b.to_string()), "number", "{} gave {}", what, b) }
  if let (Value::Number(n), Some(b)) = (&v, b) { let n = n.as_f64().unwrap(); if n >= 0.0 { ensure!(b == (n != 0.0), "number", "{} gave {}", what, b) } }
  let zero = match &v { Value::Null => Some(0), Value::Bool(b) => Some(*b as i64), _ => None };
  if let Some(z) = zero {
    if let Some(i) = i { ensure!(i == z, "number", "{} gave the 64 bit number {}", what, i) }
    if let Some(u) = u { ensure!(u as i64 == z, "number", "{} gave the unsigned 64 bit number {}", what, u) }
    if let Some(f) = f { ensure!(f == z as f64, "number", "{} gave the decimal number {}", what, f) }
    if let Some(b) = b { ensure!(b == (z != 0), "number", "{} gave {}", what, b) }
  }
  if let (Some(b), Value::Bool(x)) = (b, &v) { ensure!(b == *x, "number", "{} gave {}", what, b) }
  cx.tick("numbers converted");
  Ok(())
}

pub fn states() -> Property {
  Property {
    id: "P19", level: "exploration",
    rule: "Seeded expressions of literal text and references to present, missing and oddly named values of every JSON type, nested under a provider state or not; every value cast to every data type as JSON, text, status and number. Non-trivial: each distinct (expression, values) and (value, type).",
    assumptions: vec!["Casts with no evident result (a negative number to a boolean, a fraction in a string to an integer) are run for totality only."],
    phases: vec![phase("expressions", 40000, expr_case), phase("casts", 40000, cast_case)],
    floors: vec![("expressions evaluated", 10000), ("expressions refused", 4000), ("values cast", 15000), ("values refused", 3000), ("statuses cast", 5000)],
    probes: vec![]
  }
}

// ---- generators go where they are addressed

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Step { Key(String), Index(usize), AnyKey, AnyIndex }

fn doc(r: &mut Rng, depth: u32) -> Value {
  match r.below(if depth == 0 { 4 } else { 9 }) {
    0 => json!(r.string_from(&['o', 'l', 'd'], 0, 4)), 1 => json!(r.range(-5, 5)), 2 => json!(r.bool()), 3 => Value::Null,
    4..=6 => { let n = r.range(0, 4); let mut m = Map::new(); for _ in 0..n { let k = r.pick_s(&["a", "b", "c", "id", "x y", "a.b", "0", "é", "a/b", "a~b", "~1", "$", "*"]); let d = doc(r, depth - 1); m.insert(k, d); } Value::Object(m) }
    _ => { let n = r.range(0, 4); Value::Array((0..n).map(|_| doc(r, depth - 1)).collect()) }
  }
}

fn places(v: &Value, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
  out.push(at.clone());
  match v {
    Value::Object(m) => for (k, x) in m { at.push(Step::Key(k.clone())); places(x, at, out); at.pop(); },
    Value::Array(a) => for (i, x) in a.iter().enumerate() { at.push(Step::Index(i)); places(x, at, out); at.pop(); },
    _ => {}
  }
}
fn addressed(p: &[Step], at: &[Step]) -> bool {
  p.len() == at.len() && p.iter().zip(at).all(|(s, a)| match (s, a) { (Step::AnyKey, Step::Key(_)) | (Step::AnyIndex, Step::Index(_)) => true, _ => s == a })
}
fn put(v: &mut Value, at: &[Step], f: &mut dyn FnMut(&Value) -> Value) {
  match at.split_first() { None => *v = f(v), Some((Step::Key(k), rest)) => put(v.get_mut(k).unwrap(), rest, f), Some((Step::Index(i), rest)) => put(v.get_mut(*i).unwrap(), rest, f), _ => unreachable!() }
}
fn doc_path(p: &[Step]) -> DocPath {
  let mut d = DocPath::root();
  for s in p { match s { Step::Key(k) => { d.push_field(k.clone()); } Step::Index(i) => { d.push_index(*i); } Step::AnyKey => { d.push_star(); } Step::AnyIndex => { d.push_star_index(); } } }
  d
}

/// Generators whose value is known in advance
fn fixed(r: &mut Rng, i: usize) -> (Generator, Value, Option<GeneratorTestMode>) {
  match r.below(4) {
    0 => (Generator::ProviderStateGenerator("v".into(), None), json!({"state": 1}), Some(GeneratorTestMode::Provider)),
    1 => (Generator::MockServerURL("http://old/p".into(), ".*(/p)$".into()), json!("http://mock:1/p"), Some(GeneratorTestMode::Consumer)),
    2 => { let n = 1000 + i as i32; (Generator::RandomInt(n, n), json!(n), None) }
    _ => { let s = format!("new{}", i); (Generator::Regex(s.clone()), json!(s), None) }
  }
}

fn apply_case(cx: &mut Cx) -> Verdict {
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let d = doc(r, 3);
  let mut all = vec![]; places(&d, &mut vec![], &mut all);
  let ctx: Ctx = HashMap::from([("v", json!({"state": 1})), ("mockServer", json!({"url": "http://mock:1"}))]);
  let mode = if r.bool() { GeneratorTestMode::Provider } else { GeneratorTestMode::Consumer };
  let mut gens: HashMap<DocPath, Generator> = HashMap::new();
  let mut chosen: Vec<(Vec<Step>, Generator, Value, bool)> = vec![];
  for i in 0..r.us(5) {
    let mut p = r.pick(&all).clone();
    for s in p.iter_mut() { if r.chance(1, 4) { *s = match s { Step::Key(_) => Step::AnyKey, _ => Step::AnyIndex } } }
    if r.chance(1, 6) { match r.below(3) { 0 => p.push(Step::Key("nowhere".into())), 1 => p.push(Step::Index(77)), _ => p.push(if r.bool() { Step::AnyKey } else { Step::AnyIndex }) } }
    // one generator must not address what another one does, or anything in or around it
    let clash = |q: &Vec<Step>| { let n = q.len().min(p.len()); q[..n].iter().zip(&p[..n]).all(|(a, b)| a == b || matches!(a, Step::AnyKey | Step::AnyIndex) || matches!(b, Step::AnyKey | Step::AnyIndex)) };
    if chosen.iter().any(|(q, ..)| clash(q)) { continue }
    let (g, v, m) = fixed(r, i);
    let on = m.as_ref().map(|m| *m == mode).unwrap_or(true);
    ensure!(g.corresponds_to_mode(&mode) == on, "mode", "{:?} in {:?}", g, mode);
    gens.insert(doc_path(&p), g.clone());
    chosen.push((p, g, v, on));
  }
  let mut want = d.clone();
  for (p, g, v, on) in &chosen {
    if !on { continue }
    for at in all.iter().filter(|a| addressed(p, a)) {
      put(&mut want, at, &mut |old| if let (Generator::RandomInt(..), Value::String(_)) = (g, old) { json!(text(v)) } else { v.clone() });
      cx.tick("places generated");
    }
  }
  cx.saw((d.to_string(), format!("{:?}", chosen.iter().map(|c| (&c.0, &c.1)).collect::<Vec<_>>())));
  let (d2, g2, c2, m2) = (d.clone(), gens.clone(), ctx.clone(), mode.clone());
  let (body, left) = crash((&d, &gens), move || { let mut h = JsonHandler { value: d2 }; let b = h.process_body(&g2, &m2, &c2, &noop()); (b, h.value) })?;
  let show: Vec<String> = gens.iter().map(|(p, g)| format!("{}: {:?}", p, g)).collect();
  ensure!(left == want, "place", "{} with {:?} in {:?} became {} and not {}", d, show, mode, left, want);
  match body { Ok(b) => { let v: Option<Value> = b.value().and_then(|b| serde_json::from_slice(&b).ok()); ensure!(v.as_ref() == Some(&want), "body", "{} with {:?} in {:?} was written as {:?} and not {}", d, show, mode, v, want) } Err(e) => return violated("body", e) }
  // the same set, handed out one by one
  let mut seen = HashSet::new();
  apply_generators(&mode, &gens, &mut |p, g| { seen.insert((p.to_string(), format!("{:?}", g))); });
  let on: HashSet<_> = chosen.iter().filter(|c| c.3).map(|c| (doc_path(&c.0).to_string(), format!("{:?}", c.1))).collect();
  ensure!(seen == on, "mode", "in {:?} {:?} were applied and not {:?}", mode, seen, on);
  cx.tick("documents processed");
  Ok(())
}

fn form_case(cx: &mut Cx) -> Verdict {
  use pact_models::generators::form_urlencoded::FormUrlEncodedHandler;
  let mut rng = cx.rng.clone(); let r = &mut rng;
  let names = ["a", "b", "x y", "é", "a[]", "a.b", "c&d", "e=f"];
  let n = r.us(7);
  let params: Vec<(String, String)> = (0..n).map(|_| (r.pick_s(&names), r.string_from(&['o', 'l', 'd', '&', '=', ' ', '+', '%', 'é'], 0, 4))).collect();
  let ctx: Ctx = HashMap::from([("v", json!({"state": 1})), ("mockServer", json!({"url": "http://mock:1"}))]);
  let mode = if r.bool() { GeneratorTestMode::Provider } else { GeneratorTestMode::Consumer };
  let mut gens: HashMap<DocPath, Generator> = HashMap::new(); let mut want = params.clone(); let mut used = HashSet::new();
  for i in 0..r.us(4) {
    let k = r.pick_s(&names);
    let count = params.iter().filter(|p| p.0 == k).count();
    let (g, v, m) = fixed(r, i); let on = m.as_ref().map(|m| *m == mode).unwrap_or(true);
    // a name addresses its first value, a name with an index that one
    let (path, at) = if r.bool() { (vec![Step::Key(k.clone())], 0) } else { let j = r.us(count + 1); (vec![Step::Key(k.clone()), Step::Index(j)], j) };
    if !used.insert((k.clone(), at)) { continue }
    gens.insert(doc_path(&path), g);
    if on { if let Some(p) = want.iter_mut().filter(|p| p.0 == k).nth(at) { p.1 = text(&v); cx.tick("parameters generated") } }
  }
  cx.saw((&params, format!("{:?}", { let mut x: Vec<String> = gens.keys().map(|k| k.to_string()).collect(); x.sort(); x })));
  let (p2, g2, c2, m2) = (params.clone(), gens.clone(), ctx.clone(), mode.clone());
  let (body, left) = crash((&params, &gens), move || { let mut h = FormUrlEncodedHandler { params: p2 }; let b = h.process_body(&g2, &m2, &c2, &noop()); (b, h.params) })?;
  ensure!(left == want, "form", "{:?} with {:?} in {:?} became {:?} and not {:?}", params, gens, mode, left, want);
  match body { Ok(b) => { let s = b.value().map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default(); let back = decode(&s); ensure!(back == want, "form-body", "{:?} was written as {:?}, which is {:?}", want, s, back) } Err(e) => return violated("form-body", e) }
  cx.tick("forms processed");
  Ok(())
}
fn decode(s: &str) -> Vec<(String, String)> {
  fn d(s: &str) -> String { let b = s.as_bytes(); let (mut o, mut i) = (vec![], 0); while i < b.len() { match b[i] { b'+' => o.push(b' '), b'%' => { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?')); i += 2 } c => o.push(c) } i += 1 } String::from_utf8_lossy(&o).to_string() }
  if s.is_empty() { return vec![] }
  s.split('&').map(|p| { let (k, v) = p.split_once('=').unwrap_or((p, "")); (d(k), d(v)) }).collect()
}

pub fn application() -> Property {
  Property {
    id: "P14", level: "exploration",
    rule: "Seeded JSON documents and form parameters with up to four disjoint generators of known value at present, absent and wildcard paths, in both modes. Non-trivial: each distinct (document, generators).",
    assumptions: vec!["Generators at one place or inside each other have no defined order and are not combined."],
    phases: vec![phase("json", 30000, apply_case), phase("form", 20000, form_case)],
    floors: vec![("places generated", 10000), ("documents processed", 15000), ("parameters generated", 2500)],
    probes: vec![]
  }
}
