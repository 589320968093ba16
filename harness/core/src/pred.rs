//! Independent predicates/oracles shared by the monitors.
use serde_json::Value;

/// First difference between two JSON documents (path + description), numbers compared exactly by
/// their serialised form except that 1 and 1.0 are distinguished.
pub fn json_diff(path: &str, a: &Value, b: &Value) -> Option<String> {
  match (a, b) {
    (Value::Object(x), Value::Object(y)) => {
      for (k, v) in x {
        match y.get(k) {
          None => return Some(format!("{}.{}: present only on the left ({})", path, k, short(v))),
          Some(w) => if let Some(d) = json_diff(&format!("{}.{}", path, k), v, w) { return Some(d) }
        }
      }
      for (k, v) in y {
        if !x.contains_key(k) { return Some(format!("{}.{}: present only on the right ({})", path, k, short(v))) }
      }
      None
    }
    (Value::Array(x), Value::Array(y)) => {
      if x.len() != y.len() { return Some(format!("{}: array length {} != {} ({} vs {})", path, x.len(), y.len(), short(a), short(b))) }
      for (i, (v, w)) in x.iter().zip(y).enumerate() {
        if let Some(d) = json_diff(&format!("{}[{}]", path, i), v, w) { return Some(d) }
      }
      None
    }
    _ => if a == b { None } else { Some(format!("{}: {} != {}", path, short(a), short(b))) }
  }
}

pub fn short(v: &Value) -> String {
  let s = v.to_string();
  if s.chars().count() > 300 { s.chars().take(300).collect::<String>() + "…" } else { s }
}

/// Base64 text of bytes, independent of the crates under test
/// Decodes padded standard Base64; `None` when the text is not that
pub fn b64d(s: &str) -> Option<Vec<u8>> {
  const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  if s.is_empty() || s.len() % 4 != 0 { return None }
  let body = s.trim_end_matches('=');
  if s.len() - body.len() > 2 { return None }
  let mut out = vec![];
  for c in body.as_bytes().chunks(4) {
    let mut n = 0u32;
    for k in 0..4 { n = n << 6 | match c.get(k) { Some(b) => T.iter().position(|t| t == b)? as u32, None => 0 } }
    for k in 0..c.len() - 1 { out.push((n >> (16 - 8 * k)) as u8) }
  }
  if b64(&out) == s { Some(out) } else { None }
}

pub fn b64(data: &[u8]) -> String {
  const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  let mut out = String::new();
  for c in data.chunks(3) {
    let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
    for i in 0..4 {
      if i <= c.len() { out.push(T[(n >> (18 - 6 * i) & 63) as usize] as char) } else { out.push('=') }
    }
  }
  out
}
