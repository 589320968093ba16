//! Loopback HTTP server that records every request it gets, in order.
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::cell::RefCell;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Req { pub method: String, pub target: String, pub headers: Vec<(String, String)>, pub body: Vec<u8> }
impl Req {
  pub fn path(&self) -> &str { self.target.split('?').next().unwrap() }
  pub fn query(&self) -> Option<&str> { self.target.split_once('?').map(|(_, q)| q) }
  /// all values of a header, in order
  pub fn header(&self, name: &str) -> Vec<&str> { self.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str()).collect() }
  pub fn json(&self) -> serde_json::Value { serde_json::from_slice(&self.body).unwrap_or(serde_json::Value::Null) }
}

#[derive(Clone, Debug)]
pub enum Resp {
  Send { status: u16, headers: Vec<(String, String)>, body: Vec<u8> },
  /// close the connection without an answer
  Drop,
  /// promise more bytes than are sent
  Cut { status: u16, body: Vec<u8> },
  /// not HTTP
  Noise
}
pub fn send(status: u16, headers: &[(&str, &str)], body: impl Into<Vec<u8>>) -> Resp {
  Resp::Send { status, headers: headers.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), body: body.into() }
}

type Handler = Box<dyn FnMut(Req) -> Resp + Send>;
struct Server { port: u16, handler: Arc<Mutex<Option<Handler>>> }
thread_local! { static IDLE: RefCell<Vec<Server>> = const { RefCell::new(vec![]) }; }

/// A server of this thread's pool; goes back to the pool when dropped
pub struct Stub { pub port: u16, server: Option<Server> }
impl Stub {
  pub fn start(h: impl FnMut(Req) -> Resp + Send + 'static) -> Stub {
    let s = IDLE.with(|p| p.borrow_mut().pop()).unwrap_or_else(serve);
    *s.handler.lock().unwrap_or_else(|e| e.into_inner()) = Some(Box::new(h));
    Stub { port: s.port, server: Some(s) }
  }
}
impl Drop for Stub {
  fn drop(&mut self) {
    let s = self.server.take().unwrap();
    *s.handler.lock().unwrap_or_else(|e| e.into_inner()) = None;
    IDLE.with(|p| p.borrow_mut().push(s));
  }
}

fn serve() -> Server {
  let l = (0..100).find_map(|n| TcpListener::bind("127.0.0.1:0").map_err(|_| std::thread::sleep(Duration::from_millis(n * 10))).ok()).expect("no port to listen on");
  let port = l.local_addr().unwrap().port();
  let handler: Arc<Mutex<Option<Handler>>> = Default::default();
  let h2 = handler.clone();
  std::thread::spawn(move || {
    for c in l.incoming() {
      let Ok(mut c) = c else { continue };
      let _ = c.set_read_timeout(Some(Duration::from_secs(20)));
      let _ = c.set_nodelay(true);
      let Some(r) = read(&mut c) else { continue };
      let answer = h2.lock().unwrap_or_else(|e| e.into_inner()).as_mut().map(|h| h(r)).unwrap_or(Resp::Drop);
      match answer {
        Resp::Send { status, headers, body } => {
          let mut out = format!("HTTP/1.1 {status} X\r\n").into_bytes();
          for (k, v) in &headers { out.extend_from_slice(format!("{k}: {v}\r\n").as_bytes()); }
          out.extend_from_slice(format!("content-length: {}\r\nconnection: close\r\n\r\n", body.len()).as_bytes());
          out.extend_from_slice(&body);
          let _ = c.write_all(&out);
        }
        Resp::Drop => {}
        Resp::Cut { status, body } => { let _ = c.write_all(format!("HTTP/1.1 {status} X\r\ncontent-length: {}\r\n\r\n", body.len() + 5).as_bytes()); let _ = c.write_all(&body); }
        Resp::Noise => { let _ = c.write_all(b"\x01\x02 what?\r\n\r\n"); }
      }
    }
  });
  Server { port, handler }
}

fn read(c: &mut TcpStream) -> Option<Req> {
  let mut buf = vec![];
  let mut tmp = [0u8; 4096];
  let end = loop {
    if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") { break p }
    let n = c.read(&mut tmp).ok()?;
    if n == 0 { return None }
    buf.extend_from_slice(&tmp[..n]);
  };
  let head = String::from_utf8_lossy(&buf[..end]).to_string();
  let mut lines = head.split("\r\n");
  let mut first = lines.next()?.split(' ');
  let (method, target) = (first.next()?.to_string(), first.next()?.to_string());
  let headers: Vec<(String, String)> = lines.filter_map(|l| l.split_once(':').map(|(k, v)| (k.trim().to_string(), v.trim().to_string()))).collect();
  let n: usize = headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("content-length")).and_then(|(_, v)| v.parse().ok()).unwrap_or(0);
  let mut body = buf[end + 4..].to_vec();
  while body.len() < n { let k = c.read(&mut tmp).ok()?; if k == 0 { return None } body.extend_from_slice(&tmp[..k]); }
  Some(Req { method, target, headers, body })
}

/// A port that is taken but that nothing listens on
pub struct Dead { pub port: u16, fd: i32 }
impl Dead {
  pub fn new() -> Dead {
    unsafe {
      let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
      let mut a: libc::sockaddr_in = std::mem::zeroed();
      a.sin_family = libc::AF_INET as u16;
      a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
      let mut n = std::mem::size_of_val(&a) as u32;
      assert!(fd >= 0 && libc::bind(fd, &a as *const _ as *const libc::sockaddr, n) == 0 && libc::getsockname(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut n) == 0);
      Dead { port: u16::from_be(a.sin_port), fd }
    }
  }
}
impl Drop for Dead { fn drop(&mut self) { unsafe { libc::close(self.fd); } } }

pub fn unpct(s: &str, plus: bool) -> String {
  let b = s.as_bytes();
  let (mut out, mut i) = (vec![], 0);
  while i < b.len() {
    if b[i] == b'%' && i + 2 < b.len() + 0 && b.get(i + 2).is_some() {
      if let Ok(v) = u8::from_str_radix(&s[i + 1..i + 3], 16) { out.push(v); i += 3; continue }
    }
    out.push(if plus && b[i] == b'+' { b' ' } else { b[i] });
    i += 1;
  }
  String::from_utf8_lossy(&out).to_string()
}
/// query string as (name, value) pairs in order; a name without '=' has no value
pub fn pairs(q: &str) -> Vec<(String, Option<String>)> {
  q.split('&').filter(|p| !p.is_empty()).map(|p| match p.split_once('=') { Some((k, v)) => (unpct(k, true), Some(unpct(v, true))), None => (unpct(p, true), None) }).collect()
}
