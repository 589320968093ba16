//! Stand-in for the multipart client: writes the parts of a form to a buffer.
pub mod mock {
  #[derive(Debug, Default)]
  pub struct ClientRequest {}
  #[derive(Debug)]
  pub struct HttpBuffer { pub buf: Vec<u8>, pub boundary: String }
}
pub mod client {
  use std::io;
  use std::path::Path;
  use std::sync::atomic::{AtomicU64, Ordering};
  use super::mock::{ClientRequest, HttpBuffer};
  static NEXT: AtomicU64 = AtomicU64::new(1);
  pub struct Multipart { boundary: String, buf: Vec<u8> }
  impl Multipart {
    pub fn from_request(_: ClientRequest) -> io::Result<Multipart> {
      Ok(Multipart { boundary: format!("Boundary{:08}", NEXT.fetch_add(1, Ordering::SeqCst)), buf: vec![] })
    }
    pub fn write_file<P: AsRef<Path>>(&mut self, name: &str, path: P) -> io::Result<&mut Self> {
      let path = path.as_ref();
      let data = std::fs::read(path)?;
      let file = path.file_name().map(|n| n.to_string_lossy().to_string()).unwrap_or_default();
      if !self.buf.is_empty() { self.buf.extend_from_slice(b"\r\n"); }
      self.buf.extend_from_slice(format!("--{}\r\nContent-Disposition: form-data; name=\"{}\"; filename=\"{}\"\r\n\r\n", self.boundary, name, file).as_bytes());
      self.buf.extend_from_slice(&data);
      Ok(self)
    }
    pub fn send(mut self) -> io::Result<HttpBuffer> {
      if !self.buf.is_empty() { self.buf.extend_from_slice(b"\r\n"); }
      self.buf.extend_from_slice(format!("--{}--\r\n", self.boundary).as_bytes());
      Ok(HttpBuffer { buf: self.buf, boundary: self.boundary })
    }
  }
}
