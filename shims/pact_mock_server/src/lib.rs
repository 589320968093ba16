//! Stand-in for the mock server crate, which is not part of the repository: it only keeps the pacts it was
//! given under the ports it hands out, and writes them when asked.
use std::collections::HashMap;
use std::ffi::CString;
use std::net::SocketAddr;
use std::sync::Mutex;
use either::Either;
use lazy_static::lazy_static;
use pact_models::pact::{load_pact_from_json, write_pact, Pact};
use pact_models::PactSpecification;
use tokio_rustls::rustls::ServerConfig;

tokio::task_local! { pub static LOG_ID: String; }
lazy_static! { pub static ref MANAGER: Mutex<Option<server_manager::ServerManager>> = Mutex::new(None); }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MockServerError { InvalidPactJson, MockServerFailedToStart }
impl std::fmt::Display for MockServerError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for MockServerError {}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum WritePactFileErr { IOError, NoMockServer }

pub mod tls {
  #[derive(Debug, Default)]
  pub struct TlsConfigBuilder {}
  impl TlsConfigBuilder {
    pub fn new() -> Self { Self {} }
    pub fn key(self, _: &[u8]) -> Self { self }
    pub fn cert(self, _: &[u8]) -> Self { self }
    pub fn build(self) -> anyhow::Result<tokio_rustls::rustls::ServerConfig> { Ok(Default::default()) }
  }
}
pub mod mock_server {
  use super::*;
  #[derive(Debug, Clone, Default)]
  pub struct MockServerConfig { pub cors_preflight: bool, pub pact_specification: PactSpecification, pub keep_alive: bool }
  impl MockServerConfig {
    pub fn from_json(v: &serde_json::Value) -> Self {
      MockServerConfig { cors_preflight: v["corsPreflight"].as_bool().unwrap_or_default(), ..Default::default() }
    }
  }
  #[derive(Debug, Clone, Default)]
  pub struct MockServerMetrics { pub requests: usize }
  #[derive(Debug)]
  pub struct MockServer {
    pub id: String, pub port: u16, pub pact: Box<dyn Pact + Send + Sync>, pub spec: PactSpecification, pub resources: Vec<CString>,
    pub metrics: std::sync::Arc<Mutex<MockServerMetrics>>
  }
  impl MockServer {
    pub fn url(&self) -> String { format!("http://127.0.0.1:{}", self.port) }
    pub fn shutdown(&mut self) -> anyhow::Result<()> { Ok(()) }
    /// What the test said went wrong
    pub fn mismatches(&self) -> Vec<super::matching::MatchResult> { super::FAULTS.lock().unwrap().get(&self.port).cloned().unwrap_or_default() }
    pub fn write_pact(&self, directory: &Option<String>, overwrite: bool) -> anyhow::Result<()> {
      let mut path = std::path::PathBuf::from(directory.clone().unwrap_or_default());
      path.push(self.pact.default_file_name());
      write_pact(self.pact.boxed(), &path, self.spec, overwrite)
    }
  }
  #[derive(Debug)]
  pub struct PluginMockServer { pub pact: pact_models::v4::pact::V4Pact }
}
pub mod matching {
  use pact_matching::Mismatch;
  use pact_models::v4::http_parts::HttpRequest;
  #[derive(Debug, Clone)]
  pub enum MatchResult {
    RequestMatch(HttpRequest, HttpRequest), RequestMismatch(HttpRequest, HttpRequest, Vec<Mismatch>), RequestNotFound(HttpRequest), MissingRequest(HttpRequest)
  }
}
lazy_static! { pub static ref FAULTS: Mutex<HashMap<u16, Vec<matching::MatchResult>>> = Mutex::new(HashMap::new()); }
pub mod builder {
  use super::*;
  use super::mock_server::{MockServer, MockServerConfig};
  static NEXT: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(1);
  #[derive(Debug, Default)]
  pub struct MockServerBuilder { pact: Option<Box<dyn Pact + Send + Sync>>, port: Option<u16> }
  impl MockServerBuilder {
    pub fn new() -> Self { Default::default() }
    pub fn with_pact(mut self, pact: Box<dyn Pact + Send + Sync>) -> Self { self.pact = Some(pact); self }
    pub fn with_config(self, _: MockServerConfig) -> Self { self }
    pub fn address_assigned(&self) -> bool { self.port.is_some() }
    pub fn bind_to_ip4_port(mut self, port: u16) -> Self { self.port = Some(port); self }
    pub async fn start(self) -> anyhow::Result<MockServer> {
      let pact = self.pact.ok_or_else(|| anyhow::anyhow!("no pact"))?;
      let port = match self.port { Some(p) if p > 0 => p, _ => NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
      let spec = pact.specification_version();
      Ok(MockServer { id: port.to_string(), port, pact, spec, resources: vec![], metrics: Default::default() })
    }
  }
}
pub mod server_manager {
  use super::*;
  use super::mock_server::MockServer;
  #[derive(Debug, Default)]
  pub struct ServerManager { pub servers: HashMap<u16, MockServer>, next: u16 }
  impl ServerManager {
    pub fn new() -> Self { ServerManager { servers: HashMap::new(), next: 20000 } }
    pub fn store_mock_server_resource(&mut self, port: u16, s: CString) -> bool {
      match self.servers.get_mut(&port) { Some(ms) => { ms.resources.push(s); true }, None => false }
    }
    pub fn find_mock_server_by_port_mut<R>(&mut self, port: u16, f: &dyn Fn(&mut MockServer) -> R) -> Option<R> {
      self.servers.get_mut(&port).map(|ms| f(ms))
    }
    pub(crate) fn start(&mut self, id: String, pact: Box<dyn Pact + Send + Sync>, addr: SocketAddr, spec: PactSpecification) -> anyhow::Result<i32> {
      let port = if addr.port() == 0 {
        while self.servers.contains_key(&self.next) { self.next = if self.next >= 60000 { 20000 } else { self.next + 1 } }
        self.next
      } else { addr.port() };
      if self.servers.contains_key(&port) { return Err(MockServerError::MockServerFailedToStart.into()); }
      self.servers.insert(port, MockServer { id, port, pact, spec, resources: vec![], metrics: Default::default() });
      Ok(port as i32)
    }
  }
}
use mock_server::{MockServer, MockServerConfig, PluginMockServer};
use server_manager::ServerManager;

fn start(id: String, pact: Box<dyn Pact + Send + Sync>, addr: SocketAddr, spec: PactSpecification) -> anyhow::Result<i32> {
  MANAGER.lock().unwrap().get_or_insert_with(ServerManager::new).start(id, pact, addr, spec)
}
pub fn create_mock_server(json: &str, addr: SocketAddr) -> anyhow::Result<i32> {
  let value: serde_json::Value = serde_json::from_str(json).map_err(|_| MockServerError::InvalidPactJson)?;
  let pact = load_pact_from_json("<create_mock_server>", &value).map_err(|_| MockServerError::InvalidPactJson)?;
  let spec = pact.specification_version();
  start(format!("{}", addr), pact, addr, spec)
}
pub fn create_tls_mock_server(json: &str, addr: SocketAddr, _: &ServerConfig) -> anyhow::Result<i32> { create_mock_server(json, addr) }
pub fn start_mock_server_with_config(id: String, pact: Box<dyn Pact + Send + Sync>, addr: SocketAddr, config: MockServerConfig) -> anyhow::Result<i32> {
  start(id, pact, addr, config.pact_specification)
}
pub fn start_tls_mock_server_with_config(id: String, pact: Box<dyn Pact + Send + Sync>, addr: SocketAddr, _: &ServerConfig, config: MockServerConfig) -> anyhow::Result<i32> {
  start(id, pact, addr, config.pact_specification)
}
pub fn start_mock_server_for_transport(id: String, pact: Box<dyn Pact + Send + Sync>, addr: SocketAddr, transport: &str, config: MockServerConfig) -> anyhow::Result<i32> {
  if transport == "http" || transport == "https" || transport.is_empty() { start(id, pact, addr, config.pact_specification) }
  else { Err(MockServerError::MockServerFailedToStart.into()) }
}
fn with<R>(port: i32, f: impl FnOnce(&mut MockServer) -> R) -> Option<R> {
  MANAGER.lock().unwrap().get_or_insert_with(ServerManager::new).servers.get_mut(&(port as u16)).map(f)
}
pub fn mock_server_matched(port: i32) -> bool { with(port, |ms| ms.pact.interactions().is_empty()).unwrap_or(false) }
pub fn mock_server_mismatches(port: i32) -> Option<String> {
  with(port, |ms| serde_json::json!(ms.pact.interactions().iter().map(|i| serde_json::json!({"type": "missing-request", "description": i.description()})).collect::<Vec<_>>()).to_string())
}
pub fn find_mock_server_by_port<R>(port: u16, f: &dyn Fn(&ServerManager, &String, Either<&MockServer, &PluginMockServer>) -> R) -> Option<R> {
  let guard = MANAGER.lock().unwrap();
  let m = guard.as_ref()?;
  m.servers.get(&port).map(|ms| f(m, &ms.id, Either::Left(ms)))
}
pub fn shutdown_mock_server_by_id(id: &str) -> bool {
  let mut guard = MANAGER.lock().unwrap();
  let Some(m) = guard.as_mut() else { return false };
  let port = m.servers.values().find(|ms| ms.id == id).map(|ms| ms.port);
  port.and_then(|p| m.servers.remove(&p)).is_some()
}
pub fn write_pact_file(port: i32, directory: Option<String>, overwrite: bool) -> Result<(), WritePactFileErr> {
  match with(port, |ms| {
    let pact = &ms.pact;
    let dir = directory.clone().unwrap_or_default();
    let mut path = std::path::PathBuf::from(dir);
    path.push(pact.default_file_name());
    write_pact(pact.boxed(), &path, ms.spec, overwrite).map_err(|_| WritePactFileErr::IOError)
  }) { Some(r) => r, None => Err(WritePactFileErr::NoMockServer) }
}
pub fn configure_core_catalogue() {}
