//! Stand-in: only the name of the configuration type is needed, no TLS server is ever started.
pub mod rustls {
  #[derive(Debug, Clone, Default)]
  pub struct ServerConfig {}
}
