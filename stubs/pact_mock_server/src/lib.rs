//! Stand-in for pact_mock_server: keeps the pacts it is given; nothing is listening.
use either::Either;
use mock_server::{MockServer, MockServerConfig, PluginMockServer};
use pact_models::pact::{Pact, load_pact_from_json, write_pact};
use server_manager::ServerManager;
use std::net::SocketAddr;
use std::path::PathBuf;
use std::sync::Mutex;
use tokio_rustls::rustls::ServerConfig;

tokio::task_local! { pub static LOG_ID: String; }
lazy_static::lazy_static! { pub static ref MANAGER: Mutex<Option<ServerManager>> = Mutex::new(None); }

#[derive(Debug)]
pub enum MockServerError { InvalidPactJson, MockServerFailedToStart }
impl std::fmt::Display for MockServerError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for MockServerError {}
#[derive(Debug)]
pub enum WritePactFileErr { IOError, NoMockServer }

pub mod tls {
  use tokio_rustls::rustls::ServerConfig;
  #[derive(Default)]
  pub struct TlsConfigBuilder;
  impl TlsConfigBuilder {
    pub fn new() -> Self { TlsConfigBuilder }
    pub fn key(self, _: &[u8]) -> Self { self }
    pub fn cert(self, _: &[u8]) -> Self { self }
    pub fn build(self) -> Result<ServerConfig, std::io::Error> { Ok(ServerConfig) }
  }
}
pub mod mock_server {
  use pact_models::pact::Pact;
  use pact_models::prelude::v4::V4Pact;
  use pact_models::PactSpecification;
  use serde_json::Value;
  #[derive(Debug, Default, Clone)]
  pub struct MockServerConfig { pub cors_preflight: bool, pub pact_specification: PactSpecification, pub transport_config: Value }
  impl MockServerConfig { pub fn from_json(v: &Value) -> Self { MockServerConfig { transport_config: v.clone(), ..Default::default() } } }
  #[derive(Debug)]
  pub struct MockServer { pub id: String, pub port: u16, pub pact: Box<dyn Pact + Send + Sync>, pub config: MockServerConfig, pub transport: String }
  #[derive(Debug)]
  pub struct PluginMockServer { pub pact: V4Pact }
}
pub mod server_manager {
  use crate::mock_server::MockServer;
  use std::ffi::CString;
  #[derive(Default)]
  pub struct ServerManager { pub servers: Vec<MockServer>, pub resources: Vec<(u16, CString)>, pub next: u16 }
  impl ServerManager {
    pub fn new() -> Self { Self::default() }
    pub fn store_mock_server_resource(&mut self, port: u16, s: CString) -> bool { self.resources.push((port, s)); true }
    pub fn find_mock_server_by_port_mut<R>(&mut self, port: u16, f: &dyn Fn(&mut MockServer) -> R) -> Option<R> { self.servers.iter_mut().find(|s| s.port == port).map(f) }
  }
}
fn start(id: String, pact: Box<dyn Pact + Send + Sync>, transport: &str, config: MockServerConfig) -> anyhow::Result<i32> {
  let mut guard = MANAGER.lock().unwrap();
  let m = guard.get_or_insert_with(ServerManager::new);
  m.next += 1; let port = 20000 + m.next;
  m.servers.push(MockServer { id, port, pact, config, transport: transport.to_string() });
  Ok(port as i32)
}
pub fn create_mock_server(json: &str, _: SocketAddr) -> anyhow::Result<i32> {
  let v = serde_json::from_str(json).map_err(|_| anyhow::Error::new(MockServerError::InvalidPactJson))?;
  let pact = load_pact_from_json("<create_mock_server>", &v)?;
  start("id".to_string(), pact, "http", MockServerConfig::default())
}
pub fn create_tls_mock_server(json: &str, addr: SocketAddr, _: &ServerConfig) -> anyhow::Result<i32> { create_mock_server(json, addr) }
pub fn start_mock_server_with_config(id: String, pact: Box<dyn Pact + Send + Sync>, _: SocketAddr, config: MockServerConfig) -> anyhow::Result<i32> { start(id, pact, "http", config) }
pub fn start_tls_mock_server_with_config(id: String, pact: Box<dyn Pact + Send + Sync>, _: SocketAddr, _: &ServerConfig, config: MockServerConfig) -> anyhow::Result<i32> { start(id, pact, "https", config) }
pub fn start_mock_server_for_transport(id: String, pact: Box<dyn Pact + Send + Sync>, _: SocketAddr, transport: &str, config: MockServerConfig) -> anyhow::Result<i32> { start(id, pact, transport, config) }
pub fn mock_server_matched(port: i32) -> bool { with(port as u16, |_| true).unwrap_or(false) }
pub fn mock_server_mismatches(port: i32) -> Option<String> { with(port as u16, |_| "[]".to_string()) }
fn with<R>(port: u16, f: impl FnOnce(&MockServer) -> R) -> Option<R> { MANAGER.lock().unwrap().get_or_insert_with(ServerManager::new).servers.iter().find(|s| s.port == port).map(f) }
pub fn find_mock_server_by_port<R>(port: u16, f: &dyn Fn(&ServerManager, &String, Either<&MockServer, &PluginMockServer>) -> R) -> Option<R> {
  let mut guard = MANAGER.lock().unwrap();
  let m = guard.get_or_insert_with(ServerManager::new);
  m.servers.iter().find(|s| s.port == port).map(|s| f(m, &s.id, Either::Left(s)))
}
pub fn shutdown_mock_server_by_id(id: &str) -> bool {
  let mut guard = MANAGER.lock().unwrap();
  let m = guard.get_or_insert_with(ServerManager::new);
  let n = m.servers.len(); m.servers.retain(|s| s.id != id); m.servers.len() < n
}
pub fn write_pact_file(port: i32, dir: Option<String>, overwrite: bool) -> Result<(), WritePactFileErr> {
  with(port as u16, |s| {
    let path = PathBuf::from(dir.unwrap_or_default()).join(s.pact.default_file_name());
    write_pact(s.pact.boxed(), &path, s.config.pact_specification, overwrite).map_err(|_| WritePactFileErr::IOError)
  }).unwrap_or(Err(WritePactFileErr::NoMockServer))
}
pub fn configure_core_catalogue() {}
