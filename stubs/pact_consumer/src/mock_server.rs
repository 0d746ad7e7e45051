//! Stand-in for the mock servers of pact_consumer: none can be started.
use async_trait::async_trait;
use pact_mock_server::mock_server::MockServerConfig;

pub trait ValidatingMockServer {}
pub trait StartMockServer {
  fn start_mock_server(&self, catalog_entry: Option<&str>, config: Option<MockServerConfig>) -> Box<dyn ValidatingMockServer>;
}
#[async_trait]
pub trait StartMockServerAsync {
  async fn start_mock_server_async(&self, catalog_entry: Option<&str>, config: Option<MockServerConfig>) -> Box<dyn ValidatingMockServer>;
}
pub(crate) mod http_mock_server {
  use super::*;
  use pact_models::pact::Pact;
  use std::path::PathBuf;
  pub struct ValidatingHttpMockServer;
  impl ValidatingMockServer for ValidatingHttpMockServer {}
  impl ValidatingHttpMockServer {
    pub fn start(_: Box<dyn Pact + Send + Sync>, _: Option<PathBuf>, _: Option<MockServerConfig>) -> Box<dyn ValidatingMockServer> { Box::new(ValidatingHttpMockServer) }
    pub async fn start_async(_: Box<dyn Pact + Send + Sync>, _: Option<PathBuf>, _: Option<MockServerConfig>) -> Box<dyn ValidatingMockServer> { Box::new(ValidatingHttpMockServer) }
  }
}
