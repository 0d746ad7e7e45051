//! Offline stand-in for `reqwest`: every request fails (there is no network here).
use std::fmt;
pub use http::StatusCode;

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}

pub mod blocking {
  use super::Error;
  use std::fmt::Display;
  #[derive(Debug, Default, Clone)] pub struct Client;
  impl Client {
    pub fn new() -> Self { Client }
    pub fn get<U: AsRef<str>>(&self, url: U) -> RequestBuilder { RequestBuilder(url.as_ref().to_string()) }
  }
  pub struct RequestBuilder(String);
  impl RequestBuilder {
    pub fn basic_auth<U: Display, P: Display>(self, _: U, _: Option<P>) -> Self { self }
    pub fn bearer_auth<T: Display>(self, _: T) -> Self { self }
    pub fn send(self) -> Result<Response, Error> { Err(Error(format!("no network: {}", self.0))) }
  }
  pub struct Response(http::StatusCode);
  impl Response {
    pub fn status(&self) -> http::StatusCode { self.0 }
    pub fn json<T: serde::de::DeserializeOwned>(self) -> Result<T, Error> { Err(Error("no network".to_string())) }
  }
}

#[derive(Debug, Default, Clone)] pub struct Client;
impl Client {
  pub fn new() -> Self { Client }
  pub fn post<U: AsRef<str>>(&self, url: U) -> RequestBuilder { RequestBuilder(url.as_ref().to_string()) }
}
pub struct RequestBuilder(String);
impl RequestBuilder {
  pub fn form<T: ?Sized>(self, _: &T) -> Self { self }
  pub async fn send(self) -> Result<Response, Error> { Err(Error(format!("no network: {}", self.0))) }
}
pub struct Response(http::StatusCode);
impl Response { pub fn status(&self) -> StatusCode { self.0 } }
