//! Offline stand-in for `reqwest`: requests are answered by a handler registered for the host, so that a check can be
//! the network and everything behind it. Building requests (query, headers, bodies) follows the real crate.
use base64::Engine;
use bytes::Bytes;
pub use http::{HeaderMap, HeaderName, HeaderValue, Method, StatusCode};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::HashMap;
use std::fmt;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;
pub use url::Url;
pub mod header { pub use http::header::*; }

/// A request as it goes over the network.
#[derive(Clone, Debug, PartialEq)]
pub struct Call { pub method: String, pub url: Url, pub headers: HeaderMap, pub body: Vec<u8>,
  /// The client's timeout and whether it accepts any certificate.
  pub timeout: Option<Duration>, pub insecure: bool }
/// What the network answers.
#[derive(Clone, Debug, PartialEq)]
pub enum Reply {
  Response { status: u16, headers: Vec<(String, String)>, body: Vec<u8> },
  /// The response arrives but its body breaks off.
  Broken { status: u16, headers: Vec<(String, String)> },
  /// No connection.
  Refused,
}
type Handler = Arc<dyn Fn(Call) -> Reply + Send + Sync>;
fn handlers() -> &'static Mutex<HashMap<String, Handler>> { static H: OnceLock<Mutex<HashMap<String, Handler>>> = OnceLock::new(); H.get_or_init(Default::default) }
/// From now on requests to `host` are answered by `h`.
pub fn serve(host: &str, h: Handler) { handlers().lock().unwrap().insert(host.to_string(), h); }
pub fn stop(host: &str) { handlers().lock().unwrap().remove(host); }

#[derive(Debug)]
pub struct Error { text: String, status: Option<StatusCode> }
impl Error {
  fn new(t: impl fmt::Display) -> Self { Error { text: t.to_string(), status: None } }
  pub fn is_status(&self) -> bool { self.status.is_some() }
  pub fn status(&self) -> Option<StatusCode> { self.status }
  pub fn is_connect(&self) -> bool { self.text.starts_with("error sending") }
  pub fn is_timeout(&self) -> bool { false }
}
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.text) } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub trait IntoUrl { fn into_url(self) -> Result<Url>; }
impl IntoUrl for Url { fn into_url(self) -> Result<Url> { if self.has_host() { Ok(self) } else { Err(Error::new("builder error: URL scheme is not allowed")) } } }
impl IntoUrl for &str { fn into_url(self) -> Result<Url> { Url::parse(self).map_err(|e| Error::new(format!("builder error: {}", e)))?.into_url() } }
impl IntoUrl for &String { fn into_url(self) -> Result<Url> { self.as_str().into_url() } }
impl IntoUrl for String { fn into_url(self) -> Result<Url> { self.as_str().into_url() } }

#[derive(Clone, Debug, Default)]
pub struct Body(Bytes);
impl From<Bytes> for Body { fn from(b: Bytes) -> Self { Body(b) } }
impl From<Vec<u8>> for Body { fn from(b: Vec<u8>) -> Self { Body(b.into()) } }
impl From<&'static [u8]> for Body { fn from(b: &'static [u8]) -> Self { Body(b.into()) } }
impl From<String> for Body { fn from(b: String) -> Self { Body(b.into()) } }
impl From<&'static str> for Body { fn from(b: &'static str) -> Self { Body(b.into()) } }

#[derive(Debug, Default)]
pub struct ClientBuilder { headers: HeaderMap, error: Option<String>, timeout: Option<Duration>, insecure: bool }
impl ClientBuilder {
  pub fn new() -> Self { Self::default() }
  pub fn danger_accept_invalid_certs(mut self, yes: bool) -> Self { self.insecure = yes; self }
  pub fn timeout(mut self, t: Duration) -> Self { self.timeout = Some(t); self }
  pub fn tcp_keepalive<D: Into<Option<Duration>>>(self, _: D) -> Self { self }
  pub fn user_agent<V: TryInto<HeaderValue>>(mut self, v: V) -> Self where V::Error: fmt::Display {
    match v.try_into() { Ok(v) => { self.headers.insert(http::header::USER_AGENT, v); } Err(e) => self.error = Some(e.to_string()) } self
  }
  pub fn default_headers(mut self, h: HeaderMap) -> Self { replace(&mut self.headers, h); self }
  pub fn build(self) -> Result<Client> { match self.error { Some(e) => Err(Error::new(e)), None => Ok(Client { headers: self.headers, timeout: self.timeout, insecure: self.insecure }) } }
}
fn replace(dst: &mut HeaderMap, src: HeaderMap) {
  let mut last = None;
  for (k, v) in src { match k { Some(k) => { dst.insert(k.clone(), v); last = Some(k); } None => { dst.append(last.clone().unwrap(), v); } } }
}
#[derive(Clone, Debug, Default)]
pub struct Client { headers: HeaderMap, timeout: Option<Duration>, insecure: bool }
impl Client {
  pub fn new() -> Self { Self::default() }
  pub fn builder() -> ClientBuilder { ClientBuilder::new() }
  pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder { RequestBuilder { client: self.clone(), req: url.into_url().map(|url| Req { method, url, headers: HeaderMap::new(), body: None }).map_err(|e| e.text) } }
  pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::GET, url) }
  pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::POST, url) }
  pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::PUT, url) }
}
#[derive(Clone, Debug)]
struct Req { method: Method, url: Url, headers: HeaderMap, body: Option<Body> }
#[derive(Debug)]
pub struct RequestBuilder { client: Client, req: std::result::Result<Req, String> }
impl RequestBuilder {
  fn with(mut self, f: impl FnOnce(&mut Req) -> std::result::Result<(), String>) -> Self {
    if let Ok(r) = &mut self.req { if let Err(e) = f(r) { self.req = Err(format!("builder error: {}", e)); } }
    self
  }
  pub fn query<T: Serialize + ?Sized>(self, q: &T) -> Self {
    self.with(|r| {
      { let mut pairs = r.url.query_pairs_mut(); q.serialize(serde_urlencoded::Serializer::new(&mut pairs)).map_err(|e| e.to_string())?; }
      if r.url.query() == Some("") { r.url.set_query(None); }
      Ok(())
    })
  }
  pub fn headers(self, h: HeaderMap) -> Self { self.with(|r| { replace(&mut r.headers, h); Ok(()) }) }
  pub fn header<K, V>(self, k: K, v: V) -> Self where HeaderName: TryFrom<K>, <HeaderName as TryFrom<K>>::Error: fmt::Display, HeaderValue: TryFrom<V>, <HeaderValue as TryFrom<V>>::Error: fmt::Display {
    self.with(|r| { let k = HeaderName::try_from(k).map_err(|e| e.to_string())?; let v = HeaderValue::try_from(v).map_err(|e| e.to_string())?; r.headers.append(k, v); Ok(()) })
  }
  pub fn basic_auth<U: fmt::Display, P: fmt::Display>(self, u: U, p: Option<P>) -> Self {
    let t = format!("{}:{}", u, p.map(|p| p.to_string()).unwrap_or_default());
    self.header("authorization", format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(t)))
  }
  pub fn bearer_auth<T: fmt::Display>(self, t: T) -> Self { self.header("authorization", format!("Bearer {}", t)) }
  pub fn body<B: Into<Body>>(self, b: B) -> Self { let b = b.into(); self.with(|r| { r.body = Some(b); Ok(()) }) }
  pub fn json<T: Serialize + ?Sized>(self, v: &T) -> Self { self.with(|r| { r.body = Some(serde_json::to_vec(v).map_err(|e| e.to_string())?.into()); r.headers.entry("content-type").or_insert(HeaderValue::from_static("application/json")); Ok(()) }) }
  pub fn form<T: Serialize + ?Sized>(self, v: &T) -> Self { self.with(|r| { r.body = Some(serde_urlencoded::to_string(v).map_err(|e| e.to_string())?.into()); r.headers.entry("content-type").or_insert(HeaderValue::from_static("application/x-www-form-urlencoded")); Ok(()) }) }
  pub fn timeout(self, _: Duration) -> Self { self }
  pub fn try_clone(&self) -> Option<Self> { self.req.as_ref().ok().map(|r| RequestBuilder { client: self.client.clone(), req: Ok(r.clone()) }) }
  fn perform(self) -> Result<Response> {
    let mut r = self.req.map_err(Error::new)?;
    for (k, v) in &self.client.headers { if !r.headers.contains_key(k) { r.headers.insert(k.clone(), v.clone()); } }
    let host = r.url.host_str().unwrap_or("").to_string();
    let h = handlers().lock().unwrap().get(&host).cloned();
    let refused = |url: &Url| Err(Error::new(format!("error sending request for url ({})", url)));
    let Some(h) = h else { return refused(&r.url) };
    let call = Call { method: r.method.to_string(), url: r.url.clone(), headers: r.headers, body: r.body.map(|b| b.0.to_vec()).unwrap_or_default(), timeout: self.client.timeout, insecure: self.client.insecure };
    let head = |status: u16, hs: Vec<(String, String)>| { let mut m = HeaderMap::new(); for (k, v) in hs { m.append(HeaderName::try_from(k).unwrap(), HeaderValue::from_bytes(v.as_bytes()).unwrap()); } (StatusCode::from_u16(status).unwrap(), m) };
    match h(call) {
      Reply::Refused => refused(&r.url),
      Reply::Broken { status, headers } => { let (status, headers) = head(status, headers); Ok(Response { status, headers, body: None, url: r.url }) }
      Reply::Response { status, headers, body } => { let (status, headers) = head(status, headers); Ok(Response { status, headers, body: Some(body.into()), url: r.url }) }
    }
  }
  pub async fn send(self) -> Result<Response> { self.perform() }
}
#[derive(Debug)]
pub struct Response { status: StatusCode, headers: HeaderMap, body: Option<Bytes>, url: Url }
impl Response {
  pub fn status(&self) -> StatusCode { self.status }
  pub fn headers(&self) -> &HeaderMap { &self.headers }
  pub fn url(&self) -> &Url { &self.url }
  fn content(self) -> Result<Bytes> { self.body.ok_or_else(|| Error::new("error decoding response body")) }
  pub async fn bytes(self) -> Result<Bytes> { self.content() }
  pub async fn text(self) -> Result<String> { Ok(String::from_utf8_lossy(&self.content()?).to_string()) }
  pub async fn json<T: DeserializeOwned>(self) -> Result<T> { serde_json::from_slice(&self.content()?).map_err(|e| Error::new(format!("error decoding response body: {}", e))) }
  pub fn error_for_status(self) -> Result<Self> { if self.status.is_client_error() || self.status.is_server_error() { Err(Error { text: format!("HTTP status error ({}) for url ({})", self.status, self.url), status: Some(self.status) }) } else { Ok(self) } }
}

pub mod blocking {
  use super::{IntoUrl, Result, StatusCode};
  #[derive(Debug, Default, Clone)] pub struct Client(super::Client);
  impl Client {
    pub fn new() -> Self { Self::default() }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder { RequestBuilder(self.0.get(url)) }
  }
  pub struct RequestBuilder(super::RequestBuilder);
  impl RequestBuilder {
    pub fn basic_auth<U: std::fmt::Display, P: std::fmt::Display>(self, u: U, p: Option<P>) -> Self { Self(self.0.basic_auth(u, p)) }
    pub fn bearer_auth<T: std::fmt::Display>(self, t: T) -> Self { Self(self.0.bearer_auth(t)) }
    pub fn send(self) -> Result<Response> { self.0.perform().map(Response) }
  }
  pub struct Response(super::Response);
  impl Response {
    pub fn status(&self) -> StatusCode { self.0.status() }
    pub fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> { serde_json::from_slice(&self.0.content()?).map_err(|e| super::Error::new(format!("error decoding response body: {}", e))) }
  }
}
