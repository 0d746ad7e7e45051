//! Offline stand-in for the client of multipart-2021: writes a form of files.
pub mod mock {
  #[derive(Default, Debug)]
  pub struct ClientRequest;
  #[derive(Debug)]
  pub struct HttpBuffer { pub buf: Vec<u8>, pub boundary: String, pub content_len: Option<u64> }
}
pub mod client {
  use std::path::Path;
  use std::sync::atomic::{AtomicU64, Ordering};
  static N: AtomicU64 = AtomicU64::new(0);
  pub struct Multipart { boundary: String, buf: Vec<u8> }
  #[derive(Debug)]
  pub struct LazyIoError { pub field_name: Option<String>, pub error: std::io::Error }
  impl std::fmt::Display for LazyIoError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Error in field {:?}: {}", self.field_name, self.error) } }
  impl std::error::Error for LazyIoError {}
  impl Multipart {
    pub fn from_request(_: crate::mock::ClientRequest) -> std::io::Result<Multipart> { Ok(Multipart { boundary: format!("boundary{:016}", N.fetch_add(1, Ordering::SeqCst)), buf: vec![] }) }
    pub fn write_file<N: AsRef<str>, P: AsRef<Path>>(&mut self, name: N, path: P) -> std::io::Result<&mut Self> {
      let data = std::fs::read(path.as_ref())?;
      let file = path.as_ref().file_name().map(|f| f.to_string_lossy().to_string()).unwrap_or_default();
      let kind = match path.as_ref().extension().and_then(|e| e.to_str()) { Some("txt") => "text/plain", Some("json") => "application/json", Some("xml") => "text/xml", _ => "application/octet-stream" };
      self.buf.extend_from_slice(format!("--{}\r\nContent-Disposition: form-data; name=\"{}\"; filename=\"{}\"\r\nContent-Type: {}\r\n\r\n", self.boundary, name.as_ref(), file, kind).as_bytes());
      self.buf.extend_from_slice(&data);
      self.buf.extend_from_slice(b"\r\n");
      Ok(self)
    }
    pub fn send(mut self) -> std::io::Result<crate::mock::HttpBuffer> {
      // the closing delimiter is always written
      self.buf.extend_from_slice(format!("--{}--\r\n", self.boundary).as_bytes());
      Ok(crate::mock::HttpBuffer { content_len: Some(self.buf.len() as u64), buf: self.buf, boundary: self.boundary })
    }
  }
}
