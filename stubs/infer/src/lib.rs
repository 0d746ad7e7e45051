//! Offline stand-in for `infer`: a few magic numbers.
#[derive(Debug, Clone, Copy)]
pub struct Type(&'static str);
impl Type { pub fn mime_type(&self) -> &'static str { self.0 } }
pub fn get(data: &[u8]) -> Option<Type> {
  let m: &[(&[u8], &'static str)] = &[
    (b"\x89PNG\r\n\x1a\n", "image/png"), (b"\xff\xd8\xff", "image/jpeg"), (b"GIF8", "image/gif"), (b"%PDF", "application/pdf"),
    (b"\x1f\x8b", "application/gzip"), (b"PK\x03\x04", "application/zip"), (b"<?xml", "text/xml"),
  ];
  m.iter().find(|(p, _)| data.starts_with(p)).map(|(_, t)| Type(t))
}
