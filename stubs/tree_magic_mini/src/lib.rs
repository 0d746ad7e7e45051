//! Offline stand-in for `tree_magic_mini`: text or not.
pub fn from_u8(data: &[u8]) -> &'static str {
  if std::str::from_utf8(data).map(|s| s.chars().all(|c| !c.is_control() || c.is_whitespace())).unwrap_or(false) { "text/plain" }
  else { "application/octet-stream" }
}
