//! Calling the C interface.
pub use pact_ffi::mock_server::handles::*;
use pact_models::v4::interaction::V4Interaction;
use pact_models::generators::Generators;
use pact_models::matchingrules::MatchingRules;
use serde_json::{json, Map, Value};
use std::ffi::{CStr, CString};
use std::os::raw::c_char;

/// A C string (or NULL) that lives as long as the call.
pub struct Text(Option<CString>);
pub fn t(s: impl Into<Arg>) -> Text { Text(s.into().0.map(|b| CString::new(b).unwrap())) }
pub struct Arg(Option<Vec<u8>>);
impl From<&str> for Arg { fn from(s: &str) -> Arg { Arg(Some(s.as_bytes().to_vec())) } }
impl From<&String> for Arg { fn from(s: &String) -> Arg { Arg(Some(s.as_bytes().to_vec())) } }
impl From<Option<&str>> for Arg { fn from(s: Option<&str>) -> Arg { Arg(s.map(|s| s.as_bytes().to_vec())) } }
impl From<&[u8]> for Arg { fn from(s: &[u8]) -> Arg { Arg(Some(s.to_vec())) } }
impl Text { pub fn p(&self) -> *const c_char { self.0.as_ref().map(|c| c.as_ptr()).unwrap_or(std::ptr::null()) } }
/// The text of a returned string, which is released.
pub fn taken(p: *const c_char) -> Option<String> {
  if p.is_null() { return None; }
  let s = unsafe { CStr::from_ptr(p) }.to_string_lossy().to_string();
  unsafe { drop(CString::from_raw(p as *mut c_char)); }
  Some(s)
}
pub fn pact_id(p: PactHandle) -> u16 { unsafe { std::mem::transmute(p) } }
pub fn new_pact(c: &str, p: &str) -> PactHandle { pactffi_new_pact(t(c).p(), t(p).p()) }
/// Everything there is in an interaction; rules and generators by their whole paths.
pub fn whole(i: &dyn V4Interaction) -> Value {
  let mut v = i.to_json();
  for p in ["", "/request", "/response"] { if let Some(Value::Object(m)) = v.pointer_mut(p) { m.remove("matchingRules"); m.remove("generators"); } }
  if let Some(l) = v.get_mut("response").and_then(|r| r.as_array_mut()) { for r in l { if let Some(m) = r.as_object_mut() { m.remove("matchingRules"); m.remove("generators"); } } }
  let mut parts = vec![];
  if let Some(h) = i.as_v4_http() { parts.push(described(&h.request.matching_rules, &h.request.generators)); parts.push(described(&h.response.matching_rules, &h.response.generators)); }
  else if let Some(a) = i.as_v4_async_message() { parts.push(described(&a.contents.matching_rules, &a.contents.generators)); }
  else if let Some(s) = i.as_v4_sync_message() { for c in std::iter::once(&s.request).chain(&s.response) { parts.push(described(&c.matching_rules, &c.generators)); } }
  v["parts"] = Value::Array(parts);
  v
}
pub fn described(rules: &MatchingRules, gens: &Generators) -> Value {
  let r: Map<String, Value> = rules.rules.iter().flat_map(|(c, m)| m.rules.iter().map(move |(p, l)| (format!("{} {:?}", c, p.tokens()), json!([format!("{:?}", l.rule_logic), l.rules.iter().map(|r| r.to_json()).collect::<Vec<_>>()])))).collect();
  let g: Map<String, Value> = gens.categories.iter().flat_map(|(c, m)| { let c: String = c.clone().into(); m.iter().map(move |(p, g)| (format!("{} {:?}", c, p.tokens()), json!(format!("{:?}", g)))) }).collect();
  json!({"rules": r, "generators": g})
}
/// The interaction a handle stands for.
pub fn shown(i: InteractionHandle) -> Option<Value> { i.with_interaction(&|_, _, inner: &mut dyn V4Interaction| whole(inner)) }
pub fn as_message(i: InteractionHandle) -> MessageHandle { unsafe { std::mem::transmute(i) } }
pub fn as_interaction(i: MessageHandle) -> InteractionHandle { unsafe { std::mem::transmute(i) } }
pub fn as_message_pact(i: PactHandle) -> MessagePactHandle { unsafe { std::mem::transmute(i) } }

/// Bytes that end where the memory that may be read ends.
pub struct Guarded { base: *mut u8, whole: usize, at: *const u8 }
impl Guarded {
  pub fn new(b: &[u8]) -> Guarded {
    unsafe {
      let page = libc::sysconf(libc::_SC_PAGESIZE) as usize;
      let n = b.len().div_ceil(page).max(1) * page;
      let base = libc::mmap(std::ptr::null_mut(), n + page, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
      assert!(base as isize != -1);
      let at = base.add(n - b.len());
      std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
      libc::mprotect(base.add(n) as *mut _, page, libc::PROT_NONE);
      Guarded { base, whole: n + page, at }
    }
  }
  pub fn p(&self) -> *const u8 { self.at }
}
impl Drop for Guarded { fn drop(&mut self) { unsafe { libc::munmap(self.base as *mut _, self.whole); } } }
