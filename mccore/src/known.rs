//! The known-findings file: lines
//! `KNOWN property=<id> key=<key> :: <what fails>`  – a genuine defect that is recorded, not repaired
//! `fixed: property=<id> <commit> <what failed>`     – repaired; suppresses nothing
use std::collections::BTreeMap;

/// Keys are compared on one line.
pub fn norm(s: &str) -> String { s.chars().map(|c| if c.is_control() { format!("\\u{{{:x}}}", c as u32) } else { c.to_string() }).collect() }

pub fn load(path: &str, prop: &str) -> BTreeMap<String, String> {
  let mut m = BTreeMap::new();
  let text = std::fs::read_to_string(path).unwrap_or_default();
  for line in text.lines() {
    let Some(rest) = line.strip_prefix(&format!("KNOWN property={} key=", prop)) else { continue };
    let (key, what) = rest.split_once(" :: ").unwrap_or((rest, rest));
    m.insert(key.to_string(), what.to_string());
  }
  m
}
