// The crate root of rust/pact_consumer, with its modules at their place in /repo; the mock servers are left out.
use std::{env, fs};
const ROOT: &str = "/repo/rust/pact_consumer/src";
fn main() {
  println!("cargo:rerun-if-changed={}/lib.rs", ROOT);
  let text = fs::read_to_string(format!("{}/lib.rs", ROOT)).expect("pact_consumer's lib.rs");
  let mut out = String::new();
  for line in text.lines() {
    let t = line.trim();
    if t.starts_with("//!") || t.starts_with("#![") || t.contains("README.md") { continue; }
    let module = t.rsplit("mod ").next().and_then(|r| r.strip_suffix(';')).filter(|m| t.contains("mod ") && m.chars().all(|c| c.is_alphanumeric() || c == '_'));
    match module {
      Some("mock_server") => out.push_str(&format!("#[path = \"{}/src/mock_server.rs\"]\n{}\n", env::var("CARGO_MANIFEST_DIR").unwrap(), line)),
      Some(m) => {
        let dir = format!("{}/{}/mod.rs", ROOT, m);
        let file = if fs::metadata(&dir).is_ok() { dir } else { format!("{}/{}.rs", ROOT, m) };
        out.push_str(&format!("#[path = {:?}]\n{}\n", file, line));
      }
      None => { out.push_str(line); out.push('\n'); }
    }
  }
  fs::write(format!("{}/lib.rs", env::var("OUT_DIR").unwrap()), out).unwrap();
}
