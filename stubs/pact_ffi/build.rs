// The crate root of rust/pact_ffi, with its modules at their place in /repo, without its plugin module, and its verifier module only if asked for.
use std::{env, fs};
const ROOT: &str = "/repo/rust/pact_ffi/src";
fn main() {
  println!("cargo:rerun-if-changed={}/lib.rs", ROOT);
  let text = fs::read_to_string(format!("{}/lib.rs", ROOT)).expect("pact_ffi's lib.rs");
  let mut out = String::new();
  for line in text.lines() {
    let t = line.trim();
    if t.starts_with("//!") || t.starts_with("#![") { continue; }
    let module = t.rsplit("mod ").next().and_then(|r| r.strip_suffix(';')).filter(|m| t.contains("mod ") && m.chars().all(|c| c.is_alphanumeric() || c == '_'));
    match module {
      Some("plugins") => {}
      Some("verifier") if env::var("CARGO_FEATURE_VERIFIER").is_err() => {}
      Some(m) => {
        let dir = format!("{}/{}/mod.rs", ROOT, m);
        let file = if fs::metadata(&dir).is_ok() { dir } else { format!("{}/{}.rs", ROOT, m) };
        out.push_str(&format!("#[path = {:?}]\n{}\n", file, line));
      }
      None => { out.push_str(line); out.push('\n'); }
    }
  }
  fs::write(format!("{}/lib.rs", env::var("OUT_DIR").unwrap()), out).unwrap();
}
