// the file operations of the standard library are looked up by name at run time: export the ones in sys.rs
fn main() { println!("cargo:rustc-link-arg-bins=-rdynamic"); println!("cargo:rerun-if-changed=build.rs"); }
