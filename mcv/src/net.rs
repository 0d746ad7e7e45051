//! The network and everything behind it: a provider, a pact broker and a state change handler as functions of the requests.
use reqwest::{Call, Reply};
use serde_json::Value;
use std::future::Future;
use std::sync::{Arc, Mutex};

pub fn block_on<F: Future>(f: F) -> F::Output {
  tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(f)
}
/// A host of its own, answered by a function as long as this exists. Every request is kept.
pub struct Host { pub name: String, pub calls: Arc<Mutex<Vec<Call>>> }
impl Host {
  pub fn new(h: impl Fn(&Call, usize) -> Reply + Send + Sync + 'static) -> Host {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let name = format!("h{}.test", N.fetch_add(1, Ordering::SeqCst));
    let calls = Arc::new(Mutex::new(vec![])); let kept = calls.clone();
    reqwest::serve(&name, Arc::new(move |c: Call| { let n = { let mut k = kept.lock().unwrap(); k.push(c.clone()); k.len() - 1 }; h(&c, n) }));
    Host { name, calls }
  }
  pub fn calls(&self) -> Vec<Call> { self.calls.lock().unwrap().clone() }
}
impl Drop for Host { fn drop(&mut self) { reqwest::stop(&self.name); } }

pub fn json(status: u16, v: &Value) -> Reply { Reply::Response { status, headers: vec![("content-type".into(), "application/hal+json".into())], body: v.to_string().into_bytes() } }
pub fn body(c: &Call) -> Value { serde_json::from_slice(&c.body).unwrap_or(Value::Null) }

/// Standard output goes nowhere while this exists (the verifier prints its report).
pub struct Silent(i32);
impl Silent {
  pub fn new() -> Silent {
    use std::io::Write; let _ = std::io::stdout().flush();
    unsafe { let keep = libc::dup(1); let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY); libc::dup2(null, 1); libc::close(null); Silent(keep) }
  }
}
impl Drop for Silent { fn drop(&mut self) { use std::io::Write; let _ = std::io::stdout().flush(); unsafe { libc::dup2(self.0, 1); libc::close(self.0); } } }
