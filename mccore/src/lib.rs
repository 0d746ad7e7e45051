//! The exploration engine shared by all checks.
//!
//! A check enumerates *spaces*: finite, indexed sets of cases. `Run::explore` executes the real code on every
//! index of a space, over a pool of threads, and records distinct states, transitions (operations of the real
//! code), distinct observed outcomes and violations. Nothing is sampled: the number of cases run always equals
//! the size of the space, and is reported in the evidence.
//!
//! A run is two processes. The child explores; the parent watches, so a case that aborts the process, overflows
//! the stack or never ends becomes a violation of that case rather than the end of the check.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use serde_json::{json, Value};

pub mod known;
pub mod util;

pub type CheckFn = fn(&Run);

pub struct Check { pub id: &'static str, pub run: CheckFn }

const SLOT_LABEL: usize = 4000;
const MAX_SLOTS: usize = 64;
/// Longest wall time of one case before it is reported as not terminating (cases take milliseconds).
const CASE_LIMIT: Duration = Duration::from_secs(60);

#[repr(C)]
struct Slot {
  busy: AtomicU64,      // 0 = idle, otherwise 1 + index of the case
  started_ms: AtomicU64,
  space: AtomicU64,
  len: AtomicU64,
  label: [u8; SLOT_LABEL],
}

#[repr(C)]
struct Shared {
  states: AtomicU64,
  transitions: AtomicU64,
  traces: AtomicU64,
  slots: [Slot; MAX_SLOTS],
}

/// One violation: `key` identifies it in the known-findings file.
#[derive(Clone, Debug)]
pub struct Failure { pub space: String, pub index: u64, pub label: String, pub key: String, pub message: String }

#[derive(Default)]
struct Acc {
  states: HashSet<u64>,
  outcomes: HashSet<u64>,
  outcome_names: BTreeMap<String, u64>,
  transitions: u64,
  traces: u64,
  failures: BTreeMap<String, (Failure, u64)>,
  samples: Vec<(u64, String)>,
  skipped: u64,
}

impl Acc {
  fn add_failure(&mut self, f: Failure) {
    match self.failures.get_mut(&f.key) {
      Some((old, n)) => {
        *n += 1;
        if (&f.space, f.index) < (&old.space, old.index) { *old = f; }
      }
      None => {
        if self.failures.len() < 20_000 { self.failures.insert(f.key.clone(), (f, 1)); }
      }
    }
  }
  fn merge(&mut self, other: Acc) {
    self.states.extend(other.states);
    self.outcomes.extend(other.outcomes);
    for (k, v) in other.outcome_names { *self.outcome_names.entry(k).or_insert(0) += v; }
    self.transitions += other.transitions;
    self.traces += other.traces;
    self.skipped += other.skipped;
    for (_, (f, n)) in other.failures {
      let key = f.key.clone();
      self.add_failure(f);
      if let Some(e) = self.failures.get_mut(&key) { e.1 += n - 1; }
    }
    self.samples.extend(other.samples);
  }
}

pub struct Run {
  pub prop: &'static str,
  pub thorough: bool,
  pub seed: u64,
  only: Option<(String, u64)>,
  acc: Mutex<Acc>,
  spaces: Mutex<Vec<(String, u64, String)>>,
  assumptions: Mutex<Vec<String>>,
  shared: *const Shared,
}
unsafe impl Sync for Run {}

pub struct Rec<'a> {
  acc: &'a mut Acc,
  space: &'a str,
  index: u64,
  label: String,
  slot: Option<&'a Slot>,
  sample: bool,
  outcome: String,
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
  #[allow(deprecated)]
  let mut h = std::hash::SipHasher::new();
  t.hash(&mut h);
  h.finish()
}

impl<'a> Rec<'a> {
  /// Names the current case (shown in samples, replays and known findings).
  pub fn case(&mut self, label: String) {
    if let Some(slot) = self.slot {
      let b = label.as_bytes();
      let n = b.len().min(SLOT_LABEL);
      unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), slot.label.as_ptr() as *mut u8, n); }
      slot.len.store(n as u64, Ordering::Release);
    }
    self.label = label;
  }
  pub fn label(&self) -> &str { &self.label }
  /// A long case says that it gets on.
  pub fn beat(&mut self) { if let Some(slot) = self.slot { slot.started_ms.store(now_ms(), Ordering::Relaxed); } }
  /// A distinct state (of the model or of the implementation) that was reached.
  pub fn state<T: Hash + ?Sized>(&mut self, t: &T) { self.acc.states.insert(hash_of(t)); }
  /// `n` operations of the real code were executed.
  pub fn steps(&mut self, n: u64) { self.acc.transitions += n; }
  /// One trace of the reference model was replayed against the implementation and compared.
  pub fn trace(&mut self) { self.acc.traces += 1; }
  /// The observed outcome, to make vacuous explorations visible.
  pub fn outcome(&mut self, name: impl Into<String>) {
    let s: String = name.into();
    self.acc.outcomes.insert(hash_of(s.as_str()));
    if self.acc.outcome_names.len() < 40 || self.acc.outcome_names.contains_key(&s) {
      let mut short = s.clone();
      if short.len() > 80 { let mut e = 80; while !short.is_char_boundary(e) { e -= 1 } short.truncate(e); }
      *self.acc.outcome_names.entry(short).or_insert(0) += 1;
    }
    self.outcome = s;
  }
  /// A violation identified by class and case.
  pub fn fail(&mut self, class: &str, message: impl Into<String>) {
    let key = format!("{} @ {}", class, self.label);
    self.fail_key(key, message);
  }
  /// A violation identified by `key` alone (used when the key already names the specific call site or input).
  pub fn fail_key(&mut self, key: impl Into<String>, message: impl Into<String>) {
    let f = Failure { space: self.space.to_string(), index: self.index, label: self.label.clone(), key: known::norm(&key.into()), message: message.into() };
    self.acc.add_failure(f);
  }
  /// Requires `cond`.
  pub fn check(&mut self, cond: bool, class: &str, message: impl FnOnce() -> String) -> bool {
    if !cond { let m = message(); self.fail(class, m); }
    cond
  }
  pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, class: &str, expected: &T, actual: &T) -> bool {
    if expected == actual { true } else {
      self.fail(class, format!("expected {:?}, got {:?}", expected, actual));
      false
    }
  }
  /// Runs `f` on the real code; a panic is returned as `Err(message)`.
  pub fn guard<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
    self.acc.transitions += 1;
    quiet(f)
  }
  /// Runs `f`; a panic is a violation of class `class`.
  pub fn no_panic<T>(&mut self, class: &str, f: impl FnOnce() -> T) -> Option<T> {
    match self.guard(f) {
      Ok(v) => Some(v),
      Err(p) => { self.fail(class, format!("panic: {}", p)); None }
    }
  }
}

thread_local! {
  static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
  static QUIET: Cell<u32> = const { Cell::new(0) };
}

/// Catches panics silently; the error is the panic message.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  QUIET.with(|q| q.set(q.get() + 1));
  let r = catch_unwind(AssertUnwindSafe(f));
  QUIET.with(|q| q.set(q.get() - 1));
  r.map_err(|e| {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "panic".to_string() }
  })
}

fn install_hook() {
  let old = std::panic::take_hook();
  std::panic::set_hook(Box::new(move |info| {
    if QUIET.with(|q| q.get()) == 0 { old(info); }
    else { LAST_PANIC.with(|l| { if let Ok(mut l) = l.try_borrow_mut() { *l = info.to_string(); } }); }
  }));
}

fn now_ms() -> u64 {
  // CLOCK_MONOTONIC through the raw system call: checks may put the libc clock under their control.
  unsafe {
    let mut ts: libc::timespec = std::mem::zeroed();
    libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts as *mut libc::timespec);
    (ts.tv_sec as u64) * 1000 + (ts.tv_nsec as u64) / 1_000_000
  }
}

impl Run {
  fn note_space(&self, space: &str, n: u64, what: &str) -> u64 {
    let mut s = self.spaces.lock().unwrap();
    s.push((space.to_string(), n, what.to_string()));
    (s.len() - 1) as u64
  }

  /// An assumption or trusted part, for the evidence file.
  pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.to_string()); }

  /// Runs `f` on every index of 0..n (every case of a finite space).
  pub fn explore<F>(&self, space: &str, what: &str, n: u64, f: F) where F: Fn(u64, &mut Rec) + Sync {
    let threads = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(4).clamp(1, 8);
    self.explore_on(threads, space, what, n, f)
  }

  pub fn explore_on<F>(&self, threads: usize, space: &str, what: &str, n: u64, f: F) where F: Fn(u64, &mut Rec) + Sync {
    let space_no = self.note_space(space, n, what);
    if let Some((s, _)) = &self.only { if s != space { return; } }
    let next = AtomicU64::new(0);
    let t0 = Instant::now();
    let chunk = (n / (threads as u64 * 16)).clamp(1, 512);
    std::thread::scope(|sc| {
      for t in 0..threads {
        let next = &next; let f = &f;
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
          let mut acc = Acc::default();
          let shared = unsafe { &*self.shared };
          let slot = &shared.slots[t % MAX_SLOTS];
          'outer: loop {
            let from = next.fetch_add(chunk, Ordering::Relaxed);
            if from >= n { break; }
            for i in from..(from + chunk).min(n) {
              if let Some((_, only)) = &self.only { if *only != i { continue; } }
              slot.space.store(space_no, Ordering::Relaxed);
              slot.len.store(0, Ordering::Relaxed);
              slot.started_ms.store(now_ms(), Ordering::Relaxed);
              slot.busy.store(i + 1, Ordering::Release);
              let sample = i == 0 || i == n / 3 || i == (2 * n) / 3 || i + 1 == n || self.only.is_some();
              let mut rec = Rec { acc: &mut acc, space, index: i, label: format!("{}:{}", space, i), slot: Some(slot), sample, outcome: String::new() };
              let r = quiet(|| f(i, &mut rec));
              if let Err(p) = r {
                // The oracles call the code under test through guard/no_panic or directly: both are panics of that code.
                let at = LAST_PANIC.with(|l| l.borrow().clone());
                rec.fail("panic", format!("panic: {} ({})", p, at));
              }
              if rec.sample {
                let line = format!("{}#{}: {} => {}", space, i, rec.label, rec.outcome);
                rec.acc.samples.push((i, line));
              }
              slot.busy.store(0, Ordering::Release);
              if n > 5_000_000 && acc.states.len() > 8_000_000 { // keep memory bounded: report a lower bound
                self.acc.lock().unwrap().merge(std::mem::take(&mut acc));
              }
              if self.only.is_some() { break 'outer; }
            }
            shared.transitions.fetch_add(acc.transitions, Ordering::Relaxed);
            let part = std::mem::take(&mut acc);
            if chunk > 64 || next.load(Ordering::Relaxed) >= n || part.transitions > 10_000 {
              self.acc.lock().unwrap().merge(part);
            } else { acc = part; }
          }
          self.acc.lock().unwrap().merge(acc);
        }).unwrap();
      }
    });
    if std::env::var("MC_VERBOSE").is_ok() {
      eprintln!("  {} {}: {} cases in {:.2}s", self.prop, space, n, t0.elapsed().as_secs_f64());
    }
  }

  /// Runs `f` on every item.
  pub fn each<T: Sync, F>(&self, space: &str, what: &str, items: &[T], f: F) where F: Fn(&T, &mut Rec) + Sync {
    self.explore(space, what, items.len() as u64, |i, rec| f(&items[i as usize], rec))
  }

  /// Runs `f` on every pair of items.
  pub fn pairs<T: Sync, U: Sync, F>(&self, space: &str, what: &str, a: &[T], b: &[U], f: F) where F: Fn(&T, &U, &mut Rec) + Sync {
    let m = b.len() as u64;
    self.explore(space, what, a.len() as u64 * m, |i, rec| f(&a[(i / m) as usize], &b[(i % m) as usize], rec))
  }
}

/// Splits an index into digits of the given bases (least significant first).
pub fn digits(mut i: u64, bases: &[usize]) -> Vec<usize> {
  bases.iter().map(|b| { let d = (i % (*b as u64)) as usize; i /= *b as u64; d }).collect()
}
pub fn space_size(bases: &[usize]) -> u64 { bases.iter().map(|b| *b as u64).product() }

/// Number of sequences over an alphabet of `k` symbols with length 0..=len.
pub fn seq_count(k: usize, len: usize) -> u64 { let mut t = 0u64; let mut p = 1u64; for _ in 0..=len { t += p; p *= k as u64; } t }
/// The i-th sequence (shortest first).
pub fn seq_at(mut i: u64, k: usize) -> Vec<usize> {
  let mut len = 0; let mut p = 1u64;
  while i >= p { i -= p; p *= k as u64; len += 1; }
  let mut v = vec![0; len];
  for d in v.iter_mut().rev() { *d = (i % k as u64) as usize; i /= k as u64; }
  v
}

fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()) }

/// Entry point of a check binary: `<bin> <property> [quick|thorough] [--only space:index]`.
pub fn main(checks: &[Check]) -> ! {
  let args: Vec<String> = std::env::args().collect();
  let id = args.get(1).cloned().unwrap_or_default();
  let Some(check) = checks.iter().find(|c| c.id == id) else {
    eprintln!("unknown property {:?}; known: {}", id, checks.iter().map(|c| c.id).collect::<Vec<_>>().join(" "));
    std::process::exit(2);
  };
  let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".to_string());
  let mut only = None;
  let mut i = 2;
  while i < args.len() {
    match args[i].as_str() {
      "quick" | "thorough" => tier = args[i].clone(),
      "--only" => { i += 1; only = args.get(i).and_then(|s| s.rsplit_once(':').and_then(|(a, b)| b.parse().ok().map(|b| (a.to_string(), b)))); }
      _ => {}
    }
    i += 1;
  }
  let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  if std::env::var("MC_CHILD").is_ok() { child(check, tier == "thorough", seed, only) } else { parent(check, &tier, seed, only.is_some()) }
}

fn map_shared(path: &str) -> *const Shared {
  use std::os::fd::AsRawFd;
  let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("shared file");
  f.set_len(std::mem::size_of::<Shared>() as u64).expect("shared size");
  let p = unsafe { libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
  assert!(p != libc::MAP_FAILED, "mmap");
  p as *const Shared
}

fn child(check: &Check, thorough: bool, seed: u64, only: Option<(String, u64)>) -> ! {
  install_hook();
  let base = std::env::var("MC_CHILD").unwrap();
  let shared = map_shared(&format!("{}.slots", base));
  let run = Run { prop: check.id, thorough, seed, only, acc: Mutex::new(Acc::default()), spaces: Mutex::new(vec![]),
    assumptions: Mutex::new(vec![]), shared };
  // Watchdog: a case that runs far too long is a hang.
  let done = std::sync::Arc::new(AtomicBool::new(false));
  let sh = shared as usize;
  let base2 = base.clone();
  std::thread::spawn(move || {
    let shared = unsafe { &*(sh as *const Shared) };
    loop {
      std::thread::park_timeout(Duration::from_millis(500));
      let now = now_ms();
      for (n, slot) in shared.slots.iter().enumerate() {
        let busy = slot.busy.load(Ordering::Acquire);
        let started = slot.started_ms.load(Ordering::Relaxed);
        if busy != 0 && started != 0 && now > started + CASE_LIMIT.as_millis() as u64 && slot.busy.load(Ordering::Acquire) == busy {
          let _ = std::fs::write(format!("{}.hang", base2), format!("{}", n));
          unsafe { libc::_exit(77) };
        }
      }
    }
  });
  let t0 = now_ms();
  (check.run)(&run);
  done.store(true, Ordering::SeqCst);
  let acc = run.acc.into_inner().unwrap();
  let mut samples = acc.samples.clone();
  samples.sort();
  let spaces = run.spaces.into_inner().unwrap();
  let fails: Vec<Value> = acc.failures.values().map(|(f, n)| json!({
    "space": f.space, "index": f.index, "label": f.label, "key": f.key, "message": f.message, "count": n })).collect();
  let doc = json!({
    "states": acc.states.len(), "transitions": acc.transitions, "traces": acc.traces, "outcomes": acc.outcomes.len(),
    "outcome_counts": acc.outcome_names,
    "cases": spaces.iter().map(|s| s.1).sum::<u64>(),
    "spaces": spaces.iter().map(|s| json!({"space": s.0, "cases": s.1, "what": s.2})).collect::<Vec<_>>(),
    "samples": samples.into_iter().map(|s| truncate(&s.1, 600)).take(40).collect::<Vec<_>>(),
    "assumptions": run.assumptions.into_inner().unwrap(),
    "failures": fails, "wall_s": (now_ms() - t0) as f64 / 1000.0,
  });
  let mut f = std::fs::File::create(format!("{}.json", base)).unwrap();
  f.write_all(serde_json::to_string(&doc).unwrap().as_bytes()).unwrap();
  drop(f);
  unsafe { libc::_exit(0) }
}

fn truncate(s: &str, n: usize) -> String {
  if s.len() <= n { return s.to_string(); }
  let mut e = n; while !s.is_char_boundary(e) { e -= 1; }
  format!("{}…", &s[..e])
}

fn parent(check: &Check, tier: &str, seed: u64, replaying: bool) -> ! {
  let t0 = Instant::now();
  let dir = verif_dir();
  let run_dir = format!("{}/run", dir);
  std::fs::create_dir_all(&run_dir).unwrap();
  let base = format!("{}/{}.{}", run_dir, check.id, std::process::id());
  let slots = format!("{}.slots", base);
  let shared = unsafe { &*map_shared(&slots) };
  let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
  cmd.args(std::env::args().skip(1)).env("MC_CHILD", &base).env("VERIF_TIER", tier).env("TZ", "UTC").env("RUST_BACKTRACE", "0");
  for v in ["RUST_LOG", "PACT_DO_NOT_TRACK", "pact_do_not_track", "MATCHING_ENGINE"] { cmd.env_remove(v); }
  unsafe {
    use std::os::unix::process::CommandExt;
    cmd.pre_exec(|| {
      let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
      libc::setrlimit(libc::RLIMIT_AS, &lim);
      let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
      libc::setrlimit(libc::RLIMIT_CORE, &core);
      Ok(())
    });
  }
  let status = cmd.status().expect("child");
  let mut failures: Vec<(Failure, u64)> = vec![];
  let mut doc = std::fs::read_to_string(format!("{}.json", base)).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()).unwrap_or(Value::Null);
  let mut error = None;
  if !status.success() || doc.is_null() {
    use std::os::unix::process::ExitStatusExt;
    let hang = std::fs::read_to_string(format!("{}.hang", base)).ok().and_then(|s| s.trim().parse::<usize>().ok());
    let sig = status.signal();
    let blame: Vec<usize> = match (hang, sig) {
      (Some(n), _) => vec![n],
      (None, Some(libc::SIGABRT)) | (None, Some(libc::SIGSEGV)) | (None, Some(libc::SIGBUS)) | (None, Some(libc::SIGILL)) | (None, Some(libc::SIGFPE)) =>
        (0..MAX_SLOTS).filter(|n| shared.slots[*n].busy.load(Ordering::Acquire) != 0).collect(),
      _ => vec![],
    };
    if blame.is_empty() {
      error = Some(format!("the exploring process ended with {:?} outside any case", status));
    }
    let what = if hang.is_some() { "the case does not terminate".to_string() } else { format!("the process died with signal {:?} (abort, stack overflow or memory exhaustion)", sig) };
    for n in blame {
      let s = &shared.slots[n];
      let len = (s.len.load(Ordering::Acquire) as usize).min(SLOT_LABEL);
      let label = String::from_utf8_lossy(&s.label[..len]).to_string();
      let index = s.busy.load(Ordering::Acquire) - 1;
      failures.push((Failure { space: format!("space-{}", s.space.load(Ordering::Relaxed)), index, key: known::norm(&format!("abort @ {}", label)), label, message: what.clone() }, 1));
    }
    doc = json!({"states": shared.states.load(Ordering::Relaxed), "transitions": shared.transitions.load(Ordering::Relaxed), "traces": shared.traces.load(Ordering::Relaxed), "samples": [], "cases": 0, "spaces": [], "assumptions": [], "outcomes": 0});
  } else {
    for f in doc["failures"].as_array().cloned().unwrap_or_default() {
      failures.push((Failure { space: f["space"].as_str().unwrap_or("").into(), index: f["index"].as_u64().unwrap_or(0), label: f["label"].as_str().unwrap_or("").into(),
        key: f["key"].as_str().unwrap_or("").into(), message: f["message"].as_str().unwrap_or("").into() }, f["count"].as_u64().unwrap_or(1)));
    }
  }
  for ext in ["slots", "json", "hang"] { let _ = std::fs::remove_file(format!("{}.{}", base, ext)); }
  if let Some(e) = error { eprintln!("ERROR {}: {}", check.id, e); std::process::exit(2); }

  let known = known::load(&format!("{}/known_findings.txt", dir), check.id);
  failures.sort_by(|a, b| (a.0.label.len(), &a.0.space, a.0.index).cmp(&(b.0.label.len(), &b.0.space, b.0.index)));
  let (known_f, new_f): (Vec<_>, Vec<_>) = failures.into_iter().partition(|(f, _)| known.contains_key(&f.key));
  // A listed finding is announced on every run, whether or not this tier reaches its input.
  let mut printed = HashSet::new();
  for (f, n) in &known_f {
    let text = &known[&f.key];
    if printed.insert(text.clone()) { println!("KNOWN-FINDING: property={} {}{}", check.id, text, if *n > 1 { format!(" ({} cases)", n) } else { String::new() }); }
  }
  if !replaying {
    for text in known.values() {
      if printed.insert(text.clone()) { println!("KNOWN-FINDING: property={} {} (listed; not reached by this run)", check.id, text); }
    }
  }
  let env = |n: &str, d: u32| std::env::var(n).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
  let (max_shown, max_class) = (env("MC_SHOW", 24) as usize, env("MC_SHOW_CLASS", 3));
  let mut shown = 0;
  let mut per_class: HashMap<String, u32> = HashMap::new();
  for (f, n) in &new_f {
    if shown >= max_shown { break; }
    let class = f.key.split(" @ ").next().unwrap_or("").to_string();
    let seen = per_class.entry(class).or_insert(0);
    *seen += 1;
    if *seen > max_class { continue; }
    let replay = format!("{}/{}-{}.replay.json", run_dir, check.id, shown);
    let body = json!({"property": check.id, "space": f.space, "index": f.index, "case": f.label, "key": f.key, "what": f.message, "cases_with_this_key": n,
      "replay": format!("bash {}/check.sh {} {} --only {}:{}", dir, check.id, tier, f.space, f.index)});
    std::fs::write(&replay, serde_json::to_string_pretty(&body).unwrap()).unwrap();
    println!("VIOLATION property={} replay={}", check.id, replay);
    println!("  key: {}", truncate(&f.key, 700));
    println!("  {}", truncate(&f.message, 1200));
    shown += 1;
  }
  if new_f.len() > shown { println!("  ... and {} more violations", new_f.len() - shown); }
  let wall = t0.elapsed().as_secs_f64();
  let ev = json!({
    "property": check.id, "tier": tier, "seed": seed, "level": "model_checking",
    "coverage": {
      "states": doc["states"], "transitions": doc["transitions"], "traces_validated_against_impl": doc["traces"],
      "samples": doc["samples"], "cases": doc["cases"], "spaces": doc["spaces"], "distinct_outcomes": doc["outcomes"],
      "outcomes": doc["outcome_counts"],
      "exhaustive": !replaying && doc["cases"].as_u64().unwrap_or(0) > 0,
      "known_findings_seen": known_f.len(),
    },
    "assumptions": doc["assumptions"], "wall_s": wall, "violations": new_f.len(),
  });
  let edir = format!("{}/evidence", dir);
  if !replaying {
    std::fs::create_dir_all(&edir).unwrap();
    std::fs::write(format!("{}/{}.json", edir, check.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
  }
  println!("{} {}: {} cases, {} states, {} transitions, {} traces, {} distinct outcomes, {} violations, {} known; {:.1}s", check.id, tier,
    doc["cases"], doc["states"], doc["transitions"], doc["traces"], doc["outcomes"], new_f.len(), known_f.len(), wall);
  std::process::exit(if new_f.is_empty() { 0 } else { 1 });
}

/// A small hand-rolled memo used by checks that need to compare against something computed once per key.
pub fn group_by<K: Eq + Hash, V>(items: impl IntoIterator<Item = (K, V)>) -> HashMap<K, Vec<V>> {
  let mut m: HashMap<K, Vec<V>> = HashMap::new();
  for (k, v) in items { m.entry(k).or_default().push(v); }
  m
}
