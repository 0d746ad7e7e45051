//! Control over what the operating system feeds the code under test: hash seeds and UUIDs (getrandom) and the
//! wall clock (clock_gettime). The symbols below replace libc's in this binary; they are per thread, so each
//! case decides them for itself.
use std::cell::Cell;

thread_local! {
  static SEED: Cell<u64> = const { Cell::new(0) };
  static WORD: Cell<Option<u64>> = const { Cell::new(None) };
  static CLOCK: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}

pub fn mix(mut z: u64) -> u64 {
  z = z.wrapping_add(0x9E3779B97F4A7C15);
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
  let p = buf as *mut u8;
  let _ = SEED.try_with(|s| {
    let mut i = 0;
    while i < len {
      let v = WORD.with(|w| w.get()).unwrap_or_else(|| mix(s.get())); s.set(s.get().wrapping_add(1));
      for b in v.to_le_bytes() { if i < len { *p.add(i) = b; i += 1; } }
    }
  });
  len as libc::ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
  if clk == libc::CLOCK_REALTIME {
    if let Ok(Some((s, n))) = CLOCK.try_with(|c| c.get()) { (*ts).tv_sec = s; (*ts).tv_nsec = n; return 0; }
  }
  libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// Everything this thread reads from the wall clock until the guard is dropped.
pub struct At;
impl At { pub fn unix(secs: i64, nanos: i64) -> At { CLOCK.with(|c| c.set(Some((secs, nanos)))); At } }
impl Drop for At { fn drop(&mut self) { CLOCK.with(|c| c.set(None)); } }

/// Runs `f` on a fresh thread whose hash maps (and UUIDs) are seeded with `seed`: a different seed gives the
/// maps created in `f` different iteration orders, the same seed always the same ones.
pub fn with_hash_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
  std::thread::scope(|sc| {
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
      SEED.with(|s| s.set(mix(seed ^ 0x5eed)));
      mccore::quiet(f)
    }).expect("thread");
    match h.join() { Ok(Ok(v)) => v, Ok(Err(p)) => std::panic::panic_any(p), Err(e) => std::panic::resume_unwind(e) }
  })
}
pub fn set_seed(seed: u64) { SEED.with(|s| s.set(mix(seed))); }

/// Runs `f` with every random byte this thread reads from the system taken from one repeated word.
pub fn with_word<T>(w: u64, f: impl FnOnce() -> T) -> T { WORD.with(|c| c.set(Some(w))); let r = f(); WORD.with(|c| c.set(None)); r }
/// Runs `f` with the random generator yielding `words`, and after them a fixed sequence in which every value comes up.
pub fn with_tape<T>(words: &[u64], f: impl FnOnce() -> T) -> T {
  let (words, mut n) = (words.to_vec(), 0usize);
  let seed = words.iter().fold(0, |a, w| mix(a ^ w));
  rand::rngs::tape::set(Some(Box::new(move || { n += 1; if n <= words.len() { words[n - 1] } else { mix(seed ^ n as u64) } })));
  let r = f();
  rand::rngs::tape::set(None);
  r
}
