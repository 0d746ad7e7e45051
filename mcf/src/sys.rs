//! The operating system as the code under test sees it: every call on files, locks and time made by a controlled
//! process or thread stops before it takes effect, until the controller lets it happen (or lets the process die).
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use libc::{c_char, c_int, c_long, c_void};

pub const RUNNING: u32 = 0; pub const WAITING: u32 = 1; pub const DONE: u32 = 2;
pub const STEP: u32 = 1; pub const DIE: u32 = 2; pub const TORN: u32 = 3; pub const SHORT: u32 = 4;
pub const SLOTS: usize = 4;
pub const RESULT: usize = 1 << 16;

#[repr(C)]
pub struct Slot { pub state: AtomicU32, pub go: AtomicU32, pub arg: AtomicU64, pub size: AtomicU64, pub hist: AtomicU64, pub ops: AtomicU32, pub op_len: AtomicU32, pub op: [u8; 120], pub out_len: AtomicU64, pub out: [u8; RESULT] }
#[repr(C)]
pub struct Shared { pub epoch: AtomicU32, pub slots: [Slot; SLOTS] }

thread_local! { static SINGLE: Cell<u64> = const { Cell::new(0) }; static SLOT: Cell<i32> = const { Cell::new(-1) }; }
static mut SHARED: *mut Shared = std::ptr::null_mut();

pub fn shared() -> &'static Shared {
  unsafe {
    if SHARED.is_null() {
      let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
      assert!(p != libc::MAP_FAILED);
      SHARED = p as *mut Shared;
    }
    &*SHARED
  }
}
pub fn control(slot: i32) { SLOT.with(|s| s.set(slot)); }

unsafe fn raw(n: c_long, a: [c_long; 6]) -> c_long {
  let r: c_long;
  std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
  r
}
unsafe fn ret(r: c_long) -> c_long { if r < 0 && r > -4096 { *libc::__errno_location() = -r as c_int; -1 } else { r } }
pub fn futex_wait(a: &AtomicU32, v: u32, ms: i64) { let ts = libc::timespec { tv_sec: ms / 1000, tv_nsec: (ms % 1000) * 1_000_000 }; unsafe { raw(libc::SYS_futex, [a as *const _ as c_long, libc::FUTEX_WAIT as c_long, v as c_long, &ts as *const _ as c_long, 0, 0]); } }
pub fn futex_wake(a: &AtomicU32) { unsafe { raw(libc::SYS_futex, [a as *const _ as c_long, libc::FUTEX_WAKE as c_long, 100, 0, 0, 0]); } }
pub fn exit_now(code: i32) -> ! { unsafe { raw(libc::SYS_exit_group, [code as c_long, 0, 0, 0, 0, 0]); } loop {} }

fn slot() -> Option<&'static Slot> { let i = SLOT.try_with(|s| s.get()).unwrap_or(-1); if i < 0 { None } else { Some(&shared().slots[i as usize]) } }
fn tell() { shared().epoch.fetch_add(1, SeqCst); futex_wake(&shared().epoch); }

struct Text<'a> { s: &'a Slot, n: usize }
impl std::fmt::Write for Text<'_> { fn write_str(&mut self, t: &str) -> std::fmt::Result { for b in t.bytes() { if self.n < 120 { unsafe { (self.s.op.as_ptr() as *mut u8).add(self.n).write(b); } self.n += 1; } } Ok(()) } }
fn fnv(h: u64, b: &[u8]) -> u64 { b.iter().fold(h, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3)) }
fn note(s: &Slot, b: &[u8]) { let h = s.hist.load(SeqCst); s.hist.store(fnv(fnv(h ^ 0xcbf29ce484222325, b), &[0xff]), SeqCst); }

/// Waits for the controller; says what it decided. `size` is the number of bytes about to be written.
fn stop(s: &Slot, what: std::fmt::Arguments, size: u64) -> (u32, u64) {
  let mut t = Text { s, n: 0 };
  let _ = std::fmt::Write::write_fmt(&mut t, what);
  s.op_len.store(t.n as u32, SeqCst); s.size.store(size, SeqCst);
  s.go.store(0, SeqCst); s.state.store(WAITING, SeqCst);
  tell();
  while s.go.load(SeqCst) == 0 { futex_wait(&s.go, 0, 1000); if unsafe { libc::getppid() } == 1 { exit_now(3) } }
  let (go, arg) = (s.go.load(SeqCst), s.arg.load(SeqCst));
  s.state.store(RUNNING, SeqCst);
  s.ops.fetch_add(1, SeqCst);
  if go == DIE { exit_now(9) }
  (go, arg)
}
pub fn done(result: &[u8]) {
  let Some(s) = slot() else { return };
  control(-1);
  assert!(result.len() <= RESULT);
  unsafe { std::ptr::copy_nonoverlapping(result.as_ptr(), s.out.as_ptr() as *mut u8, result.len()); }
  s.out_len.store(result.len() as u64, SeqCst);
  s.state.store(DONE, SeqCst);
  tell();
}

/// The call, with the controller asked first when the thread is controlled.
unsafe fn call(n: c_long, a: [c_long; 6], what: std::fmt::Arguments) -> c_long {
  let Some(s) = slot() else { return ret(raw(n, a)) };
  let i = SLOT.with(|c| c.replace(-1));
  stop(s, what, 0);
  let r = raw(n, a);
  note(s, &s.op[..s.op_len.load(SeqCst) as usize]); note(s, &r.to_le_bytes());
  if n == libc::SYS_read && r > 0 { note(s, std::slice::from_raw_parts(a[1] as *const u8, r as usize)); }
  SLOT.with(|c| c.set(i));
  ret(r)
}
unsafe fn name<'a>(p: *const c_char) -> &'a str { let b = std::ffi::CStr::from_ptr(p).to_bytes(); let at = b.iter().rposition(|b| *b == b'/').map(|i| i + 1).unwrap_or(0); std::str::from_utf8(&b[at..]).unwrap_or("?") }
struct Flags(c_int);
impl std::fmt::Display for Flags {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.write_str(match self.0 & 3 { 0 => "read", 1 => "write", _ => "read-write" })?;
    for (b, n) in [(libc::O_CREAT, "create"), (libc::O_EXCL, "new"), (libc::O_TRUNC, "truncate"), (libc::O_APPEND, "append")] { if self.0 & b != 0 { write!(f, ",{}", n)?; } }
    Ok(())
  }
}
unsafe fn do_open(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int { call(libc::SYS_openat, [libc::AT_FDCWD as c_long, p as c_long, flags as c_long, mode as c_long, 0, 0], format_args!("open({}, {})", name(p), Flags(flags))) as c_int }
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int { do_open(p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int { call(libc::SYS_openat, [d as c_long, p as c_long, flags as c_long, mode as c_long, 0, 0], format_args!("open({}, {})", name(p), Flags(flags))) as c_int }
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int { call(libc::SYS_close, [fd as c_long, 0, 0, 0, 0, 0], format_args!("close")) as c_int }
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
  // a reader that takes single bytes is not stopped before every one of them
  if n == 1 { if let Some(s) = slot() {
    let k = SINGLE.with(|c| { c.set(c.get() + 1); c.get() });
    if k % 200 != 1 {
      let r = raw(libc::SYS_read, [fd as c_long, b as c_long, 1, 0, 0, 0]);
      note(s, &r.to_le_bytes()); if r > 0 { note(s, std::slice::from_raw_parts(b as *const u8, 1)); }
      return ret(r) as isize;
    }
  } }
  call(libc::SYS_read, [fd as c_long, b as c_long, n as c_long, 0, 0, 0], format_args!("read")) as isize
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
  let Some(s) = slot() else { return ret(raw(libc::SYS_write, [fd as c_long, b as c_long, n as c_long, 0, 0, 0])) as isize };
  let i = SLOT.with(|c| c.replace(-1));
  let (go, arg) = stop(s, format_args!("write"), n as u64);
  let m = if go == TORN || go == SHORT { arg as usize } else { n };
  let r = raw(libc::SYS_write, [fd as c_long, b as c_long, m as c_long, 0, 0, 0]);
  if go == TORN { exit_now(9) }
  note(s, b"write"); note(s, std::slice::from_raw_parts(b as *const u8, n)); note(s, &r.to_le_bytes());
  SLOT.with(|c| c.set(i));
  ret(r) as isize
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, w: c_int) -> i64 { call(libc::SYS_lseek, [fd as c_long, o as c_long, w as c_long, 0, 0, 0], format_args!("lseek({}, {})", o, w)) as i64 }
#[no_mangle] pub unsafe extern "C" fn lseek(fd: c_int, o: i64, w: c_int) -> i64 { lseek64(fd, o, w) }
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, o: i64) -> c_int { call(libc::SYS_ftruncate, [fd as c_long, o as c_long, 0, 0, 0, 0], format_args!("truncate({})", o)) as c_int }
#[no_mangle] pub unsafe extern "C" fn ftruncate(fd: c_int, o: i64) -> c_int { ftruncate64(fd, o) }
#[no_mangle] pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int { call(libc::SYS_flock, [fd as c_long, op as c_long, 0, 0, 0, 0], format_args!("{}", match op & !libc::LOCK_NB { libc::LOCK_SH => "lock shared", libc::LOCK_EX => "lock exclusive", _ => "unlock" })) as c_int }
#[no_mangle] pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, m: libc::c_uint, b: *mut libc::statx) -> c_int {
  let a = [d as c_long, p as c_long, f as c_long, m as c_long, b as c_long, 0];
  let Some(s) = slot() else { return ret(raw(libc::SYS_statx, a)) as c_int };
  let i = SLOT.with(|c| c.replace(-1));
  stop(s, format_args!("stat({})", name(p)), 0);
  let r = raw(libc::SYS_statx, a);
  note(s, b"stat"); note(s, name(p).as_bytes()); note(s, &r.to_le_bytes());
  if r == 0 { note(s, &(*b).stx_size.to_le_bytes()); }
  SLOT.with(|c| c.set(i));
  ret(r) as c_int
}
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, m: libc::mode_t) -> c_int { call(libc::SYS_mkdir, [p as c_long, m as c_long, 0, 0, 0, 0], format_args!("mkdir({})", name(p))) as c_int }
#[no_mangle] pub unsafe extern "C" fn rename(p: *const c_char, q: *const c_char) -> c_int { call(libc::SYS_rename, [p as c_long, q as c_long, 0, 0, 0, 0], format_args!("rename({}, {})", name(p), name(q))) as c_int }
#[no_mangle] pub unsafe extern "C" fn link(p: *const c_char, q: *const c_char) -> c_int { call(libc::SYS_link, [p as c_long, q as c_long, 0, 0, 0, 0], format_args!("link({}, {})", name(p), name(q))) as c_int }
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int { call(libc::SYS_unlink, [p as c_long, 0, 0, 0, 0, 0], format_args!("unlink({})", name(p))) as c_int }
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { call(libc::SYS_fsync, [fd as c_long, 0, 0, 0, 0, 0], format_args!("fsync")) as c_int }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { call(libc::SYS_fdatasync, [fd as c_long, 0, 0, 0, 0, 0], format_args!("fdatasync")) as c_int }
/// Time passes only when the controller says so.
unsafe fn pause(rem: *mut libc::timespec) -> bool {
  let Some(s) = slot() else { return false };
  let i = SLOT.with(|c| c.replace(-1));
  stop(s, format_args!("sleep"), 0);
  note(s, b"sleep");
  if !rem.is_null() { (*rem).tv_sec = 0; (*rem).tv_nsec = 0; }
  SLOT.with(|c| c.set(i));
  true
}
#[no_mangle] pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int { if pause(b) { 0 } else { ret(raw(libc::SYS_nanosleep, [a as c_long, b as c_long, 0, 0, 0, 0])) as c_int } }
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int { if pause(b) { 0 } else { -raw(libc::SYS_clock_nanosleep, [c as c_long, f as c_long, a as c_long, b as c_long, 0, 0]) as c_int } }
/// The system calls the standard library makes without a wrapper: waiting for a lock held by another thread.
#[no_mangle] pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
  if n == libc::SYS_futex && (b as c_int & 0x7f == libc::FUTEX_WAIT || b as c_int & 0x7f == libc::FUTEX_WAIT_BITSET) {
    if let Some(s) = slot() {
      let i = SLOT.with(|c| c.replace(-1));
      // wakes up without reason: the caller looks at the lock again. Not part of what the thread has seen.
      stop(s, format_args!("wait for a lock"), 0);
      SLOT.with(|c| c.set(i));
      return 0;
    }
  }
  ret(raw(n, [a, b, c, d, e, f]))
}
#[no_mangle] pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: libc::c_uint) -> isize { std::ptr::write_bytes(buf as *mut u8, 0x5a, len); len as isize }
