//! Counts what this thread has allocated and not released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
pub struct Counting;
thread_local! { static LIVE: Cell<(isize, isize)> = const { Cell::new((0, 0)) }; }
fn add(n: isize, bytes: isize) { let _ = LIVE.try_with(|c| { let (a, b) = c.get(); c.set((a + n, b + bytes)); }); }
unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(1, l.size() as isize); System.alloc(l) }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(1, l.size() as isize); System.alloc_zeroed(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-1, -(l.size() as isize)); System.dealloc(p, l) }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(0, n as isize - l.size() as isize); System.realloc(p, l, n) }
}
pub fn live() -> (isize, isize) { LIVE.with(|c| c.get()) }
/// What `f` leaves behind every time it is done (what is kept from the first time on is not counted).
pub fn kept(mut f: impl FnMut()) -> Option<(isize, isize)> {
  let mut last = None;
  for n in 0..4 {
    let a = live();
    f();
    let b = live();
    let d = (b.0 - a.0, b.1 - a.1);
    if n > 0 && d.0 <= 0 && d.1 <= 0 { return None; }
    last = Some(d);
  }
  last
}
