//! Global allocator that bounds the live bytes a single case may hold. The
//! bound is a deterministic function of the case, not of the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
  static LIVE: Cell<i64> = const { Cell::new(0) };
  static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}

/// Called (outside of any limit) when a case exceeds its allocation budget.
pub static mut ON_EXCEED: Option<fn() -> !> = None;

#[inline]
fn add(n: i64) {
  let _ = LIVE.try_with(|l| {
    let v = l.get() + n;
    l.set(v);
    if n > 0 {
      let _ = LIMIT.try_with(|lim| {
        if v > lim.get() {
          lim.set(i64::MAX);
          unsafe {
            if let Some(f) = ON_EXCEED {
              f()
            }
          }
        }
      });
    }
  });
}

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    add(l.size() as i64);
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    add(-(l.size() as i64));
    System.dealloc(p, l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    add(l.size() as i64);
    System.alloc_zeroed(l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    add(n as i64 - l.size() as i64);
    System.realloc(p, l, n)
  }
}

/// Start a budget of `bytes` live bytes above the current level on this thread.
pub fn arm(bytes: i64) {
  LIMIT.with(|l| l.set(LIVE.with(|v| v.get()) + bytes));
}
pub fn disarm() {
  LIMIT.with(|l| l.set(i64::MAX));
}
