//! Counting allocator: bytes and calls per thread.

use std::{
  alloc::{GlobalAlloc, Layout, System},
  cell::Cell,
};

pub struct Counting;

thread_local! {
  static CUR: Cell<isize> = const { Cell::new(0) };
  static PEAK: Cell<isize> = const { Cell::new(0) };
  static TOTAL: Cell<u64> = const { Cell::new(0) };
  static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn add(n: isize) {
  let _ = CUR.try_with(|c| {
    let v = c.get() + n;
    c.set(v);
    let _ = PEAK.try_with(|p| {
      if v > p.get() {
        p.set(v)
      }
    });
  });
  if n > 0 {
    let _ = TOTAL.try_with(|c| c.set(c.get() + n as u64));
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
  }
}

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let p = unsafe { System.alloc(l) };
    if !p.is_null() {
      add(l.size() as isize);
    }
    p
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    unsafe { System.dealloc(p, l) };
    add(-(l.size() as isize));
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    let q = unsafe { System.realloc(p, l, n) };
    if !q.is_null() {
      // old and new block may exist at the same time
      add(n as isize);
      add(-(l.size() as isize));
    }
    q
  }
}

pub struct Usage {
  /// Highest number of bytes in use at once.
  pub peak: u64,
  /// Sum of all requested bytes.
  pub total: u64,
  pub calls: u64,
  /// Bytes which are in use afterwards and were not before.
  pub kept: i64,
}

/// Measures the allocations of this thread while `f` runs.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
  let (c0, t0, n0) = (CUR.get(), TOTAL.get(), CALLS.get());
  PEAK.set(c0);
  let r = f();
  (r, Usage { peak: (PEAK.get() - c0).max(0) as u64, total: TOTAL.get() - t0, calls: CALLS.get() - n0, kept: (CUR.get() - c0) as i64 })
}
