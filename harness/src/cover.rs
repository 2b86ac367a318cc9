//! Coverage of the crate under test, which `cover-rustc.sh` compiles with calls of these functions: which edges a case
//! runs through and how often, and how nearly the operands of its comparisons agree. Each thread counts for itself.
//! Coverage only decides which tapes are worth changing further; the oracles alone decide what a case has to give.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

/// Edges, counted by number, and after them comparisons, by hash.
const EDGES: usize = 1 << 16;
const VALUES: usize = 1 << 18;
const PAIRS: usize = 1 << 14;
const TRIES: u8 = 120;

pub struct Map {
  edges: Vec<u8>,
  touched: Vec<u32>,
  values: Vec<u8>,
  values_touched: Vec<u32>,
  /// One bit for each class of counts.
  seen: Vec<u8>,
  seen_values: Vec<u8>,
  /// Operands which differ, of the comparisons of the last case, and where they are.
  pairs: Vec<(u64, u64, u32)>,
  pairs_touched: Vec<u32>,
  /// Comparisons whose operands were equal once, and how often it was tried to get there.
  solved: Vec<bool>,
  tries: Vec<u8>,
}

thread_local! {
  static MAP: Cell<*mut Map> = const { Cell::new(std::ptr::null_mut()) };
}

static NEXT: AtomicU32 = AtomicU32::new(1);

/// The number of edges in the crate under test; zero if it is compiled without coverage.
pub fn edges() -> usize {
  NEXT.load(Ordering::Relaxed) as usize - 1
}

impl Map {
  pub fn new() -> Box<Self> {
    Box::new(Self {
      edges: vec![0; EDGES],
      touched: Vec::with_capacity(EDGES),
      values: vec![0; VALUES],
      values_touched: Vec::with_capacity(VALUES),
      seen: vec![0; EDGES],
      seen_values: vec![0; VALUES],
      pairs: vec![(0, 0, 0); PAIRS],
      pairs_touched: Vec::with_capacity(PAIRS),
      solved: vec![false; PAIRS],
      tries: vec![0; PAIRS],
    })
  }
  /// Runs `f` and counts what this thread executes.
  pub fn count<R>(&mut self, f: impl FnOnce() -> R) -> R {
    for e in self.touched.drain(..) {
      self.edges[e as usize] = 0;
    }
    for e in self.values_touched.drain(..) {
      self.values[e as usize] = 0;
    }
    for p in self.pairs_touched.drain(..) {
      self.pairs[p as usize] = (0, 0, 0);
    }
    struct Off;
    impl Drop for Off {
      fn drop(&mut self) {
        MAP.with(|m| m.set(std::ptr::null_mut()));
      }
    }
    let _off = Off;
    MAP.with(|m| m.set(self));
    f()
  }
  /// How much of what was counted last is new, in edges and in comparisons.
  pub fn news(&mut self) -> (usize, usize) {
    let (mut a, mut b) = (0, 0);
    for e in &self.touched {
      let n = self.edges[*e as usize];
      let class = match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..8 => 8,
        8..16 => 16,
        16..32 => 32,
        32..128 => 64,
        _ => 128u8,
      };
      if self.seen[*e as usize] & class == 0 {
        self.seen[*e as usize] |= class;
        a += 1;
      }
    }
    for e in &self.values_touched {
      if self.seen_values[*e as usize] == 0 {
        self.seen_values[*e as usize] = 1;
        b += 1;
      }
    }
    (a, b)
  }
  /// What to write where on the tape, so that a comparison which never succeeded may do so: an operand which is a
  /// number on the tape is replaced by the other one.
  pub fn wishes(&mut self, tape: &[u8]) -> Vec<(usize, Vec<u8>)> {
    let mut o = vec![];
    for k in &self.pairs_touched {
      let (a, b, site) = self.pairs[*k as usize];
      let site = site as usize;
      if self.solved[site] || self.tries[site] >= TRIES {
        continue;
      }
      for (a, b) in [(a, b), (b, a)] {
        // as wide as a choice of that size is on the tape
        let n = match a {
          ..0x100 => continue,
          0x100..0x1_0000 => 2,
          0x1_0000..0x1_0000_0000 => 4,
          _ if (a as i64) < 0 && (a as i64) >= i32::MIN as i64 => 4,
          _ => 8,
        };
        let f = &a.to_be_bytes()[8 - n..];
        if let Some(i) = tape.windows(n).position(|x| x == f) {
          // an order is decided next to equality
          self.tries[site] += 1;
          let b = match self.tries[site] % 4 {
            0 => b.wrapping_add(1),
            1 => b.wrapping_sub(1),
            _ => b,
          };
          o.push((i, b.to_be_bytes()[8 - n..].to_vec()));
          break;
        }
      }
      if o.len() >= 8 {
        break;
      }
    }
    o
  }
  fn pair(&mut self, a: u64, b: u64, pc: u64) {
    let site = (pc.wrapping_mul(0x9E3779B97F4A7C15) >> (64 - 14)) as usize;
    if a == b {
      self.solved[site] = true;
    } else if !self.solved[site] && a.max(b) > 255 {
      // a few of each comparison
      let k = site ^ (a & 3) as usize;
      let p = &mut self.pairs[k];
      if *p == (0, 0, 0) {
        *p = (a, b, site as u32);
        self.pairs_touched.push(k as u32);
      }
    }
  }
  pub fn covered(&self) -> (usize, usize) {
    (self.seen.iter().filter(|x| **x != 0).count(), self.seen_values.iter().filter(|x| **x != 0).count())
  }
}

#[unsafe(no_mangle)]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
  unsafe {
    let mut p = start;
    while p < stop {
      if *p == 0 {
        *p = NEXT.fetch_add(1, Ordering::Relaxed) % EDGES as u32;
      }
      p = p.add(1);
    }
  }
}

#[unsafe(no_mangle)]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *const u32) {
  let m = MAP.with(|m| m.get());
  if m.is_null() {
    return;
  }
  unsafe {
    let m = &mut *m;
    let g = *guard;
    let e = &mut m.edges[g as usize];
    if *e == 0 {
      m.touched.push(g);
    }
    *e = e.saturating_add(1);
  }
}

/// The operands of a comparison at `pc`: how many bits differ, and how far they are apart.
unsafe extern "C" fn compared(a: u64, b: u64, pc: u64) {
  let m = MAP.with(|m| m.get());
  if m.is_null() {
    return;
  }
  let m = unsafe { &mut *m };
  // independent of where the process was loaded
  let pc = pc.wrapping_sub(compared as *const () as u64);
  m.pair(a, b, pc);
  let bits = (a ^ b).count_ones() as u64;
  let far = 64 - a.wrapping_sub(b).min(b.wrapping_sub(a)).leading_zeros() as u64;
  for h in [bits, 128 + far] {
    let h = (pc ^ h << 40 ^ h << 13).wrapping_mul(0x9E3779B97F4A7C15) >> (64 - 18);
    let e = &mut m.values[h as usize];
    if *e == 0 {
      *e = 1;
      m.values_touched.push(h as u32);
    }
  }
}

unsafe extern "C" fn switched(v: u64, cases: *const u64, pc: u64) {
  if MAP.with(|m| m.get()).is_null() {
    return;
  }
  unsafe {
    let n = *cases;
    if *cases.add(1) > 32 {
      return;
    }
    for i in 0..n.min(40) {
      compared(v, *cases.add(2 + i as usize), pc + i);
    }
  }
}

/// The comparisons are told apart by where they are called from.
macro_rules! compares {
  ($($name:ident $to:ident $zero:literal),*) => {
    $(
      #[unsafe(no_mangle)]
      #[unsafe(naked)]
      unsafe extern "C" fn $name(a: u64, b: u64) {
        std::arch::naked_asm!($zero, "mov rdx, [rsp]", "jmp {f}", f = sym $to)
      }
    )*
  };
}
compares!(
  __sanitizer_cov_trace_cmp1 compared "movzx edi, dil\nmovzx esi, sil",
  __sanitizer_cov_trace_cmp2 compared "movzx edi, di\nmovzx esi, si",
  __sanitizer_cov_trace_cmp4 compared "mov edi, edi\nmov esi, esi",
  __sanitizer_cov_trace_const_cmp1 compared "movzx edi, dil\nmovzx esi, sil",
  __sanitizer_cov_trace_const_cmp2 compared "movzx edi, di\nmovzx esi, si",
  __sanitizer_cov_trace_const_cmp4 compared "mov edi, edi\nmov esi, esi",
  __sanitizer_cov_trace_cmp8 compared_far "",
  __sanitizer_cov_trace_const_cmp8 compared_far ""
);

/// Comparisons of 64 bits are mostly of addresses and distances between them, which are different in every run. Only
/// those of larger numbers count.
unsafe extern "C" fn compared_far(a: u64, b: u64, pc: u64) {
  let m = MAP.with(|m| m.get());
  let far = |n: u64| (n as i64).unsigned_abs() >> 48 != 0;
  if !m.is_null() && (far(a) || far(b)) {
    unsafe { (*m).pair(a, b, pc.wrapping_sub(compared as *const () as u64)) };
  }
}

#[unsafe(no_mangle)]
#[unsafe(naked)]
unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
  std::arch::naked_asm!("mov rdx, [rsp]", "jmp {f}", f = sym switched)
}

/// The hash maps of the standard library take their keys from here, so that a thread does the same in every run. Each
/// map of a thread still has other keys.
#[unsafe(no_mangle)]
unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
  let mut r = crate::tape::Rng(n as u64);
  for (i, b) in r.fill(n).into_iter().enumerate() {
    unsafe { p.add(i).write(b) };
  }
  n as isize
}
