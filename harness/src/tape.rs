//! Choice tape: every random decision of a generated case is read from a byte string, so that a case is a pure
//! function of its tape and shrinking a case means shrinking the tape. An exhausted tape yields zeros, which every
//! generator maps to its simplest choice.

#[derive(Clone)]
pub struct Tape {
  d: Vec<u8>,
  p: usize,
  /// The last numbers and texts of the case, which later ones may repeat.
  ints: Vec<u64>,
  texts: Vec<String>,
}

impl Tape {
  pub fn new(d: Vec<u8>) -> Self {
    Self { d, p: 0, ints: vec![], texts: vec![] }
  }
  pub fn used(&self) -> usize {
    self.p.min(self.d.len())
  }
  pub fn exhausted(&self) -> bool {
    self.p >= self.d.len()
  }
  pub fn u8(&mut self) -> u8 {
    let v = self.d.get(self.p).copied().unwrap_or(0);
    self.p += 1;
    v
  }
  pub fn u16(&mut self) -> u16 {
    u16::from_be_bytes([self.u8(), self.u8()])
  }
  pub fn u32(&mut self) -> u32 {
    ((self.u16() as u32) << 16) | self.u16() as u32
  }
  pub fn u64(&mut self) -> u64 {
    ((self.u32() as u64) << 32) | self.u32() as u64
  }
  /// Uniform choice below `n`, monotone in the tape bytes.
  pub fn below(&mut self, n: usize) -> usize {
    if n <= 1 {
      0
    } else if n <= 64 {
      (self.u8() as usize * n) >> 8
    } else if n <= 16384 {
      (self.u16() as usize * n) >> 16
    } else {
      ((self.u32() as u64 * n as u64) >> 32) as usize
    }
  }
  /// True with probability `n`/256; false on an exhausted tape.
  pub fn chance(&mut self, n: u8) -> bool {
    if n == 0 {
      return false;
    }
    (self.u8() as u16) >= 256 - n as u16
  }
  pub fn note_int(&mut self, n: u64) {
    if self.ints.len() >= 24 {
      self.ints.remove(0);
    }
    self.ints.push(n);
  }
  /// One of the last numbers or next to it, now and then.
  pub fn echo_int(&mut self, chance: u8) -> Option<u64> {
    if self.ints.is_empty() || !self.chance(chance) {
      return None;
    }
    let i = self.below(self.ints.len());
    let n = self.ints[i];
    Some(match self.below(8) {
      0 => n.wrapping_add(1),
      1 => n.wrapping_sub(1),
      2 => n.wrapping_neg(),
      _ => n,
    })
  }
  pub fn note_text(&mut self, s: &str) {
    if s.len() > 200 {
      return;
    }
    if self.texts.len() >= 12 {
      self.texts.remove(0);
    }
    self.texts.push(s.into());
  }
  pub fn echo_text(&mut self, chance: u8) -> Option<String> {
    if self.texts.is_empty() || !self.chance(chance) {
      return None;
    }
    let i = self.below(self.texts.len());
    Some(self.texts[i].clone())
  }
  /// Index chosen by weight; the first index with a weight is the simplest one.
  pub fn pick(&mut self, w: &[u8]) -> usize {
    let total: usize = w.iter().map(|x| *x as usize).sum();
    if total == 0 {
      return 0;
    }
    let mut r = self.below(total.max(1));
    for (i, x) in w.iter().enumerate() {
      let x = *x as usize;
      if r < x {
        return i;
      }
      r -= x;
    }
    unreachable!()
  }
  pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }
}

/// SplitMix64, only used to fill tapes.
pub struct Rng(pub u64);
impl Rng {
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    ((self.next() >> 32) * n as u64 >> 32) as usize
  }
  pub fn fill(&mut self, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
      v.extend_from_slice(&self.next().to_le_bytes());
    }
    v.truncate(n);
    v
  }
}

pub use nrbfsd::model::fnv;
