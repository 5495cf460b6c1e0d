//! Decoding a sequence of 32-bit choices into structured data. An exhausted
//! sequence yields zeros, and zero always decodes to the simplest option.

use crate::util::splitmix;

pub struct Src<'a> {
  v: &'a [u32],
  i: usize,
  /// Past the end: an expansion of this state instead of zeros.
  tail: Option<u64>,
}

impl<'a> Src<'a> {
  pub fn new(v: &'a [u32]) -> Self {
    Src { v, i: 0, tail: None }
  }
  /// An endless source expanded from one 64-bit choice, for inputs too large to be spelled
  /// out choice by choice.
  pub fn expand(&mut self) -> Src<'static> {
    Src { v: &[], i: 0, tail: Some(self.raw64()) }
  }
  pub fn used(&self) -> usize {
    self.i.min(self.v.len())
  }
  pub fn exhausted(&self) -> bool {
    self.i >= self.v.len() && self.tail.is_none()
  }
  pub fn raw(&mut self) -> u32 {
    let x = match (self.v.get(self.i), &mut self.tail) {
      (Some(x), _) => *x,
      (None, Some(st)) => splitmix(st) as u32,
      (None, None) => 0,
    };
    self.i += 1;
    x
  }
  pub fn raw64(&mut self) -> u64 {
    ((self.raw() as u64) << 32) | self.raw() as u64
  }
  /// Uniform in 0..n; monotone in the raw choice, so shrinking a choice shrinks the value.
  pub fn below(&mut self, n: usize) -> usize {
    assert!(n > 0);
    if n == 1 {
      return 0;
    }
    ((self.raw() as u64 * n as u64) >> 32) as usize
  }
  /// Uniform in lo..=hi, simplest value lo.
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
    assert!(lo <= hi);
    let span = (hi as i128 - lo as i128 + 1) as u128;
    if span == 1 {
      return lo;
    }
    if span <= 1 << 32 {
      lo + ((self.raw() as u128 * span) >> 32) as i64
    } else {
      let r = self.raw64() as u128;
      (lo as i128 + ((r * span) >> 64) as i128) as i64
    }
  }
  pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
    self.range(lo as i64, hi as i64) as usize
  }
  /// Uniform in -m..=m, simplest value 0 (0, 1, -1, 2, -2, ...).
  pub fn sym(&mut self, m: i64) -> i64 {
    let k = self.range(0, 2 * m);
    if k % 2 == 0 {
      -(k / 2)
    } else {
      (k + 1) / 2
    }
  }
  /// True with probability num/den; simplest false.
  pub fn chance(&mut self, num: u32, den: u32) -> bool {
    self.below(den as usize) >= (den - num) as usize
  }
  pub fn flip(&mut self) -> bool {
    self.chance(1, 2)
  }
  pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
    let i = self.below(xs.len());
    xs[i].clone()
  }
  pub fn weighted(&mut self, ws: &[u32]) -> usize {
    let total: u32 = ws.iter().sum();
    let mut r = self.below(total as usize) as u32;
    for (i, w) in ws.iter().enumerate() {
      if r < *w {
        return i;
      }
      r -= w;
    }
    unreachable!()
  }
  pub fn shuffle<T>(&mut self, xs: &mut [T]) {
    // Identity when all choices are zero.
    let n = xs.len();
    for i in 0..n.saturating_sub(1) {
      let j = i + self.below(n - i);
      xs.swap(i, j);
    }
  }
}
