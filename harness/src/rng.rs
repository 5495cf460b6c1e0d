//! Random sources handed to the code under test: a seeded stream with an optional
//! adversarial prefix, and a budget on the number of draws.
use crate::Src;
use rand::rngs::SmallRng;
use rand::{Error, RngCore, SeedableRng};

#[derive(Clone, Debug)]
pub struct Rg {
  prefix: Vec<u64>,
  pos: usize,
  inner: SmallRng,
  left: u64,
  pub draws: u64,
}

impl Rg {
  pub fn seeded(seed: u64) -> Rg {
    Rg { prefix: vec![], pos: 0, inner: SmallRng::seed_from_u64(seed), left: u64::MAX, draws: 0 }
  }
  /// Any stream: an adversarial prefix (extremes, repeats, choices) then a seeded stream.
  pub fn gen(s: &mut Src) -> Rg {
    let mut prefix = vec![];
    match s.below(4) {
      0 | 1 => {}
      2 => {
        let k = s.usize(0, 40);
        let x = s.pick(&[0u64, u64::MAX, 1 << 63, 0x8000_0000_8000_0000, 1, u64::MAX / 3]);
        prefix = vec![x; k];
      }
      _ => {
        for _ in 0..s.usize(0, 20) {
          let x = match s.below(4) {
            0 => 0,
            1 => u64::MAX,
            _ => s.raw64(),
          };
          prefix.push(x);
        }
      }
    }
    let seed = s.raw64();
    Rg { prefix, pos: 0, inner: SmallRng::seed_from_u64(seed), left: u64::MAX, draws: 0 }
  }
  pub fn limit(mut self, n: u64) -> Rg {
    self.left = n;
    self
  }
  fn draw(&mut self) -> u64 {
    if self.left == 0 {
      panic!("random draw budget exceeded (does not terminate within a generous bound)");
    }
    self.left -= 1;
    self.draws += 1;
    if self.pos < self.prefix.len() {
      self.pos += 1;
      self.prefix[self.pos - 1]
    } else {
      self.inner.next_u64()
    }
  }
}
impl RngCore for Rg {
  fn next_u32(&mut self) -> u32 {
    (self.draw() >> 32) as u32
  }
  fn next_u64(&mut self) -> u64 {
    self.draw()
  }
  fn fill_bytes(&mut self, d: &mut [u8]) {
    for c in d.chunks_mut(8) {
      let x = self.draw().to_le_bytes();
      c.copy_from_slice(&x[..c.len()]);
    }
  }
  fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
    self.fill_bytes(d);
    Ok(())
  }
}
