use std::fmt::Write;

pub fn jstr(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 2);
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => {
        let _ = write!(o, "\\u{:04x}", c as u32);
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

/// FNV-1a based 64-bit hasher: stable across runs and platforms.
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Default for Fnv {
  fn default() -> Self {
    Fnv(0xcbf29ce484222325)
  }
}
impl std::hash::Hasher for Fnv {
  fn finish(&self) -> u64 {
    // final avalanche
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
  }
  fn write(&mut self, b: &[u8]) {
    for x in b {
      self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
    }
  }
  fn write_u64(&mut self, x: u64) {
    self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x9E3779B97F4A7C15);
  }
  fn write_i64(&mut self, x: i64) {
    self.write_u64(x as u64)
  }
  fn write_usize(&mut self, x: usize) {
    self.write_u64(x as u64)
  }
  fn write_u32(&mut self, x: u32) {
    self.write_u64(x as u64)
  }
}

pub fn splitmix(x: &mut u64) -> u64 {
  *x = x.wrapping_add(0x9E3779B97F4A7C15);
  let mut z = *x;
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
  z ^ (z >> 31)
}
