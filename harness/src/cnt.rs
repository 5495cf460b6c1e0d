//! An i64 scalar that counts every operation on it, so that non-termination
//! shows up as a deterministic budget violation instead of a hang.
use rgeometry::algorithms::zhash::{ZHashBox, ZHashable};
use rgeometry::data::Point;
use rgeometry::{PolygonScalar, TotalOrd};
use std::cell::Cell;
use std::cmp::Ordering;
use std::iter::Sum;
use std::ops::*;

thread_local! {
  static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
}

#[inline]
fn tick() {
  LEFT.with(|l| {
    let v = l.get();
    if v == 0 {
      l.set(u64::MAX);
      panic!("operation budget exceeded (does not terminate within a generous bound)");
    }
    l.set(v - 1);
  })
}

/// Run `f` with a budget of `n` scalar operations; returns the result and how many were used.
pub fn budget<R>(n: u64, f: impl FnOnce() -> R) -> (R, u64) {
  LEFT.with(|l| l.set(n));
  let r = f();
  let used = n - LEFT.with(|l| l.get()).min(n);
  LEFT.with(|l| l.set(u64::MAX));
  (r, used)
}

#[derive(Debug)]
pub struct Cnt(pub i64);

impl Clone for Cnt {
  fn clone(&self) -> Self {
    tick();
    Cnt(self.0)
  }
}
impl PartialEq for Cnt {
  fn eq(&self, o: &Cnt) -> bool {
    tick();
    self.0 == o.0
  }
}
impl Eq for Cnt {}
impl PartialOrd for Cnt {
  fn partial_cmp(&self, o: &Cnt) -> Option<Ordering> {
    tick();
    self.0.partial_cmp(&o.0)
  }
}
impl Ord for Cnt {
  fn cmp(&self, o: &Cnt) -> Ordering {
    tick();
    self.0.cmp(&o.0)
  }
}
impl TotalOrd for Cnt {
  fn total_cmp(&self, o: &Cnt) -> Ordering {
    tick();
    self.0.cmp(&o.0)
  }
}
macro_rules! ops {
  ($($tr:ident $f:ident $atr:ident $af:ident;)*) => { $(
    impl $tr for Cnt { type Output = Cnt; fn $f(self, o: Cnt) -> Cnt { tick(); Cnt(self.0.$f(o.0)) } }
    impl $atr for Cnt { fn $af(&mut self, o: Cnt) { tick(); self.0.$af(o.0) } }
  )* };
}
ops! {
  Add add AddAssign add_assign;
  Sub sub SubAssign sub_assign;
  Mul mul MulAssign mul_assign;
  Div div DivAssign div_assign;
  Rem rem RemAssign rem_assign;
}
impl Neg for Cnt {
  type Output = Cnt;
  fn neg(self) -> Cnt {
    tick();
    Cnt(-self.0)
  }
}
impl Sum for Cnt {
  fn sum<I: Iterator<Item = Cnt>>(it: I) -> Cnt {
    Cnt(it.map(|c| { tick(); c.0 }).sum())
  }
}
fn un(p: &[Cnt; 2]) -> [i64; 2] {
  [p[0].0, p[1].0]
}
impl PolygonScalar for Cnt {
  fn from_constant(v: i8) -> Self {
    Cnt(v as i64)
  }
  fn cmp_dist(p: &[Self; 2], q: &[Self; 2], r: &[Self; 2]) -> Ordering {
    tick();
    <i64 as PolygonScalar>::cmp_dist(&un(p), &un(q), &un(r))
  }
  fn cmp_slope(p: &[Self; 2], q: &[Self; 2], r: &[Self; 2]) -> Ordering {
    tick();
    <i64 as PolygonScalar>::cmp_slope(&un(p), &un(q), &un(r))
  }
  fn cmp_vector_slope(p: &[Self; 2], q: &[Self; 2], r: &[Self; 2]) -> Ordering {
    tick();
    <i64 as PolygonScalar>::cmp_vector_slope(&un(p), &un(q), &un(r))
  }
  fn cmp_perp_vector_slope(p: &[Self; 2], q: &[Self; 2], r: &[Self; 2]) -> Ordering {
    tick();
    <i64 as PolygonScalar>::cmp_perp_vector_slope(&un(p), &un(q), &un(r))
  }
}
impl ZHashable for Cnt {
  type ZHashKey = <i64 as ZHashable>::ZHashKey;
  fn zhash_key(b: ZHashBox<'_, Self>) -> Self::ZHashKey {
    tick();
    <i64 as ZHashable>::zhash_key(ZHashBox { min_x: &b.min_x.0, max_x: &b.max_x.0, min_y: &b.min_y.0, max_y: &b.max_y.0 })
  }
  fn zhash_fn(key: Self::ZHashKey, p: &Point<Self>) -> u64 {
    tick();
    <i64 as ZHashable>::zhash_fn(key, &Point::new(un(&p.array)))
  }
}
