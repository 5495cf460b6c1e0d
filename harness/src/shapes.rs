//! Polygons of the library built from canonical vertex cycles, including polygons whose
//! internal storage order differs from the boundary order.
use crate::*;
use rgeometry::algorithms::polygonization::two_opt_moves;
use rgeometry::data::{Point, Polygon};
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
  static RINGS: RefCell<HashMap<(usize, u64), Option<Polygon<i64>>>> = RefCell::new(HashMap::new());
}

/// A valid polygon with n vertices whose storage order is scrambled (cached per thread;
/// a pure function of (n, k)).
fn scrambled(n: usize, k: u64) -> Option<Polygon<i64>> {
  RINGS.with(|c| {
    if let Some(p) = c.borrow().get(&(n, k)) {
      return p.clone();
    }
    let made = catching(|| {
      let mut st = 0x1234_5678u64.wrapping_mul(n as u64 + 1) ^ k;
      let mut v = vec![];
      for i in 0..n {
        let x = (vcore::util::splitmix(&mut st) % 1_000_003) as i64 * 1000 + i as i64;
        let y = (vcore::util::splitmix(&mut st) % 1_000_003) as i64;
        v.push(Point::new([x, y]));
      }
      if n > 60 {
        // untangling many random points takes long: a convex arc with a few stretches
        // reversed instead
        let mut z: Vec<i64> = (0..n as i64).collect();
        for _ in 0..6 {
          let a = (vcore::util::splitmix(&mut st) % n as u64) as usize;
          let b = (vcore::util::splitmix(&mut st) % n as u64) as usize;
          z[a.min(b)..=a.max(b)].reverse();
        }
        v = z.iter().map(|i| Point::new([*i, i * i])).collect();
      }
      let mut rng = Rg::seeded(k).limit(1_000_000);
      two_opt_moves(v, &mut rng).ok()
    })
    .unwrap_or(None);
    c.borrow_mut().insert((n, k), made.clone());
    made
  })
}

/// A library polygon with boundary cycle `p` (canonical, counter-clockwise) under `e`.
/// `store` selects the storage order: 0 as given, 1 reversed storage, 2.. scrambled.
/// The boundary may start at any vertex when scrambled.
pub fn polygon<T: Sc>(p: &[P], e: &Emb, store: u64) -> Polygon<T> {
  let n = p.len();
  match store {
    0 => Polygon::new_unchecked(pts(p, e)),
    1 => {
      // built from the clockwise list, then flipped by the library
      let mut r = p.to_vec();
      r.reverse();
      let mut q = Polygon::new_unchecked(pts(&r, e));
      if q.ensure_ccw().is_ok() && ring(&q, e).map(|x| geo::cyc_eq(&x, p)).unwrap_or(false) {
        q
      } else {
        Polygon::new_unchecked(pts(p, e))
      }
    }
    k => {
      let Some(q) = scrambled(n, k) else { return Polygon::new_unchecked(pts(p, e)) };
      let ids: Vec<usize> = q.boundary_slice().iter().map(|i| i.usize()).collect();
      // storage slot ids[j] holds boundary position j
      let mut slot = vec![0usize; n];
      let mut seen = vec![false; n];
      for (j, i) in ids.iter().enumerate() {
        if *i >= n || seen[*i] {
          return Polygon::new_unchecked(pts(p, e));
        }
        seen[*i] = true;
        slot[*i] = j;
      }
      if ids.len() != n {
        return Polygon::new_unchecked(pts(p, e));
      }
      let zero = pt::<T>(p[0], e);
      let mut out: Polygon<T> = q.map(|_| zero.array[0].clone());
      for (i, r) in out.iter_mut().enumerate() {
        *r = pt(p[slot[i]], e);
      }
      out
    }
  }
}

pub fn store(s: &mut Src) -> u64 {
  match s.weighted(&[5, 2, 4]) {
    0 => 0,
    1 => 1,
    _ => 2 + s.below(5) as u64,
  }
}

/// Generous number of scalar operations for an algorithm on n points that should need
/// about n^k.
pub fn ops(n: usize, k: u32) -> u64 {
  let n = n as u64 + 8;
  2_000 * n.pow(k) + 1_000_000
}

/// Does the error name a defect that the vertex list really has?
pub fn truthful(err: rgeometry::Error, p: &[P]) -> bool {
  use rgeometry::Error::*;
  let n = p.len();
  let turn = |i: usize| geo::orient(p[(i + n - 1) % n], p[i], p[(i + 1) % n]);
  match err {
    InsufficientVertices => {
      let mut q = p.to_vec();
      q.sort();
      q.dedup();
      q.len() < 3
    }
    DuplicatePoints => geo::has_dup(p),
    SelfIntersections => {
      let d = geo::defects(p);
      d.cross || d.dup
    }
    CoLinearViolation => geo::defects(p).some_colinear,
    ConvexViolation => (0..n).any(|i| turn(i) <= 0),
    ClockWiseViolation => {
      // not counter-clockwise: by area, or by the turn at a lexicographically smallest vertex
      let m = p.iter().min().copied();
      geo::area2(p) <= 0 || (0..n).any(|i| Some(p[i]) == m && turn(i) <= 0)
    }
  }
}

/// Turn some zero coordinates into negative zero (no effect on types without it).
pub fn negative_zeros<T: Sc>(s: &mut Src, v: &mut [Point<T>]) -> bool {
  if !s.chance(1, 3) {
    return false;
  }
  let zero = T::from_constant(0);
  let mut bits = s.raw();
  for p in v.iter_mut() {
    for x in p.array.iter_mut() {
      if *x == zero {
        if bits & 1 == 1 {
          *x = -x.clone();
        }
        bits = bits.rotate_right(1);
      }
    }
  }
  true
}
