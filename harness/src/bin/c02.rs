//! C02: distance and projection comparisons are exact for every scalar type.
use num::{BigInt, BigRational, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{Point, Vector};
use std::cmp::Ordering;
use vharness::*;

fn d2(a: &[Q; 2], b: &[Q; 2]) -> Q {
  let d = rsub(a, b);
  rdot(&d, &d)
}

fn random<T: Coord>(s: &mut Src, c: &mut Ctx) -> R {
  let mut ps = degenerate_points::<T>(s, 3);
  // often: the same offset from p with swapped / negated components (an exact tie), or one
  // unit off it
  if s.chance(2, 5) {
    let off = rsub(&r2(&ps[1]), &r2(&ps[0]));
    let off = if s.flip() { [off[1].clone(), off[0].clone()] } else { off };
    let off = [if s.flip() { -off[0].clone() } else { off[0].clone() }, if s.flip() { -off[1].clone() } else { off[1].clone() }];
    let b = r2(&ps[0]);
    if let (Some(x), Some(y)) = (T::from_rat(&(&b[0] + &off[0])), T::from_rat(&(&b[1] + &off[1]))) {
      ps[2] = if s.flip() { [x, y] } else { [x.nudge(s), y] };
    }
  }
  let v = degenerate_vector::<T>(s, &ps);
  let key: Vec<String> = ps.iter().chain([&v]).map(|p| format!("{p:?}")).collect();
  c.case(&(T::NAME, &key), || format!("{} p={:?} q={:?} r={:?} v={:?}", T::NAME, ps[0], ps[1], ps[2], v));
  c.class(T::NAME);
  let r: Vec<[Q; 2]> = ps.iter().map(r2).collect();
  let rv = r2(&v);
  let pt: Vec<Point<T>> = ps.iter().cloned().map(Point::new).collect();
  let mut tie = false;
  for (i, j, k) in [(0, 1, 2), (1, 0, 2), (2, 0, 1), (0, 2, 1)] {
    let w = d2(&r[i], &r[j]).cmp(&d2(&r[i], &r[k]));
    tie |= w == Ordering::Equal && ps[j] != ps[k];
    ensure_eq!(pt[i].cmp_distance_to(&pt[j], &pt[k]), w, "{}: distance from {:?} to {:?} vs {:?}", T::NAME, ps[i], ps[j], ps[k]);
  }
  let vv = Vector(v.clone());
  let mut ptie = false;
  for (i, j) in [(0, 1), (1, 2), (0, 2), (1, 0)] {
    let w = rdot(&rv, &r[i]).cmp(&rdot(&rv, &r[j]));
    ptie |= w == Ordering::Equal && ps[i] != ps[j];
    ensure_eq!(vv.cmp_along(&pt[i], &pt[j]), w, "{}: {:?} vs {:?} along {:?}", T::NAME, ps[i], ps[j], v);
  }
  let ext = ps.iter().any(|p| p[0].extreme() || p[1].extreme());
  c.class_if(tie, "distance-tie");
  c.class_if(ptie, "projection-tie");
  c.class_if(ext, "extreme");
  c.nontrivial_if(tie || ptie || ext);
  Ok(())
}

fn ints(s: &mut Src, c: &mut Ctx) -> R {
  let f = [random::<i8>, random::<i16>, random::<i32>, random::<i64>, random::<isize>];
  f[s.below(5)](s, c)
}
fn floats(s: &mut Src, c: &mut Ctx) -> R {
  let f = [random::<f64>, random::<f32>, random::<OrderedFloat<f64>>, random::<OrderedFloat<f32>>, random::<NotNan<f64>>, random::<NotNan<f32>>];
  f[s.below(6)](s, c)
}
fn bigs(s: &mut Src, c: &mut Ctx) -> R {
  let f = [random::<BigInt>, random::<BigRational>, random::<rug::Integer>];
  f[s.below(3)](s, c)
}

fn lattice<T: Sc + num::Bounded>(mut i: u64, c: &mut Ctx) -> R {
  let one = T::from_constant(1);
  let vals = [T::min_value(), T::min_value() + one.clone(), T::from_constant(-1), T::from_constant(0), one.clone(), T::max_value() - one, T::max_value()];
  let mut d = || {
    let x = vals[(i % 7) as usize].clone();
    i /= 7;
    x
  };
  let (p, q, r) = ([d(), d()], [d(), d()], [d(), d()]);
  c.case(&format!("{} {p:?} {q:?} {r:?}", T::NAME), || format!("{} p=v={p:?} q={q:?} r={r:?}", T::NAME));
  c.nontrivial_if(q != r);
  c.class("extreme-lattice");
  // i128 is enough: |coordinate| <= 2^63 so squared distances stay below 2^129; use u128 sums in Q
  let (rp, rq, rr) = (r2(&p), r2(&q), r2(&r));
  let (pp, pq, pr) = (Point::new(p.clone()), Point::new(q.clone()), Point::new(r.clone()));
  ensure_eq!(pp.cmp_distance_to(&pq, &pr), d2(&rp, &rq).cmp(&d2(&rp, &rr)), "{}: distance from {p:?} to {q:?} vs {r:?}", T::NAME);
  ensure_eq!(Vector(p.clone()).cmp_along(&pq, &pr), rdot(&rp, &rq).cmp(&rdot(&rp, &rr)), "{}: {q:?} vs {r:?} along {p:?}", T::NAME);
  Ok(())
}
const LAT: u64 = 117649;
fn enumerated(s: &mut Src, c: &mut Ctx) -> R {
  let i = s.raw64();
  let j = (i / 5).wrapping_mul(48271) % LAT;
  match i % 5 {
    0 => lattice::<i8>(j, c),
    1 => lattice::<i16>(j, c),
    2 => lattice::<i32>(j, c),
    3 => lattice::<i64>(j, c),
    _ => lattice::<isize>(j, c),
  }
}

/// Squared distance computed in a wide result type.
fn squared(s: &mut Src, c: &mut Ctx) -> R {
  let ps = degenerate_points::<i64>(s, 2);
  let (p, q) = (ps[0], ps[1]);
  c.case(&(p, q), || format!("squared distance {p:?} {q:?}"));
  c.nontrivial_if(p != q);
  let want = d2(&r2(&p), &r2(&q));
  ensure_eq!(BigRational::from(Point::new(p).squared_euclidean_distance::<BigInt>(&Point::new(q))), want, "squared distance {p:?} {q:?}");
  let small = |x: i64| (x >> 34) as i32;
  let (a, b) = ([small(p[0]), small(p[1])], [small(q[0]), small(q[1])]);
  let w2 = d2(&r2(&a), &r2(&b));
  ensure_eq!(BigRational::from(BigInt::from(Point::new(a).squared_euclidean_distance::<i128>(&Point::new(b)))), w2, "squared distance {a:?} {b:?}");
  ensure!(want >= Q::zero(), "harness");
  Ok(())
}

static SPEC: Spec = Spec {
  id: "C02",
  rule: "Points and vectors per scalar type from small, extreme, power-of-two and full-range coordinates; the third point often has the same distance (offset components swapped/negated) or is one unit/ulp off; vectors are often differences or perpendiculars of differences. All triples over {MIN,MIN+1,-1,0,1,MAX-1,MAX} per fixed-width type are enumerated. Non-trivial: a tie between different points, or a coordinate in the outer eighth of the type.",
  assumptions: &["float coordinates are finite with magnitude 0 or in 2^-240..2^240 (f32: 2^-100..2^100)", "BigRational arithmetic of the num crate is the oracle"],
  parts: &[
    Part { name: "ints", quick: 520_000, thorough: 10_000_000, len: 56, run: ints },
    Part { name: "floats", quick: 130_000, thorough: 3_000_000, len: 56, run: floats },
    Part { name: "bigs", quick: 170_000, thorough: 3_000_000, len: 56, run: bigs },
    Part { name: "extreme-lattice", quick: 250_000, thorough: LAT * 5, len: 0, run: enumerated },
    Part { name: "squared", quick: 44_000, thorough: 500_000, len: 32, run: squared },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
