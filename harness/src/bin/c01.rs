//! C01: orientation predicates are exact for every scalar type.
use num::{BigInt, BigRational, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{Direction, Point, Vector};
use rgeometry::Orientation;
use std::cmp::Ordering;
use vharness::*;

fn o(x: &Q) -> Orientation {
  match x.cmp(&Q::zero()) {
    Ordering::Less => Orientation::ClockWise,
    Ordering::Equal => Orientation::CoLinear,
    Ordering::Greater => Orientation::CounterClockWise,
  }
}

fn check_all<T: Sc>(p: &[T; 2], q: &[T; 2], r: &[T; 2], v: &[T; 2]) -> Result<[Orientation; 3], String> {
  let (rp, rq, rr, rv) = (r2(p), r2(q), r2(r), r2(v));
  let t = T::NAME;
  let w1 = o(&rcross(&rsub(&rq, &rp), &rsub(&rr, &rp)));
  ensure_eq!(Orientation::new(p, q, r), w1, "{t}: orientation of {p:?} {q:?} {r:?}");
  let (pp, pq, pr) = (Point::new(p.clone()), Point::new(q.clone()), Point::new(r.clone()));
  ensure_eq!(Point::orient(&pp, &pq, &pr), w1, "{t}: Point::orient of {p:?} {q:?} {r:?}");
  let vv = Vector(v.clone());
  let w2 = o(&rcross(&rv, &rsub(&rr, &rp)));
  ensure_eq!(Orientation::along_vector(p, &vv, r), w2, "{t}: along_vector {p:?} {v:?} {r:?}");
  ensure_eq!(Point::orient_along_vector(&pp, &vv, &pr), w2, "{t}: Point::orient_along_vector {p:?} {v:?} {r:?}");
  ensure_eq!(Point::orient_along_direction(&pp, Direction::Vector(&vv), &pr), w2, "{t}: orient_along_direction(vector) {p:?} {v:?} {r:?}");
  ensure_eq!(Point::orient_along_direction(&pp, Direction::Through(&pq), &pr), w1, "{t}: orient_along_direction(through) {p:?} {q:?} {r:?}");
  // the perpendicular is the vector rotated by +90 degrees
  let perp = [-rv[1].clone(), rv[0].clone()];
  let w3 = o(&rcross(&perp, &rsub(&rr, &rp)));
  ensure_eq!(Orientation::along_perp_vector(p, &vv, r), w3, "{t}: along_perp_vector {p:?} {v:?} {r:?}");
  ensure_eq!(Point::orient_along_perp_vector(&pp, &vv, &pr), w3, "{t}: Point::orient_along_perp_vector {p:?} {v:?} {r:?}");
  Ok([w1, w2, w3])
}

fn random<T: Coord>(s: &mut Src, c: &mut Ctx) -> R {
  let ps = degenerate_points::<T>(s, 3);
  let v = degenerate_vector::<T>(s, &ps);
  let key: Vec<String> = ps.iter().chain([&v]).map(|p| format!("{:?}", p)).collect();
  c.case(&(T::NAME, &key), || format!("{} points {:?} vector {:?}", T::NAME, ps, v));
  let w = check_all(&ps[0], &ps[1], &ps[2], &v)?;
  let ext = ps.iter().any(|p| p[0].extreme() || p[1].extreme());
  let colin = w.iter().any(|x| x.is_colinear());
  c.class(T::NAME);
  c.class_if(colin, "colinear");
  c.class_if(ext, "extreme");
  c.class_if(ps[0] != ps[1] && ps[0] != ps[2] && ps[1] != ps[2] && w[0].is_colinear(), "proper-colinear");
  // a case is also non-trivial when naive f64 arithmetic gets a different sign
  let f = |x: &T| num::ToPrimitive::to_f64(&x.rat()).unwrap_or(0.0);
  let det = (f(&ps[1][0]) - f(&ps[0][0])) * (f(&ps[2][1]) - f(&ps[0][1]))
    - (f(&ps[1][1]) - f(&ps[0][1])) * (f(&ps[2][0]) - f(&ps[0][0]));
  let naive = if det > 0.0 { Orientation::CounterClockWise } else if det < 0.0 { Orientation::ClockWise } else { Orientation::CoLinear };
  c.class_if(naive != w[0], "naive-f64-wrong");
  c.nontrivial_if(ext || colin || naive != w[0]);
  Ok(())
}

fn ints(s: &mut Src, c: &mut Ctx) -> R {
  let f = [random::<i8>, random::<i16>, random::<i32>, random::<i64>, random::<isize>];
  f[s.below(5)](s, c)
}
fn floats(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    random::<f64>,
    random::<f32>,
    random::<OrderedFloat<f64>>,
    random::<OrderedFloat<f32>>,
    random::<NotNan<f64>>,
    random::<NotNan<f32>>,
  ];
  f[s.below(6)](s, c)
}
fn bigs(s: &mut Src, c: &mut Ctx) -> R {
  let f = [random::<BigInt>, random::<BigRational>, random::<rug::Integer>];
  f[s.below(3)](s, c)
}

fn lattice<T: Sc + num::Bounded>(mut i: u64, c: &mut Ctx) -> R {
  // 8 coordinates over {MIN, MIN+1, -1, 0, 1, MAX-1, MAX}; p, q, r and v
  let one = T::from_constant(1);
  let vals = [T::min_value(), T::min_value() + one.clone(), T::from_constant(-1), T::from_constant(0), one.clone(), T::max_value() - one, T::max_value()];
  let mut d = || {
    let x = vals[(i % 7) as usize].clone();
    i /= 7;
    x
  };
  let p = [d(), d()];
  let q = [d(), d()];
  let r = [d(), d()];
  // the vector reuses q's coordinates: every (p, v, r) over the value set is covered
  c.case(&format!("{} {p:?} {q:?} {r:?}", T::NAME), || format!("{} p={p:?} q=v={q:?} r={r:?}", T::NAME));
  c.nontrivial_if(p != q || q != r);
  c.class("extreme-lattice");
  check_all(&p, &q, &r, &q).map(|_| ())
}
const LAT: u64 = 117649;
fn enumerated(s: &mut Src, c: &mut Ctx) -> R {
  let i = s.raw64();
  // consecutive indices are spread over the lattice so that a prefix samples all of it
  let j = (i / 5).wrapping_mul(48271) % LAT;
  match i % 5 {
    0 => lattice::<i8>(j, c),
    1 => lattice::<i16>(j, c),
    2 => lattice::<i32>(j, c),
    3 => lattice::<i64>(j, c),
    _ => lattice::<isize>(j, c),
  }
}

fn colinear_set<T: Coord>(s: &mut Src, c: &mut Ctx) -> R {
  let n = s.usize(0, 7);
  let mut ps = degenerate_points::<T>(s, n.max(1));
  if n == 0 {
    ps.clear();
  }
  if s.flip() && n > 2 {
    // force points of one line
    let (a, b) = (ps[0].clone(), ps[1].clone());
    for q in ps[2..].iter_mut() {
      let t = Q::from(BigInt::from(s.sym(3)));
      let z: Vec<_> = (0..2).filter_map(|k| T::from_rat(&(a[k].rat() + (b[k].rat() - a[k].rat()) * &t))).collect();
      if z.len() == 2 && s.chance(7, 8) {
        *q = [z[0].clone(), z[1].clone()];
      }
    }
  }
  let rs: Vec<_> = ps.iter().map(r2).collect();
  let mut want = true;
  for a in &rs {
    for b in &rs {
      for d in &rs {
        if !rcross(&rsub(b, a), &rsub(d, a)).is_zero() {
          want = false;
        }
      }
    }
  }
  c.case(&format!("{} {ps:?}", T::NAME), || format!("all_colinear {} {ps:?}", T::NAME));
  c.nontrivial_if(n >= 3);
  c.class_if(want && n >= 3, "all-colinear");
  let pts: Vec<Point<T>> = ps.iter().cloned().map(Point::new).collect();
  ensure_eq!(Point::all_colinear(&pts), want, "{}: all_colinear {:?}", T::NAME, ps);
  Ok(())
}
fn colinear(s: &mut Src, c: &mut Ctx) -> R {
  let f = [colinear_set::<i8>, colinear_set::<i64>, colinear_set::<f64>, colinear_set::<BigRational>];
  f[s.below(4)](s, c)
}

static SPEC: Spec = Spec {
  id: "C01",
  rule: "Points are generated per scalar type from small, extreme, power-of-two and full-range coordinates; later points repeat earlier ones, continue a line exactly, or sit one unit/ulp off it; all triples over {MIN,MIN+1,-1,0,1,MAX-1,MAX} are enumerated for each fixed-width type. Non-trivial: an exactly colinear predicate, a coordinate in the outer eighth of the type, or a triple whose sign naive f64 arithmetic gets wrong.",
  assumptions: &["float coordinates are finite with magnitude 0 or in 2^-240..2^240 (f32: 2^-100..2^100), where adaptive expansion arithmetic neither overflows nor underflows", "BigRational arithmetic of the num crate is the oracle"],
  parts: &[
    Part { name: "ints", quick: 840_000, thorough: 20_000_000, len: 48, run: ints },
    Part { name: "floats", quick: 420_000, thorough: 8_000_000, len: 48, run: floats },
    Part { name: "bigs", quick: 280_000, thorough: 4_000_000, len: 48, run: bigs },
    Part { name: "extreme-lattice", quick: LAT * 5, thorough: LAT * 5, len: 0, run: enumerated },
    Part { name: "all-colinear", quick: 28_000, thorough: 1_000_000, len: 64, run: colinear },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
