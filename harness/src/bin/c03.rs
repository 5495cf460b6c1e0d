//! C03: angular order around a point is the true counter-clockwise order.
use num::{BigInt, BigRational, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{Point, Vector};
use rgeometry::Orientation;
use std::cmp::Ordering;
use vharness::*;

/// Angle class of d measured counter-clockwise from z: 0 for [0,180), 1 for [180,360).
fn half(z: &[Q; 2], d: &[Q; 2]) -> u8 {
  let (x, y) = (rdot(z, d), rcross(z, d));
  if y > Q::zero() || (y.is_zero() && x > Q::zero()) {
    0
  } else {
    1
  }
}
fn angle(z: &[Q; 2], a: &[Q; 2], b: &[Q; 2]) -> Ordering {
  half(z, a).cmp(&half(z, b)).then_with(|| Q::zero().cmp(&rcross(a, b)))
}
fn is0<T: Sc>(v: &[T; 2]) -> bool {
  let z = T::from_constant(0);
  v[0] == z && v[1] == z
}

fn random<T: Coord>(s: &mut Src, c: &mut Ctx) -> R {
  let ps = degenerate_points::<T>(s, 4);
  let o = ps[0].clone();
  let mut z = degenerate_vector::<T>(s, &ps);
  if is0(&z) {
    z = [T::from_constant(0), T::from_constant(if s.flip() { -1 } else { 1 })];
  }
  let q: Vec<[T; 2]> = ps[1..].iter().filter(|p| **p != o).cloned().collect();
  if q.is_empty() {
    return Ok(());
  }
  let key: Vec<String> = ps.iter().chain([&z]).map(|p| format!("{p:?}")).collect();
  c.case(&(T::NAME, &key), || format!("{} origin={o:?} z={z:?} points={q:?}", T::NAME));
  c.class(T::NAME);
  let ro = r2(&o);
  let rz = r2(&z);
  let right = [Q::from(BigInt::from(1)), Q::zero()];
  let d: Vec<[Q; 2]> = q.iter().map(|p| rsub(&r2(p), &ro)).collect();
  let po = Point::new(o.clone());
  let vz = Vector(z.clone());
  let mut deg = false;
  for i in 0..q.len() {
    for j in 0..q.len() {
      let (pi, pj) = (Point::new(q[i].clone()), Point::new(q[j].clone()));
      let w = angle(&rz, &d[i], &d[j]);
      let t = T::NAME;
      ensure_eq!(Orientation::ccw_cmp_around_with(&vz, &o, &q[i], &q[j]), w, "{t}: order of {:?} and {:?} around {o:?} from {z:?}", q[i], q[j]);
      ensure_eq!(po.ccw_cmp_around_with(&vz, &pi, &pj), w, "{t}: Point::ccw_cmp_around_with {:?} {:?} around {o:?} from {z:?}", q[i], q[j]);
      let (vo, vi, vj) = (Vector(o.clone()), Vector(q[i].clone()), Vector(q[j].clone()));
      ensure_eq!(vo.ccw_cmp_around_with(&vz, &vi, &vj), w, "{t}: Vector::ccw_cmp_around_with {:?} {:?} around {o:?} from {z:?}", q[i], q[j]);
      let w1 = angle(&right, &d[i], &d[j]);
      ensure_eq!(po.ccw_cmp_around(&pi, &pj), w1, "{t}: Point::ccw_cmp_around {:?} {:?} around {o:?}", q[i], q[j]);
      ensure_eq!(vo.ccw_cmp_around(&vi, &vj), w1, "{t}: Vector::ccw_cmp_around {:?} {:?} around {o:?}", q[i], q[j]);
      deg |= q[i] != q[j] && (w == Ordering::Equal || w1 == Ordering::Equal || rcross(&d[i], &d[j]).is_zero());
    }
    let along = rcross(&rz, &d[i]).is_zero() || d[i][1].is_zero();
    c.class_if(along, "on-reference-line");
    deg |= along;
  }
  let ext = ps.iter().any(|p| p[0].extreme() || p[1].extreme());
  c.class_if(ext, "extreme");
  c.nontrivial_if(deg || (ext && q.len() > 1));
  Ok(())
}
fn ints(s: &mut Src, c: &mut Ctx) -> R {
  let f = [random::<i8>, random::<i16>, random::<i32>, random::<i64>, random::<isize>];
  f[s.below(5)](s, c)
}
fn floats(s: &mut Src, c: &mut Ctx) -> R {
  let f = [random::<f64>, random::<f32>, random::<OrderedFloat<f64>>, random::<OrderedFloat<f32>>, random::<NotNan<f64>>, random::<NotNan<f32>>];
  f[s.below(6)](s, c)
}
fn bigs(s: &mut Src, c: &mut Ctx) -> R {
  let f = [random::<BigInt>, random::<BigRational>, random::<rug::Integer>];
  f[s.below(3)](s, c)
}

/// sort_around returns a permutation in non-decreasing angle.
fn sorting<T: Coord>(s: &mut Src, c: &mut Ctx) -> R {
  let n = s.usize(0, 40);
  let mut vs: Vec<[T; 2]> = if s.flip() {
    gen::points(s, n.max(1), false)
      .iter()
      .filter_map(|p| Some([T::from_rat(&Q::from(BigInt::from(p[0])))?, T::from_rat(&Q::from(BigInt::from(p[1])))?]))
      .collect()
  } else {
    degenerate_points::<T>(s, n.max(1).min(16))
  };
  vs.retain(|v| !is0(v));
  c.case(&format!("{} {vs:?}", T::NAME), || format!("sort {} {vs:?}", T::NAME));
  let rs: Vec<[Q; 2]> = vs.iter().map(r2).collect();
  let right = [Q::from(BigInt::from(1)), Q::zero()];
  c.nontrivial_if(vs.len() >= 4 && rs.iter().any(|v| v[1] < Q::zero()) && rs.iter().any(|v| v[1] > Q::zero()));
  let mut out: Vec<Vector<T, 2>> = vs.iter().cloned().map(Vector).collect();
  Vector::sort_around(&mut out);
  let mut a: Vec<String> = vs.iter().map(|v| format!("{v:?}")).collect();
  let mut b: Vec<String> = out.iter().map(|v| format!("{:?}", v.0)).collect();
  for w in out.windows(2) {
    ensure!(angle(&right, &r2(&w[0].0), &r2(&w[1].0)) != Ordering::Greater, "{}: sort_around of {vs:?} puts {:?} before {:?}", T::NAME, w[0], w[1]);
  }
  a.sort();
  b.sort();
  ensure_eq!(b, a, "{}: sort_around is not a permutation", T::NAME);
  Ok(())
}
fn sort(s: &mut Src, c: &mut Ctx) -> R {
  let f = [sorting::<i8>, sorting::<i64>, sorting::<f64>, sorting::<BigInt>, sorting::<i16>, sorting::<NotNan<f64>>];
  f[s.below(6)](s, c)
}

/// Every reference direction and pair over a small grid.
fn grid(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let mut d = || {
    let k = i % 24;
    i /= 24;
    let k = if k >= 12 { k + 1 } else { k };
    [(k % 5) as i64 - 2, (k / 5) as i64 - 2]
  };
  let (z, p, q) = (d(), d(), d());
  let o = [[0i64, 0], [i64::MIN + 2, i64::MAX - 2], [7, -3]][(i % 3) as usize];
  c.case(&(z, p, q, o), || format!("grid z={z:?} p=o+{p:?} q=o+{q:?} o={o:?}"));
  c.nontrivial_if(p != q);
  let f = |v: [i64; 2]| [Q::from(BigInt::from(v[0])), Q::from(BigInt::from(v[1]))];
  let w = angle(&f(z), &f(p), &f(q));
  let (a, b) = ([o[0] + p[0], o[1] + p[1]], [o[0] + q[0], o[1] + q[1]]);
  ensure_eq!(Orientation::ccw_cmp_around_with(&Vector(z), &o, &a, &b), w, "order of {a:?} and {b:?} around {o:?} from {z:?}");
  Ok(())
}

static SPEC: Spec = Spec {
  id: "C03",
  rule: "Origins, points and reference directions per scalar type from small, extreme, power-of-two and full-range coordinates; points repeat rays, opposite rays and the reference line, or sit one unit/ulp off; every z, p, q of the 5x5 grid without 0 is enumerated at three origins; lists of up to 40 non-zero vectors are sorted. Non-trivial: a direction on the reference line or two points on one line through the origin, extreme coordinates, or (sorting) at least four vectors in both half-planes.",
  assumptions: &["points differ from the origin and the reference direction is not zero (their angle is undefined otherwise)", "float coordinates are finite with magnitude 0 or in 2^-240..2^240 (f32: 2^-100..2^100)", "BigRational arithmetic of the num crate is the oracle"],
  parts: &[
    Part { name: "ints", quick: 190_000, thorough: 6_000_000, len: 56, run: ints },
    Part { name: "floats", quick: 25_000, thorough: 800_000, len: 56, run: floats },
    Part { name: "bigs", quick: 64_000, thorough: 1_000_000, len: 56, run: bigs },
    Part { name: "grid", quick: 24 * 24 * 24 * 3, thorough: 24 * 24 * 24 * 3, len: 0, run: grid },
    Part { name: "sort", quick: 19_000, thorough: 400_000, len: 120, run: sort },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
