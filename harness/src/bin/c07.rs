//! C07: the intersection point of two lines is exact.
use num::{BigInt, BigRational, Zero};
use ordered_float::OrderedFloat;
use rgeometry::data::*;
use rgeometry::PolygonScalar;
use vharness::*;

fn check(p: &[[Q; 2]]) -> Result<bool, String> {
  let pt: Vec<Point<Q>> = p.iter().cloned().map(Point::new).collect();
  let (d, e) = (rsub(&p[1], &p[0]), rsub(&p[3], &p[2]));
  let parallel = rcross(&d, &e).is_zero();
  for (i, j, k, l) in [(0, 1, 2, 3), (1, 0, 2, 3), (2, 3, 0, 1), (3, 2, 1, 0)] {
    let a = Line::new_through(&pt[i], &pt[j]);
    let b = Line::new_through(&pt[k], &pt[l]);
    let got = a.intersection_point(&b);
    let what = || format!("lines {:?}-{:?} and {:?}-{:?}", p[i], p[j], p[k], p[l]);
    match got {
      None => ensure!(parallel, "no intersection point for the non-parallel {}", what()),
      Some(x) => {
        ensure!(!parallel, "intersection point {x:?} for the parallel {}", what());
        for (o, d) in [(&p[0], &d), (&p[2], &e)] {
          ensure!(rcross(d, &rsub(&x.array, o)).is_zero(), "intersection point {x:?} is not on both {}", what());
        }
      }
    }
  }
  Ok(parallel)
}
fn rational(s: &mut Src, c: &mut Ctx) -> R {
  let p = degenerate_points::<Q>(s, 4);
  if p[0] == p[1] || p[2] == p[3] {
    return Ok(());
  }
  c.case(&format!("{p:?}"), || format!("lines {p:?}"));
  let par = check(&p)?;
  c.class_if(par, "parallel");
  c.nontrivial();
  Ok(())
}
/// Lines that are parallel, nearly parallel, or meet at a chosen point.
fn designed(s: &mut Src, c: &mut Ctx) -> R {
  let q = |s: &mut Src| Q::new(BigInt::from(s.sym(50)), BigInt::from(s.range(1, 6)));
  let x = [q(s), q(s)];
  let d = [Q::from(BigInt::from(s.sym(6))), Q::from(BigInt::from(s.sym(6)))];
  let mut e = [Q::from(BigInt::from(s.sym(6))), Q::from(BigInt::from(s.sym(6)))];
  let kind = s.below(3);
  if kind == 1 {
    let k = q(s);
    e = [&d[0] * &k, &d[1] * &k];
  }
  let at = |d: &[Q; 2], t: &Q, o: &[Q; 2]| [&o[0] + &d[0] * t, &o[1] + &d[1] * t];
  let off = if kind == 2 { [q(s), q(s)] } else { [Q::zero(), Q::zero()] };
  let o2 = [&x[0] + &off[0], &x[1] + &off[1]];
  let p = [at(&d, &q(s), &x), at(&d, &q(s), &x), at(&e, &q(s), &o2), at(&e, &q(s), &o2)];
  if p[0] == p[1] || p[2] == p[3] {
    return Ok(());
  }
  c.case(&format!("{p:?}"), || format!("lines {p:?}"));
  c.nontrivial();
  let par = check(&p)?;
  c.class_if(par, "parallel");
  c.class_if(p.iter().any(|v| p.iter().filter(|w| *w == v).count() > 1), "shared-point");
  if !par && kind == 0 {
    let pt: Vec<Point<Q>> = p.iter().cloned().map(Point::new).collect();
    let got = Line::new_through(&pt[0], &pt[1]).intersection_point(&Line::new_through(&pt[2], &pt[3]));
    ensure_eq!(got.map(|g| g.array), Some(x), "intersection of {p:?}");
  }
  Ok(())
}
/// Lattice lines meeting at a lattice point in integer and float types (exact there).
fn integers(s: &mut Src, c: &mut Ctx) -> R {
  let p: Vec<[i64; 2]> = (0..4).map(|_| [s.sym(40), s.sym(40)]).collect();
  if p[0] == p[1] || p[2] == p[3] {
    return Ok(());
  }
  let r: Vec<[Q; 2]> = p.iter().map(r2).collect();
  let (d, e) = (rsub(&r[1], &r[0]), rsub(&r[3], &r[2]));
  let den = rcross(&d, &e);
  let pt: Vec<Point<i64>> = p.iter().cloned().map(Point::new).collect();
  let fp: Vec<Point<f64>> = p.iter().map(|v| Point::new([v[0] as f64, v[1] as f64])).collect();
  let g = Line::new_through(&pt[0], &pt[1]).intersection_point(&Line::new_through(&pt[2], &pt[3]));
  let f = Line::new_through(&fp[0], &fp[1]).intersection_point(&Line::new_through(&fp[2], &fp[3]));
  c.case(&p, || format!("lattice lines {p:?}"));
  ensure_eq!(g.is_none(), den.is_zero(), "i64 parallel test of {p:?}");
  ensure_eq!(f.is_none(), den.is_zero(), "f64 parallel test of {p:?}");
  if !den.is_zero() {
    let t = rcross(&rsub(&r[2], &r[0]), &e) / &den;
    let x: [BigRational; 2] = [&r[0][0] + &d[0] * &t, &r[0][1] + &d[1] * &t];
    if x[0].is_integer() && x[1].is_integer() {
      c.nontrivial();
      ensure_eq!(g.map(|q| r2(&q.array)), Some(x.clone()), "i64 intersection of {p:?}");
      ensure_eq!(f.map(|q| r2(&q.array)), Some(x), "f64 intersection of {p:?}");
    }
  }
  Ok(())
}

fn meet<T: PolygonScalar>(p: &[[i64; 2]], f: impl Fn(i64) -> T) -> Option<[T; 2]> {
  let pt: Vec<Point<T>> = p.iter().map(|v| Point::new([f(v[0]), f(v[1])])).collect();
  Line::new_through(&pt[0], &pt[1]).intersection_point(&Line::new_through(&pt[2], &pt[3])).map(|x| x.array)
}
/// Every scalar type, with coordinates as large or as small as the arithmetic stays exact for.
fn types(s: &mut Src, c: &mut Ctx) -> R {
  let kind = s.below(10);
  let m = [2, 12, 40, 40, 40, 40, 40, 40, 40, 40][kind];
  let mut p: Vec<[i64; 2]> = (0..4).map(|_| [s.sym(m), s.sym(m)]).collect();
  if s.chance(1, 3) {
    // A lattice point of the second line is put on the first one or next to it.
    let k = s.sym(2);
    let d = [p[1][0] - p[0][0], p[1][1] - p[0][1]];
    let q = [p[0][0] + k * d[0], p[0][1] + k * d[1]];
    if q[0].abs() <= m && q[1].abs() <= m {
      p[2] = q;
    }
  }
  let k = s.sym(30) as i32 * if kind < 8 { 1 } else { 10 };
  if p[0] == p[1] || p[2] == p[3] {
    return Ok(());
  }
  let r: Vec<[Q; 2]> = p.iter().map(r2).collect();
  let (d, e) = (rsub(&r[1], &r[0]), rsub(&r[3], &r[2]));
  let den = rcross(&d, &e);
  let x: Option<[Q; 2]> = if den.is_zero() {
    None
  } else {
    let t = rcross(&rsub(&r[2], &r[0]), &e) / &den;
    Some([&r[0][0] + &d[0] * &t, &r[0][1] + &d[1] * &t])
  };
  let integral = x.as_ref().map_or(true, |x| x.iter().all(|v| v.is_integer()));
  c.case(&(&p, kind, k), || format!("lines {p:?} in type {kind}, scale 2^{k}"));
  macro_rules! int {
    ($t:ty, $mul:expr) => {{
      let by: i64 = $mul;
      let mul = BigInt::from(by);
      let g = meet::<$t>(&p, |v| <$t>::try_from(v).unwrap() * <$t>::try_from(by).unwrap());
      ensure_eq!(g.is_none(), x.is_none(), "{}: lines {p:?} times {mul} parallel", stringify!($t));
      if let (Some(g), Some(x), true) = (g, &x, integral) {
        for i in 0..2 {
          ensure_eq!(g[i].to_string(), (x[i].to_integer() * &mul).to_string(), "{}: coordinate {i} of the intersection of {p:?} times {mul}", stringify!($t));
        }
      }
      c.nontrivial_if(integral);
    }};
  }
  macro_rules! float {
    ($t:ty, $f:ty) => {{
      let scale = (2.0 as $f).powi(k);
      let g = meet::<$t>(&p, |v| <$t>::from(v as $f * scale));
      ensure_eq!(g.is_none(), x.is_none(), "{}: lines {p:?} times 2^{k} parallel", stringify!($t));
      if let (Some(g), Some(x)) = (g, &x) {
        for i in 0..2 {
          let q = |b: &BigInt| b.to_string().parse::<i64>().unwrap() as $f;
          let want = q(x[i].numer()) / q(x[i].denom()) * scale;
          // Some roundings are allowed for.
          let tol = 8.0 * <$f>::EPSILON * (want.abs() + 40.0 * scale);
          ensure!((<$f>::from(g[i]) - want).abs() <= tol, "{}: coordinate {i} of the intersection of {p:?} times 2^{k} is {}, not {want}", stringify!($t), g[i]);
        }
      }
      c.nontrivial();
    }};
  }
  match kind {
    0 => int!(i8, 1i64),
    1 => int!(i16, 1i64),
    2 => int!(i32, [1i64, 7, 10][s.below(3)]),
    3 => int!(i64, [1i64, 1000, 20_000][s.below(3)]),
    4 => int!(isize, [1i64, 1000, 20_000][s.below(3)]),
    5 => int!(BigInt, [1i64, i64::MAX, 1 << 40][s.below(3)]),
    6 => int!(rug::Integer, [1i64, i64::MAX, 1 << 40][s.below(3)]),
    7 => float!(f32, f32),
    8 => float!(f64, f64),
    _ => float!(OrderedFloat<f64>, f64),
  }
  Ok(())
}

static SPEC: Spec = Spec {
  id: "C07",
  rule: "Two lines through two distinct points each: rational coordinates with shared, colinear and nearly colinear points; lines designed to be parallel, to coincide, or to meet at a chosen rational point; small lattice lines in i64 and f64; lattice lines in ten types, multiplied so that the arithmetic stays exact (floats by powers of two from 2^-300 to 2^300). The returned point must lie on both lines and be absent exactly for parallel lines. Non-trivial: every rational case; for lattice cases those meeting at a lattice point (where integer division and float arithmetic are exact).",
  assumptions: &["lines are given by two distinct points (the library implements no other form here)", "integer types are only exact where products fit and the answer is integral"],
  parts: &[
    Part { name: "rational", quick: 150_000, thorough: 2_000_000, len: 64, run: rational },
    Part { name: "designed", quick: 370_000, thorough: 4_000_000, len: 48, run: designed },
    Part { name: "types", quick: 1_000_000, thorough: 6_000_000, len: 24, run: types },
    Part { name: "integers", quick: 1_000_000, thorough: 10_000_000, len: 16, run: integers },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
