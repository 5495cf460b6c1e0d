//! C24: vector and affine transform algebra is exact.
use num::{BigInt, BigRational, FromPrimitive, One, Signed, ToPrimitive, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::*;
use vharness::*;

fn q(x: i64) -> Q {
  Q::from(BigInt::from(x))
}
/// How large the values of a type may be so that everything stays exact.
fn sizes<T: Sc>() -> (i64, i64, i64, usize) {
  // coordinates, translations, scale factors, transforms in a row
  match T::NAME {
    "i8" => (6, 5, 2, 2),
    "i16" => (60, 30, 3, 4),
    "f32" | "OrderedFloat<f32>" | "NotNan<f32>" => (90, 40, 3, 5),
    "i32" => (10_000, 3_000, 5, 5),
    _ => (1 << 30, 1 << 25, 9, 5),
  }
}
fn unit<T: Sc>(s: &mut Src) -> Emb {
  let mut e = Emb::ID;
  if T::EXP.0 < 0 && s.flip() {
    e.exp = s.range(-4, 4) as i32;
  }
  if T::RATIONAL && s.flip() {
    e.den = s.pick(&[2i64, 3, 7, 97]);
  }
  e
}
fn small(s: &mut Src, m: i64) -> i64 {
  match s.below(3) {
    0 => s.sym(m.min(3)),
    1 => s.sym(m.min(30)),
    _ => s.sym(m),
  }
}
fn arr<T: Sc, const N: usize>(s: &mut Src, m: i64, e: &Emb) -> [T; N] {
  std::array::from_fn(|_| T::of(small(s, m) as i128, e))
}
fn rs<T: Sc, const N: usize>(a: &[T; N]) -> [Q; N] {
  std::array::from_fn(|i| a[i].rat())
}
fn zip<const N: usize>(a: &[Q; N], b: &[Q; N], f: impl Fn(&Q, &Q) -> Q) -> [Q; N] {
  std::array::from_fn(|i| f(&a[i], &b[i]))
}
macro_rules! same {
  ($got:expr, $want:expr, $($m:tt)*) => { ensure_eq!(rs(&$got), $want, $($m)*) };
}

/// Every operator and its variants against coordinate-wise rational arithmetic.
fn arith<T, const N: usize>(s: &mut Src, c: &mut Ctx) -> R
where
  T: Sc,
{
  let t = T::NAME;
  let (m, _, k, _) = sizes::<T>();
  let e = unit::<T>(s);
  let (a, b, d): ([T; N], [T; N], [T; N]) = (arr(s, m, &e), arr(s, m, &e), arr(s, m, &e));
  let f = T::of(s.sym(k) as i128, &unit::<T>(s));
  let (ra, rb, rd, rf) = (rs(&a), rs(&b), rs(&d), f.rat());
  c.case(&(&ra, &rb, &rd, &rf, t), || format!("{t} arithmetic in {N} dimensions: {a:?} {b:?} {d:?} factor {f:?}"));
  c.class(t);
  c.class(["0d", "1d", "2d", "3d", "4d"][N]);
  c.nontrivial_if(ra != rb && !rf.is_zero());
  let (p, v, w) = (Point::new(a.clone()), Vector(b.clone()), Vector(d.clone()));
  let pq = Point::new(b.clone());
  let sum = zip(&ra, &rb, |x, y| x + y);
  let dif = zip(&ra, &rb, |x, y| x - y);
  same!((&p + &v).array, sum, "{t}: &{p:?} + &{v:?}");
  same!((p.clone() + &v).array, sum, "{t}: {p:?} + &{v:?}");
  same!((p.clone() + v.clone()).array, sum, "{t}: {p:?} + {v:?}");
  let (mut x, mut y) = (p.clone(), p.clone());
  x += &v;
  y += v.clone();
  same!(x.array, sum, "{t}: {p:?} += &{v:?}");
  same!(y.array, sum, "{t}: {p:?} += {v:?}");
  same!((&p - &pq).0, dif, "{t}: &{p:?} - &{pq:?}");
  same!((p.clone() - pq.clone()).0, dif, "{t}: {p:?} - {pq:?}");
  let u = Vector(a.clone());
  same!((&u + &v).0, sum, "{t}: &{u:?} + &{v:?}");
  same!((u.clone() + v.clone()).0, sum, "{t}: {u:?} + {v:?}");
  let mut x = u.clone();
  x += v.clone();
  same!(x.0, sum, "{t}: {u:?} += {v:?}");
  same!((VectorView(&a) + VectorView(&b)).0, sum, "{t}: views {u:?} + {v:?}");
  same!((&u - &v).0, dif, "{t}: &{u:?} - &{v:?}");
  same!((-u.clone()).0, ra.clone().map(|x| -x), "{t}: -{u:?}");
  let prod = ra.clone().map(|x| x * &rf);
  same!((u.clone() * f.clone()).0, prod, "{t}: {u:?} * {f:?}");
  same!((VectorView(&a) * f.clone()).0, prod, "{t}: view {u:?} * {f:?}");
  if !rf.is_zero() {
    // exact quotients: divide the product
    let x = Vector::<T, N>(std::array::from_fn(|i| a[i].clone() * f.clone()));
    same!((x.clone() / f.clone()).0, ra, "{t}: {x:?} / {f:?}");
    same!((VectorView(&x.0) / f.clone()).0, ra, "{t}: view {x:?} / {f:?}");
  }
  let three = zip(&sum, &rd, |x, y| x + y);
  let total: Vector<T, N> = vec![u.clone(), v.clone(), w.clone()].into_iter().sum();
  same!(total.0, three, "{t}: sum of {u:?} {v:?} {w:?}");
  let none: Vector<T, N> = Vec::<Vector<T, N>>::new().into_iter().sum();
  ensure!(rs(&none.0).iter().all(|x| x.is_zero()), "{t}: empty sum {none:?}");
  let zero: Point<T, N> = Point::zero();
  ensure!(rs(&zero.array).iter().all(|x| x.is_zero()), "{t}: zero {zero:?}");
  // conversions keep coordinates
  same!(p.as_vec().0, ra, "{t}: as_vec");
  same!(Vector::from(p.clone()).0, ra, "{t}: vector from point");
  same!(Point::from(u.clone()).array, ra, "{t}: point from vector");
  let r: &Vector<T, N> = (&p).into();
  same!(r.0, ra, "{t}: borrowed vector from point");
  let view: VectorView<'_, T, N> = (&p).into();
  same!(*view.0, ra, "{t}: view of point");
  for i in 0..N {
    ensure_eq!(p[i].rat(), ra[i], "{t}: index {i} of {p:?}");
    ensure_eq!(u[i].rat(), ra[i], "{t}: index {i} of {u:?}");
    ensure_eq!(p.get(i).map(|x| x.rat()), Some(ra[i].clone()), "{t}: coordinate {i} of {p:?}");
  }
  ensure_eq!(p.map(|x| x.rat() * q(2)).array, ra.clone().map(|x| x * q(2)), "{t}: map of {p:?}");
  ensure_eq!(u.map(|x| x.rat() - q(1)).0, ra.clone().map(|x| x - q(1)), "{t}: map of {u:?}");
  // squares, where they fit
  let s2 = |z: &[Q; N]| z.iter().map(|x| x * x).sum::<Q>();
  if T::NAME != "i8" && T::NAME != "i16" && !(T::NAME == "i32" && m > 10_000) {
    let lim = if T::NAME.contains("32>") || T::NAME == "f32" { 24 } else if T::NAME.contains('f') || T::NAME.contains("64>") { 53 } else { 62 };
    if s2(&ra) * q(256) < Q::from(BigInt::one() << lim) || T::NAME == "BigInt" || T::RATIONAL {
      ensure_eq!(u.squared_magnitude().rat(), s2(&ra), "{t}: squared magnitude of {u:?}");
    }
  }
  Ok(())
}
fn arith_types(s: &mut Src, c: &mut Ctx) -> R {
  macro_rules! all {
    ($($t:ty)*) => { [$( arith::<$t, 2> as fn(&mut Src, &mut Ctx) -> R, arith::<$t, 3>, arith::<$t, 1>, arith::<$t, 4> ),*] };
  }
  let f = all![
    i64 i8 f64 i16 i32 isize f32 OrderedFloat<f64> OrderedFloat<f32> NotNan<f64> NotNan<f32> BigInt BigRational rug::Integer
  ];
  f[s.below(f.len())](s, c)
}

#[derive(Clone, Debug)]
enum Step<const N: usize> {
  Move([Q; N]),
  Scale([Q; N]),
  Uniform(Q),
}
fn apply<const N: usize>(st: &Step<N>, p: &[Q; N]) -> [Q; N] {
  match st {
    Step::Move(v) => zip(p, v, |x, y| x + y),
    Step::Scale(v) => zip(p, v, |x, y| x * y),
    Step::Uniform(f) => p.clone().map(|x| x * f),
  }
}
/// Products of transforms, bracketed in any way, by value and by reference, applied to
/// points, vectors and polygons.
fn affine<T, const N: usize>(s: &mut Src, c: &mut Ctx) -> Result<Option<(Transform<T, N>, Vec<Step<N>>, Emb)>, String>
where
  T: Sc + One + Zero,
{
  let t = T::NAME;
  let (m, mt, ms, k) = sizes::<T>();
  let e = unit::<T>(s);
  // scale factors are small fractions only where the type has them
  let es = if T::NAME.contains("32") && T::NAME != "i32" { Emb::ID } else { unit::<T>(s) };
  let k = s.usize(1, k);
  let mut ts: Vec<Transform<T, N>> = vec![];
  let mut steps: Vec<Step<N>> = vec![];
  for _ in 0..k {
    match s.below(3) {
      0 => {
        let v: [T; N] = arr(s, mt, &e);
        steps.push(Step::Move(rs(&v)));
        ts.push(Transform::translate(Vector(v)));
      }
      1 => {
        let v: [T; N] = arr(s, ms, &es);
        steps.push(Step::Scale(rs(&v)));
        ts.push(Transform::scale(Vector(v)));
      }
      _ => {
        let f = T::of(s.sym(ms) as i128, &es);
        steps.push(Step::Uniform(f.rat()));
        ts.push(Transform::uniform_scale(f));
      }
    }
  }
  let a: [T; N] = arr(s, m, &e);
  let ra = rs(&a);
  let order: Vec<usize> = (0..k).map(|_| s.below(k)).collect();
  c.case(&(format!("{steps:?}"), &ra, &order, t), || format!("{t} {N} dimensions: {steps:?} on {a:?}, bracketed {order:?}"));
  c.class(t);
  let moves = steps.iter().any(|x| matches!(x, Step::Move(_)));
  c.nontrivial_if(moves && k >= 2);
  // every value on the way must be exactly representable
  let fits = |x: &Q| {
    if T::NAME == "BigInt" || T::RATIONAL {
      return true;
    }
    let bits = match T::NAME {
      "f64" | "OrderedFloat<f64>" | "NotNan<f64>" => 52,
      "f32" | "OrderedFloat<f32>" | "NotNan<f32>" => 23,
      "i8" => 6,
      "i16" => 14,
      "i32" => 30,
      _ => 62,
    };
    // in units of 2^-24 for floats
    if T::EXP.0 < 0 {
      let y = x * Q::from(BigInt::one() << 24);
      y.is_integer() && {
        let z = y.to_integer().abs();
        z.is_zero() || z.bits() - z.trailing_zeros().unwrap_or(0) <= bits
      }
    } else {
      x.abs().to_integer().bits() <= bits
    }
  };
  // all partial products of consecutive steps, on the point and on the origin
  for i in 0..k {
    let mut x = ra.clone();
    let mut z: [Q; N] = std::array::from_fn(|_| Q::zero());
    let mut o: [Q; N] = std::array::from_fn(|_| Q::one());
    for st in steps[..k - i].iter().rev() {
      x = apply(st, &x);
      z = apply(st, &z);
      if !matches!(st, Step::Move(_)) {
        o = apply(st, &o);
      }
      let lin = zip(&o, &ra, |a, b| a * b);
      if ![&x, &z, &o, &lin].iter().all(|v| v.iter().all(|y| fits(y) && fits(&(y * q(2))))) {
        return Ok(None);
      }
    }
  }
  let want = steps.iter().rev().fold(ra.clone(), |x, st| apply(st, &x));
  // one at a time, right to left
  let mut p = Point::new(a.clone());
  for x in ts.iter().rev() {
    p = x * &p;
  }
  same!(p.array, want, "{t}: {steps:?} one by one on {a:?}");
  // bracketed in the chosen order
  let mut parts = ts.clone();
  for o in order {
    if parts.len() == 1 {
      break;
    }
    let i = o % (parts.len() - 1);
    let r = parts.remove(i + 1);
    let l = parts.remove(i);
    parts.insert(i, if o % 2 == 0 { l * r } else { &l * &r });
  }
  while parts.len() > 1 {
    let r = parts.pop().unwrap();
    let l = parts.pop().unwrap();
    parts.push(l * r);
  }
  let all = parts.pop().unwrap();
  let (p, v) = (Point::new(a.clone()), Vector(a.clone()));
  same!((&all * &p).array, want, "{t}: &{steps:?} * &{p:?}");
  same!((&all * p.clone()).array, want, "{t}: &{steps:?} * {p:?}");
  same!((all.clone() * p.clone()).array, want, "{t}: {steps:?} * {p:?}");
  let by = [&all * &v, &all * v.clone(), all.clone() * &v];
  for x in &by {
    same!(x.0, want, "{t}: {steps:?} on {v:?}");
  }
  Ok(Some((all, steps, e)))
}
fn flat<T: Sc + One + Zero>(s: &mut Src, c: &mut Ctx) -> R {
  let Some((all, steps, e)) = affine::<T, 2>(s, c)? else { return Ok(()) };
  // polygons: every vertex and nothing else
  let (m, ..) = sizes::<T>();
  let n = s.usize(1, 8);
  let p: Vec<P> = (0..n).map(|_| [s.sym(m.min(9)), s.sym(m.min(9))]).collect();
  let st = if n < 3 { 0 } else { shapes::store(s) };
  let poly = shapes::polygon::<T>(&p, &e, st);
  let want: Vec<[Q; 2]> = poly
    .iter_boundary()
    .map(|k| steps.iter().rev().fold(r2(&k.point().array), |x, st| apply(st, &x)))
    .collect();
  let ids = poly.boundary_slice().to_vec();
  let t = T::NAME;
  let made = [&all * &poly, &all * poly.clone(), all.clone() * poly.clone(), all.clone() * &poly];
  for (i, y) in made.iter().enumerate() {
    let got: Vec<[Q; 2]> = y.iter_boundary().map(|k| r2(&k.point().array)).collect();
    ensure_eq!(got, want, "{t}: {steps:?} on polygon {p:?} (variant {i})");
    ensure_eq!(y.boundary_slice().to_vec(), ids, "{t}: ids after {steps:?} on polygon {p:?} (variant {i})");
    for id in &ids {
      ensure_eq!(y.cursor(*id).point_id(), *id, "{t}: cursor after {steps:?} on polygon {p:?}");
    }
  }
  Ok(())
}
fn deep<T: Sc + One + Zero>(s: &mut Src, c: &mut Ctx) -> R {
  match s.below(3) {
    0 => affine::<T, 3>(s, c).map(|_| ()),
    1 => affine::<T, 1>(s, c).map(|_| ()),
    _ => affine::<T, 4>(s, c).map(|_| ()),
  }
}
fn transforms(s: &mut Src, c: &mut Ctx) -> R {
  macro_rules! all {
    ($($t:ty)*) => { [$( flat::<$t> as fn(&mut Src, &mut Ctx) -> R, flat::<$t>, deep::<$t> ),*] };
  }
  let f = all![
    i64 f64 BigRational i32 i16 i8 isize f32 OrderedFloat<f64> OrderedFloat<f32> NotNan<f64> NotNan<f32> BigInt
  ];
  f[s.below(f.len())](s, c)
}

/// Normalizing: centroid at the origin, larger extent one, shape kept.
fn normal(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[4i64, 8, 30, 100]);
  let p = gen::simple_polygon(s, 14, m);
  let st = shapes::store(s);
  let mut e = Emb::ID;
  e.add = [s.sym(100) as i128, s.sym(100) as i128];
  e.exp = if s.flip() { s.range(-20, 20) } else { s.range(-150, 150) } as i32;
  c.case(&(&p, &e, st), || format!("normalize {p:?} moved by {:?}, times 2^{}", e.add, e.exp));
  c.nontrivial_if(p.len() >= 4);
  let poly = shapes::polygon::<OrderedFloat<f64>>(&p, &e, st);
  let ids = poly.boundary_slice().to_vec();
  let r = ring(&poly, &e)?;
  // exact answer in canonical coordinates
  let n = r.len();
  let a2 = q(geo::area2(&r) as i64);
  let mut cx = [Q::zero(), Q::zero()];
  for i in 0..n {
    let (a, b) = (r[i], r[(i + 1) % n]);
    let w = q(a[0] * b[1] - a[1] * b[0]);
    for k in 0..2 {
      cx[k] += q(a[k] + b[k]) * &w;
    }
  }
  let cx = cx.map(|x| x / (q(3) * &a2));
  let (lo, hi) = geo::bbox(&r);
  let ext = q((hi[0] - lo[0]).max(hi[1] - lo[1]));
  let check = |y: &Polygon<OrderedFloat<f64>>, what: &str| -> R {
    ensure_eq!(y.boundary_slice().to_vec(), ids, "ids after {what} of {p:?}");
    for (k, cur) in y.iter_boundary().enumerate() {
      for d in 0..2 {
        let want = ((q(r[k][d]) - &cx[d]) / &ext).to_f64().unwrap();
        let got = cur.point().array[d].into_inner();
        ensure!(
          (got - want).abs() <= 1e-6,
          "{what} of {p:?} (moved by {:?}, times 2^{}): coordinate {d} of vertex {k} is {got} instead of {want}",
          e.add,
          e.exp
        );
      }
    }
    Ok(())
  };
  check(&poly.normalize(), "normalize")?;
  if geo::is_strictly_convex_ccw(&r) {
    c.class("convex");
    let cv = PolygonConvex::new_unchecked(poly.clone());
    check(cv.normalize().polygon(), "normalize (convex)")?;
  }
  let _ = Q::from_i64(1);
  Ok(())
}

static SPEC: Spec = Spec {
  id: "C24",
  rule: "Points and vectors of one to four dimensions in 14 scalar types (fractions where the type has them) under every arithmetic operator and its by-value, by-reference, view and assigning variants; products of one to five translations, scalings and uniform scalings bracketed in any order and applied to points, vectors and polygons (any storage order) in 13 types; normalization of simple polygons moved and scaled. Oracle: coordinate-wise rational arithmetic. Non-trivial: different operands and non-zero factor; two transforms including a translation; four vertices.",
  assumptions: &[
    "values are chosen so that no intermediate result overflows or rounds (normalization: compared within 1e-6)",
    "transforming a vector acts on it as on the point with the same coordinates, as the library does",
  ],
  parts: &[
    Part { name: "arith", quick: 620_000, thorough: 10_000_000, len: 40, run: arith_types },
    Part { name: "transforms", quick: 370_000, thorough: 6_000_000, len: 80, run: transforms },
    Part { name: "normalize", quick: 150_000, thorough: 2_000_000, len: 110, run: normal },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
