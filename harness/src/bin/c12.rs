//! C12: area, centroid, bounding box and sampling agree with the exact shape.
use num::{BigInt, BigRational, FromPrimitive, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rand::distributions::uniform::SampleUniform;
use rgeometry::data::*;
use vharness::geo::Loc;
use vharness::*;

fn rats<T: Sc>(v: &[Point<T>]) -> Vec<[Q; 2]> {
  v.iter().map(|p| r2(&p.array)).collect()
}
fn area2(v: &[[Q; 2]]) -> Q {
  let n = v.len();
  // trapezoids against the lowest-level line: not the cross-product formula of the code
  (0..n)
    .map(|i| {
      let (a, b) = (&v[i], &v[(i + 1) % n]);
      (&a[0] - &b[0]) * (&a[1] + &b[1])
    })
    .sum()
}
/// First moments from the triangles of a fan around vertex 0.
fn centroid(v: &[[Q; 2]]) -> [Q; 2] {
  let mut m = [Q::zero(), Q::zero()];
  let mut w = Q::zero();
  for i in 1..v.len() - 1 {
    let t = rcross(&rsub(&v[i], &v[0]), &rsub(&v[i + 1], &v[0]));
    for k in 0..2 {
      m[k] += (&v[0][k] + &v[i][k] + &v[i + 1][k]) * &t;
    }
    w += t;
  }
  let d = w * Q::from_i64(3).unwrap();
  [&m[0] / &d, &m[1] / &d]
}
fn bbox(v: &[[Q; 2]]) -> [[Q; 2]; 2] {
  let f = |k: usize, max: bool| {
    let it = v.iter().map(|p| p[k].clone());
    if max { it.max() } else { it.min() }.unwrap()
  };
  [[f(0, false), f(1, false)], [f(0, true), f(1, true)]]
}
/// A cyclic vertex list (simple, either orientation) with its library polygon.
struct Case<T> {
  v: Vec<Point<T>>,
  r: Vec<[Q; 2]>,
  poly: Polygon<T>,
  unit: f64,
}
fn shape<T: Sc>(s: &mut Src, c: &mut Ctx, kmax: i128, big: bool) -> Option<Case<T>> {
  let m = s.pick(&[4i64, 2, 8, 30, 1000, 1_000_000]);
  let m = if (m as i128) < kmax { m } else { 8 };
  let p = if big { gen::huge_polygon(s, 700, m) } else { gen::simple_polygon(s, 24, m) };
  let (lo, hi) = geo::bbox(&p);
  let mut e = if kmax == i128::MAX { emb::<T>(s, lo, hi)? } else { Emb::ID };
  let far = |x: i64| x as i128 > T::RANGE.1 || T::RANGE.0 > x as i128 || (x as i128).abs() > kmax;
  if e == Emb::ID && lo.iter().chain(&hi).any(|x| far(*x)) {
    return None;
  }
  if kmax < i128::MAX && s.chance(1, 3) {
    // A power of two changes no mantissa.
    let lim = if T::RANGE.1 > 1 << 30 { 200 } else { 25 };
    e.exp = s.range(-lim, lim) as i32;
    c.class("scaled-by-2^k");
  }
  let st = shapes::store(s);
  let mut poly = shapes::polygon::<T>(&p, &e, st);
  let mut v: Vec<Point<T>> = poly.iter_boundary().map(|q| q.point().clone()).collect();
  let rev = s.chance(1, 4);
  if rev {
    v.reverse();
    poly = Polygon::new_unchecked(v.clone());
  }
  c.case(&(&p, &e, st, rev, T::NAME), || format!("{} {v:?}", T::NAME));
  c.class(T::NAME);
  c.class_if(rev, "clockwise");
  c.class_if(st > 0, "storage-order-differs");
  c.nontrivial_if(p.len() >= 4);
  let r = rats(&v);
  Some(Case { v, r, poly, unit: 2f64.powi(e.exp) })
}
fn check_box<T: Sc>(k: &Case<T>) -> R {
  let (lo, hi) = k.poly.bounding_box();
  ensure_eq!([r2(&lo.array), r2(&hi.array)], bbox(&k.r), "{}: bounding box of {:?}", T::NAME, k.v);
  Ok(())
}
fn tri<'a, T: Sc>(k: &'a Case<T>, s: &mut Src) -> ([&'a Point<T>; 3], Vec<[Q; 2]>) {
  let n = k.v.len();
  let i = [s.below(n), s.below(n), s.below(n)];
  (i.map(|j| &k.v[j]), i.iter().map(|j| k.r[*j].clone()).collect())
}
fn check_tri_box<T: Sc>(t: &TriangleView<'_, T>, r: &[[Q; 2]]) -> R {
  let (lo, hi) = t.bounding_box();
  ensure_eq!([r2(&lo.array), r2(&hi.array)], bbox(r), "{}: bounding box of the triangle {r:?}", T::NAME);
  Ok(())
}
/// Integers, results in BigInt.
fn int<T: Sc + Into<BigInt>>(s: &mut Src, c: &mut Ctx, big: bool) -> R {
  let Some(k) = shape::<T>(s, c, i128::MAX, big) else { return Ok(()) };
  let t = T::NAME;
  check_box(&k)?;
  let a: Q = area2(&k.r);
  ensure_eq!(Q::from(k.poly.signed_area_2x::<BigInt>()), a, "{t}: signed_area_2x of {:?}", k.v);
  // integer division truncates, as documented
  let half = a.to_integer() / BigInt::from(2);
  ensure_eq!(k.poly.signed_area::<BigInt>(), half, "{t}: signed_area in BigInt of {:?}", k.v);
  let (tv, tr) = tri(&k, s);
  let tv = TriangleView::new_unchecked(tv);
  check_tri_box(&tv, &tr)?;
  ensure_eq!(Q::from(tv.signed_area_2x::<BigInt>()), area2(&tr), "{t}: signed_area_2x of the triangle {tr:?}");
  ensure_eq!(tv.signed_area::<BigInt>(), area2(&tr).to_integer() / BigInt::from(2), "{t}: signed_area of the triangle {tr:?}");
  Ok(())
}
/// Narrow integers, results in wider machine integers and ratios of them.
fn wide<T: Sc + Into<F>, F>(s: &mut Src, c: &mut Ctx, big: bool) -> R
where
  F: num::traits::NumOps + std::iter::Sum + FromPrimitive + Clone + std::fmt::Debug + num::ToPrimitive,
{
  let Some(k) = shape::<T>(s, c, i128::MAX, big) else { return Ok(()) };
  let t = T::NAME;
  let a = area2(&k.r);
  let got = k.poly.signed_area_2x::<F>().to_i128().map(|x| Q::from(BigInt::from(x)));
  ensure_eq!(got, Some(a.clone()), "{t}: signed_area_2x in a wider integer of {:?}", k.v);
  let (tv, tr) = tri(&k, s);
  let tv = TriangleView::new_unchecked(tv);
  let got = tv.signed_area_2x::<F>().to_i128().map(|x| Q::from(BigInt::from(x)));
  ensure_eq!(got, Some(area2(&tr)), "{t}: signed_area_2x of the triangle {tr:?}");
  Ok(())
}
/// Exact rational results, from BigInt and BigRational coordinates.
fn ratio<T: Sc + Into<BigRational>>(s: &mut Src, c: &mut Ctx, big: bool) -> R {
  let Some(k) = shape::<T>(s, c, i128::MAX, big) else { return Ok(()) };
  let t = T::NAME;
  check_box(&k)?;
  let two = Q::from_i64(2).unwrap();
  let a = area2(&k.r);
  ensure_eq!(k.poly.signed_area_2x::<Q>(), a, "{t}: signed_area_2x of {:?}", k.v);
  ensure_eq!(k.poly.signed_area::<Q>(), &a / &two, "{t}: signed_area of {:?}", k.v);
  let (tv, tr) = tri(&k, s);
  let tv = TriangleView::new_unchecked(tv);
  check_tri_box(&tv, &tr)?;
  let b = area2(&tr);
  ensure_eq!(tv.signed_area_2x::<Q>(), b, "{t}: signed_area_2x of the triangle {tr:?}");
  ensure_eq!(tv.signed_area::<Q>(), &b / &two, "{t}: signed_area of the triangle {tr:?}");
  Ok(())
}
fn mass(s: &mut Src, c: &mut Ctx, big: bool) -> R {
  let Some(k) = shape::<BigRational>(s, c, i128::MAX, big) else { return Ok(()) };
  ensure_eq!(k.poly.centroid().array, centroid(&k.r), "BigRational: centroid of {:?}", k.v);
  Ok(())
}
/// Floats small enough that every intermediate value is exact (one rounding at the end
/// of the centroid). The tolerance is relative to the extent.
fn float<T: Sc + Into<f64>>(s: &mut Src, c: &mut Ctx, big: bool) -> R {
  let Some(k) = shape::<T>(s, c, if T::RANGE.1 > 1 << 30 { 20_000 } else { 120 }, big) else { return Ok(()) };
  let t = T::NAME;
  check_box(&k)?;
  let a = area2(&k.r);
  ensure_eq!(Q::from_float(k.poly.signed_area_2x::<f64>()), Some(a.clone()), "{t}: signed_area_2x of {:?}", k.v);
  let half = a / Q::from_i64(2).unwrap();
  ensure_eq!(Q::from_float(k.poly.signed_area::<f64>()), Some(half), "{t}: signed_area of {:?}", k.v);
  let (tv, tr) = tri(&k, s);
  let tv = TriangleView::new_unchecked(tv);
  check_tri_box(&tv, &tr)?;
  ensure_eq!(Q::from_float(tv.signed_area_2x::<f64>()), Some(area2(&tr)), "{t}: signed_area_2x of the triangle {tr:?}");
  let tol = if T::RANGE.1 > 1 << 30 { 1e-9 } else { 1e-4 };
  let g = k.poly.centroid();
  let w = centroid(&k.r);
  for i in 0..2 {
    let d = num::ToPrimitive::to_f64(&(g.array[i].rat() - &w[i])).unwrap_or(f64::MAX);
    let scale = num::ToPrimitive::to_f64(&w[i]).unwrap_or(0.0).abs() + k.unit;
    ensure!(d.abs() <= tol * scale, "{t}: centroid of {:?} is {g:?}, expected about {w:?}", k.v);
  }
  Ok(())
}

fn exact(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    int::<i64>,
    int::<i8>,
    int::<i16>,
    int::<i32>,
    int::<isize>,
    int::<BigInt>,
    wide::<i8, i32>,
    wide::<i8, i64>,
    wide::<i8, i128>,
    wide::<i16, i64>,
    wide::<i32, i128>,
    ratio::<BigInt>,
    ratio::<BigRational>,
    mass,
    mass,
    float::<f64>,
    float::<f32>,
    float::<OrderedFloat<f64>>,
    float::<NotNan<f64>>,
  ];
  f[s.below(f.len())](s, c, false)
}
/// Hundreds of vertices.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    int::<i64>,
    int::<i32>,
    int::<BigInt>,
    wide::<i16, i64>,
    wide::<i32, i128>,
    ratio::<BigRational>,
    mass,
    float::<f64>,
  ];
  f[s.below(f.len())](s, c, true)
}

fn sample<T: Sc + SampleUniform>(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[3i64, 1, 2, 6, 40, 1_000_000]);
  let p = [[s.sym(m), s.sym(m)], [s.sym(m), s.sym(m)], [s.sym(m), s.sym(m)]];
  let (lo, hi) = geo::bbox(&p);
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let mut p = p;
  let a = geo::area2(&p);
  if a < 0 {
    p.swap(0, 2);
  }
  // slivers need arbitrarily many draws
  let boxed = (hi[0] - lo[0]) as i128 * (hi[1] - lo[1]) as i128;
  if a.abs() * 20 < boxed || a == 0 {
    return Ok(());
  }
  let v = pts::<T>(&p, &e);
  let mut rng = Rg::gen(s).limit(200_000);
  c.case(&(&p, &e, T::NAME), || format!("{} sample in {v:?}", T::NAME));
  c.class(T::NAME);
  c.nontrivial();
  let view = TriangleView::new_unchecked([&v[0], &v[1], &v[2]]);
  let r = rats(&v);
  for _ in 0..4 {
    let q = view.rejection_sampling(&mut rng);
    let x = r2(&q.array);
    for i in 0..3 {
      let o = rcross(&rsub(&r[(i + 1) % 3], &r[i]), &rsub(&x, &r[i]));
      ensure!(o >= Q::zero(), "{}: sampled point {q:?} is outside the triangle {v:?}", T::NAME);
    }
    ensure!(view.locate(&q) != PointLocation::Outside, "{}: sampled point {q:?} is located outside {v:?}", T::NAME);
  }
  Ok(())
}
fn sampling(s: &mut Src, c: &mut Ctx) -> R {
  let f = [sample::<i64>, sample::<i8>, sample::<f64>, sample::<i16>, sample::<i32>, sample::<isize>, sample::<f32>];
  f[s.below(f.len())](s, c)
}
/// Every lattice point of a small triangle is sampled eventually.
fn coverage(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let mut g = || {
    let d = (i % 16) as i64;
    i /= 16;
    [d % 4, d / 4]
  };
  let p = [g(), g(), g()];
  if geo::area2(&p) <= 0 {
    return Ok(());
  }
  c.case(&p, || format!("all lattice points of {p:?} are sampled"));
  c.nontrivial();
  let v: Vec<Point<i32>> = pts(&p, &Emb::ID);
  let view = TriangleView::new_unchecked([&v[0], &v[1], &v[2]]);
  let mut want: Vec<P> = (0..16).map(|i| [i % 4, i / 4]).filter(|q| geo::locate(&p, *q) != Loc::Out).collect();
  let mut rng = Rg::seeded(i ^ 77);
  for _ in 0..2_000 {
    let q = view.rejection_sampling(&mut rng);
    let q = [q.array[0] as i64, q.array[1] as i64];
    ensure!(geo::locate(&p, q) != Loc::Out, "sampled {q:?} outside the triangle {p:?}");
    want.retain(|w| *w != q);
    if want.is_empty() {
      return Ok(());
    }
  }
  Err(format!("never sampled from the triangle {p:?} in 2000 draws: {want:?}"))
}

/// Thousands to tens of thousands of vertices.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let (p, text) = giant::polygon(s, 70_000);
  let st = s.below(2) as u64;
  let poly = shapes::polygon::<i64>(&p, &Emb::ID, st);
  c.case(&(&text, st), || format!("area and box of the {text}"));
  c.nontrivial();
  let a = geo::area2(&p);
  ensure_eq!(poly.signed_area_2x::<i128>(), a, "signed_area_2x of the {text}");
  ensure_eq!(poly.signed_area::<i128>(), a / 2, "signed_area of the {text}");
  ensure_eq!(poly.orientation(), rgeometry::Orientation::CounterClockWise, "orientation of the {text}");
  let (lo, hi) = geo::bbox(&p);
  let (x, y) = poly.bounding_box();
  ensure_eq!((x.array, y.array), (lo, hi), "bounding box of the {text}");
  if p.len() < 9000 {
    let r: Vec<[Q; 2]> = p.iter().map(|q| q.map(|x| Q::from_i64(x).unwrap())).collect();
    let poly = shapes::polygon::<BigRational>(&p, &Emb::ID, st);
    ensure_eq!(poly.centroid().array, centroid(&r), "centroid of the {text}");
  }
  Ok(())
}

static SPEC: Spec = Spec {
  id: "C12",
  rule: "Simple polygons of seven families (up to 24, and hundreds of, vertices), either orientation, any boundary start and storage order, and triangles over their vertices (also degenerate): areas of integer coordinates in BigInt and wider machine integers up to the type extremes, areas and centroids of BigInt/BigRational coordinates in BigRational, areas of small floats exactly and centroids within 1e-9; bounding boxes; random sampling from triangles that fill at least a twentieth of their box, with adversarial and seeded random sources, and full coverage of the lattice points of all triangles on the 4x4 grid. Polygons of up to 70,000 vertices. Non-trivial: at least four vertices (sampling: every case).",
  assumptions: &["trapezoid and fan formulas over arbitrary-precision rationals are the reference"],
  parts: &[
    Part { name: "exact", quick: 300_000, thorough: 5_000_000, len: 130, run: exact },
    Part { name: "huge", quick: 800, thorough: 20_000, len: 24, run: huge },
    Part { name: "sampling", quick: 120_000, thorough: 2_000_000, len: 60, run: sampling },
    Part { name: "coverage", quick: 4_096, thorough: 4_096, len: 0, run: coverage },
    Part { name: "giant", quick: 120, thorough: 3000, len: 24, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
