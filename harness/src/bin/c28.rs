//! C28: conversions between number types and between representations keep every value.
use num::{BigInt, BigRational, One, Signed, ToPrimitive, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::*;
use rgeometry::Orientation;
use rgeometry::TotalOrd;
use vharness::*;

fn q(x: i64) -> Q {
  Q::from(BigInt::from(x))
}
fn rats<T: Sc, const N: usize>(a: &[T; N]) -> [Q; N] {
  std::array::from_fn(|i| a[i].rat())
}

/// One widening conversion, of points, vectors and polygons; every predicate keeps its answer.
fn widen<T, U>(s: &mut Src, c: &mut Ctx) -> R
where
  T: Coord + Into<U>,
  U: Sc,
{
  let (t, u) = (T::NAME, U::NAME);
  let v: Vec<[T; 2]> = degenerate_points::<T>(s, 4);
  let st = s.below(3) as u64;
  c.case(&(format!("{v:?}"), t, u, st), || format!("{t} to {u}: {v:?}"));
  c.class(t);
  c.class(u);
  let p: Vec<Point<T>> = v.iter().cloned().map(Point::new).collect();
  let w: Vec<Point<U>> = p.iter().map(|x| x.cast::<U>()).collect();
  c.nontrivial_if(v.iter().any(|x| x[0].extreme() || x[1].extreme()) || Point::orient(&p[0], &p[1], &p[2]).is_colinear());
  for (a, b) in p.iter().zip(&w) {
    ensure_eq!(rats(&b.array), rats(&a.array), "{t} to {u}: cast of {a:?}");
    let x = Vector(a.array.clone());
    ensure_eq!(rats(&x.cast::<U>().0), rats(&a.array), "{t} to {u}: cast of {x:?}");
    let three = Point::new([a.array[0].clone(), a.array[1].clone(), a.array[0].clone()]);
    ensure_eq!(rats(&three.cast::<U>().array), rats(&three.array), "{t} to {u}: cast of {three:?}");
    let one = Vector([a.array[1].clone()]);
    ensure_eq!(rats(&one.cast::<U>().0), rats(&one.0), "{t} to {u}: cast of {one:?}");
    ensure_eq!(rats(&a.map(|x| -> U { x.into() }).array), rats(&a.array), "{t} to {u}: map of {a:?}");
    ensure_eq!(rats(&x.map(|x| -> U { x.into() }).0), rats(&a.array), "{t} to {u}: map of {x:?}");
  }
  let o = |x: Orientation| x;
  ensure_eq!(o(Point::orient(&w[0], &w[1], &w[2])), o(Point::orient(&p[0], &p[1], &p[2])), "{t} to {u}: orientation of {p:?}");
  ensure_eq!(w[0].cmp_distance_to(&w[1], &w[2]), p[0].cmp_distance_to(&p[1], &p[2]), "{t} to {u}: distances of {p:?}");
  ensure_eq!(w[0].total_cmp(&w[1]), p[0].total_cmp(&p[1]), "{t} to {u}: order of {p:?}");
  if p[1] != p[0] && p[2] != p[0] {
    ensure_eq!(w[0].ccw_cmp_around(&w[1], &w[2]), p[0].ccw_cmp_around(&p[1], &p[2]), "{t} to {u}: angles of {p:?}");
  }
  // polygons: every vertex in its place
  let mut poly = Polygon::new_unchecked(p.clone());
  if st == 1 {
    poly = Polygon::new_unchecked(p.iter().rev().cloned().collect());
    let _ = poly.ensure_ccw();
  }
  let ids = poly.boundary_slice().to_vec();
  let big: Polygon<U> = poly.clone().cast();
  ensure_eq!(big.boundary_slice().to_vec(), ids, "{t} to {u}: ids of {poly:?}");
  for id in &ids {
    ensure_eq!(rats(&big.point(*id).array), rats(&poly.point(*id).array), "{t} to {u}: vertex {id:?} of {poly:?}");
    ensure_eq!(big.cursor(*id).point_id(), *id, "{t} to {u}: cursor {id:?} of {poly:?}");
    ensure_eq!(big.cursor(*id).next().point_id(), poly.cursor(*id).next().point_id(), "{t} to {u}: after {id:?} in {poly:?}");
  }
  ensure!(big.iter().zip(poly.iter()).all(|(a, b)| rats(&a.array) == rats(&b.array)), "{t} to {u}: points of {poly:?}");
  Ok(())
}
fn widen_types(s: &mut Src, c: &mut Ctx) -> R {
  macro_rules! all {
    ($($t:ty => $($u:ty),*;)*) => { [$($( widen::<$t, $u> as fn(&mut Src, &mut Ctx) -> R ),*),*] };
  }
  let f = all! {
    i8 => i8, i16, i32, i64, isize, f32, f64, OrderedFloat<f64>, OrderedFloat<f32>, NotNan<f64>, NotNan<f32>, BigInt, rug::Integer;
    i16 => i16, i32, i64, isize, f32, f64, OrderedFloat<f64>, NotNan<f64>, BigInt, rug::Integer;
    i32 => i32, i64, f64, OrderedFloat<f64>, NotNan<f64>, BigInt, rug::Integer;
    i64 => i64, BigInt, rug::Integer;
    isize => isize, BigInt, rug::Integer;
    f32 => f32, f64, OrderedFloat<f32>;
    f64 => f64, OrderedFloat<f64>;
    NotNan<f64> => NotNan<f64>, f64;
    NotNan<f32> => f32;
    BigInt => BigInt, BigRational;
  };
  f[s.below(f.len())](s, c)
}

/// To OrderedFloat<f64>, which the drawing code uses.
fn float<T>(s: &mut Src, c: &mut Ctx) -> R
where
  T: Coord + Into<f64>,
{
  let t = T::NAME;
  let v: Vec<[T; 2]> = degenerate_points::<T>(s, 4);
  c.case(&(format!("{v:?}"), t), || format!("{t} to float: {v:?}"));
  c.class(t);
  c.nontrivial_if(v[0] != v[1]);
  let p: Vec<Point<T>> = v.iter().cloned().map(Point::new).collect();
  for a in &p {
    ensure_eq!(rats(&a.to_float().array), rats(&a.array), "{t}: to_float of {a:?}");
    let three = Point::new([a.array[1].clone(), a.array[1].clone(), a.array[0].clone()]);
    ensure_eq!(rats(&three.to_float().array), rats(&three.array), "{t}: to_float of {three:?}");
  }
  let mut poly = Polygon::new_unchecked(p.clone());
  if s.below(2) == 1 {
    // The boundary may run against the storage order.
    let _ = poly.ensure_ccw();
  }
  c.class(if poly.boundary_slice()[0].usize() == 0 { "stored in boundary order" } else { "stored in another order" });
  let fl = poly.clone().float();
  let want: Vec<[Q; 2]> = poly.iter_boundary().map(|x| rats(&x.point().array)).collect();
  let mapped = poly.clone().map(|x| -> f64 { x.into() });
  let got: Vec<[Q; 2]> = mapped.iter_boundary().map(|x| rats(&x.point().array)).collect();
  ensure_eq!(got, want, "{t}: map of {poly:?}");
  let got: Vec<[Q; 2]> = fl.iter_boundary().map(|x| rats(&x.point().array)).collect();
  ensure_eq!(got, want, "{t}: float of {poly:?}");
  let cf = PolygonConvex::new_unchecked(poly.clone()).float();
  let got: Vec<[Q; 2]> = cf.iter_boundary().map(|x| rats(&x.point().array)).collect();
  ensure_eq!(got, want, "{t}: float of the convex {poly:?}");
  for id in poly.boundary_slice() {
    ensure_eq!(fl.cursor(*id).point_id(), *id, "{t}: float of {poly:?}");
    ensure_eq!(mapped.cursor(*id).point_id(), *id, "{t}: map of {poly:?}");
    ensure_eq!(rats(&fl.point(*id).array), rats(&poly.point(*id).array), "{t}: vertex {id:?} of the float of {poly:?}");
    ensure_eq!(cf.cursor(*id).point_id(), *id, "{t}: float of the convex {poly:?}");
  }
  Ok(())
}
fn float_types(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    float::<i8> as fn(&mut Src, &mut Ctx) -> R,
    float::<f64>,
    float::<i32>,
    float::<i16>,
    float::<f32>,
    float::<NotNan<f64>>,
    float::<OrderedFloat<f64>>,
  ];
  f[s.below(f.len())](s, c)
}

/// Doubles to fractions and back; values that are no numbers are refused.
fn fractions(s: &mut Src, c: &mut Ctx) -> R {
  let any = |s: &mut Src| -> f64 {
    match s.below(5) {
      0 => s.sym(100) as f64,
      1 => s.sym(1 << 53) as f64 * (2f64).powi(s.range(-1000, 900) as i32),
      2 => f64::from_bits(s.raw64()),
      3 => s.pick(&[0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::from_bits(1), -f64::from_bits(3), 0.1, 1.0 / 3.0]),
      _ => s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0, -f64::NAN]),
    }
  };
  let fl: [f64; 2] = [any(s), any(s)];
  let three = [fl[0], any(s), fl[1]];
  c.case(&(fl.map(f64::to_bits), three[1].to_bits()), || format!("fractions of {fl:?} and {:?}", three[1]));
  let finite = fl.iter().all(|x| x.is_finite());
  c.class_if(!finite, "not-finite");
  c.class_if(fl.iter().any(|x| x.is_subnormal()), "subnormal");
  c.nontrivial_if(fl.iter().any(|x| x.fract() != 0.0));
  let p = Point::new(fl);
  let r = Vector::<BigRational, 2>::try_from(Vector(fl));
  ensure_eq!(r.is_ok(), finite, "fractions from the vector {fl:?}");
  let r3 = Vector::<BigRational, 3>::try_from(Vector(three));
  ensure_eq!(r3.is_ok(), three.iter().all(|x| x.is_finite()), "fractions from the vector {three:?}");
  if let Ok(r3) = r3 {
    ensure_eq!(r3.0, three.map(|x| BigRational::from_float(x).unwrap()), "fractions from the vector {three:?}");
  }
  if finite {
    let want = fl.map(|x| BigRational::from_float(x).unwrap());
    ensure_eq!(r.unwrap().0, want, "fractions from the vector {fl:?}");
    ensure_eq!(Point::<BigRational>::from(&p).array, want, "fractions from {fl:?}");
    ensure_eq!(Point::<BigRational>::from(p).array, want, "fractions from {fl:?}, by value");
    let b = Point::<BigRational>::new(want);
    ensure_eq!(Point::<f64>::from(&b).array, fl, "doubles from {b:?}");
    ensure_eq!(Point::<f64>::from(b.clone()).array, fl, "doubles from {b:?}, by value");
    let vf = Point::from(Vector(fl));
    ensure_eq!(vf.array, fl, "point from the vector {fl:?}");
  } else {
    ensure!(catching(|| Point::<BigRational>::from(&p)).is_err(), "fractions from {fl:?}");
    ensure!(catching(|| Point::<BigRational>::from(p)).is_err(), "fractions from {fl:?}, by value");
  }
  // numbers only
  let nan = fl.iter().any(|x| x.is_nan());
  let got = catching(|| Point::new_nn(fl));
  ensure_eq!(got.is_err(), nan, "new_nn of {fl:?}");
  if let Ok(g) = got {
    ensure_eq!(g.array.map(|x| x.into_inner()), fl, "new_nn of {fl:?}");
  }
  let got = Point::<NotNan<f64>>::try_from(p);
  ensure_eq!(got.is_err(), nan, "NotNan from {fl:?}");
  if let Ok(g) = got {
    ensure_eq!(g.array.map(|x| x.into_inner()), fl, "NotNan from {fl:?}");
  }
  let nan3 = three.iter().any(|x| x.is_nan());
  ensure_eq!(Point::<NotNan<f64>, 3>::try_from(Point::new(three)).is_err(), nan3, "NotNan from {three:?}");
  let f3 = three.map(|x| x as f32);
  ensure_eq!(catching(|| Point::new_nn(f3)).is_err(), nan3, "new_nn of {f3:?}");
  Ok(())
}

/// Fractions that are no doubles go to a neighbouring double.
fn rounding(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.below(5);
  let r = [BigRational::coord(s, m), BigRational::coord(s, m)];
  c.case(&format!("{r:?}"), || format!("doubles of {r:?}"));
  let p = Point::new(r.clone());
  let f = Point::<f64>::from(&p);
  ensure_eq!(Point::<f64>::from(p.clone()).array, f.array, "doubles of {p:?} by value and by reference");
  for k in 0..2 {
    let x = f.array[k];
    ensure!(x.is_finite(), "double of {} is {x}", r[k]);
    let back = BigRational::from_float(x).unwrap();
    c.nontrivial_if(back != r[k]);
    if BigRational::from_f64_exact(&r[k]) {
      ensure_eq!(back, r[k], "double of {}", r[k]);
    }
    // within one unit in the last place
    let err = (&back - &r[k]).abs();
    let ulp = if x == 0.0 { BigRational::new(BigInt::one(), BigInt::one() << 1000) } else { back.abs() / (BigInt::one() << 52) };
    ensure!(err <= ulp, "double of {} is {x}", r[k]);
    ensure!(x == 0.0 || (x > 0.0) == r[k].is_positive(), "sign of the double of {}", r[k]);
  }
  // order is kept
  let o = r[0].cmp(&r[1]);
  let g = f.array[0].partial_cmp(&f.array[1]).unwrap();
  ensure!(g == o || g.is_eq(), "doubles of {r:?} are out of order");
  Ok(())
}
trait Exact {
  fn from_f64_exact(r: &BigRational) -> bool;
}
impl Exact for BigRational {
  fn from_f64_exact(r: &BigRational) -> bool {
    r.to_f64().and_then(BigRational::from_float).map(|x| x == *r).unwrap_or(false)
  }
}

/// Distances in a wider type, constants, accessors and other constructors.
fn parts(s: &mut Src, c: &mut Ctx) -> R {
  let (a, b) = ([s.sym(127), s.sym(127), s.sym(127)], [s.sym(127), s.sym(127), s.sym(127)]);
  let big = [s.raw64() as i64, s.pick(&[i64::MIN, i64::MAX, 0, -1])];
  let big2 = [s.raw64() as i64, s.pick(&[i64::MAX, i64::MIN, 1, 0])];
  c.case(&(a, b, big, big2), || format!("{a:?} {b:?} {big:?} {big2:?}"));
  c.nontrivial_if(a != b);
  let (f, g) = ([a[0], a[1]], [b[0], b[1]]);
  let d = geo::dist2(f, g) as i64;
  let (pa, pb) = (Point::new(f.map(|x| x as i8)), Point::new(g.map(|x| x as i8)));
  ensure_eq!(pa.squared_euclidean_distance::<i64>(&pb), d, "distance {f:?} {g:?}");
  ensure_eq!(pb.squared_euclidean_distance::<i32>(&pa) as i64, d, "distance {g:?} {f:?}");
  ensure_eq!(pa.squared_euclidean_distance::<f64>(&pb), d as f64, "distance {f:?} {g:?}");
  ensure_eq!(pa.squared_euclidean_distance::<f32>(&pb), d as f32, "distance {f:?} {g:?}");
  ensure_eq!(pa.squared_euclidean_distance::<BigInt>(&pb), BigInt::from(d), "distance {f:?} {g:?}");
  let (p3, q3) = (Point::new(a.map(|x| x as i8)), Point::new(b.map(|x| x as i8)));
  let d3: i64 = (0..3).map(|i| (a[i] - b[i]).pow(2)).sum();
  ensure_eq!(p3.squared_euclidean_distance::<i64>(&q3), d3, "distance {a:?} {b:?}");
  let (p1, q1) = (Point::new([a[0] as i8]), Point::new([b[0] as i8]));
  ensure_eq!(p1.squared_euclidean_distance::<i64>(&q1), (a[0] - b[0]).pow(2), "distance {} {}", a[0], b[0]);
  let (pi, pj) = (Point::new(big), Point::new(big2));
  let want: BigInt = (0..2).map(|k| BigInt::from(big[k] as i128 - big2[k] as i128).pow(2)).sum();
  ensure_eq!(pi.squared_euclidean_distance::<BigInt>(&pj), want, "distance {big:?} {big2:?}");
  ensure_eq!(pj.squared_euclidean_distance::<BigInt>(&pi), want, "distance {big2:?} {big:?}");
  ensure_eq!(Point::<BigInt>::from(pi).array, big.map(BigInt::from), "BigInt point from {big:?}");
  // constants
  macro_rules! constants {
    ($($t:ty)*) => { $(
      let k = a[0] as i8;
      ensure_eq!(<$t as rgeometry::PolygonScalar>::from_constant(k).rat(), q(k as i64), "{}: constant {k}", stringify!($t));
      let z = Point::<$t, 3>::zero();
      ensure!(z.array.iter().all(|x| x.rat().is_zero()), "{}: zero {z:?}", stringify!($t));
      let right = Vector::<$t, 2>::unit_right();
      ensure_eq!(rats(&right.0), [q(1), q(0)], "{}: unit_right", stringify!($t));
    )* };
  }
  constants!(i8 i16 i32 i64 isize f32 f64 OrderedFloat<f32> OrderedFloat<f64> NotNan<f32> NotNan<f64> BigInt BigRational rug::Integer);
  // accessors and plain conversions
  let p = Point::new(a);
  ensure_eq!((*p.x_coord(), *p.y_coord(), *p.z_coord()), (a[0], a[1], a[2]), "coordinates of {p:?}");
  let p2 = Point::from((a[0], a[1]));
  ensure_eq!((p2.array, *p2.x_coord(), *p2.y_coord()), (f, a[0], a[1]), "point from a pair {f:?}");
  let p1 = Point::new([a[2]]);
  ensure_eq!(*p1.x_coord(), a[2], "coordinate of {p1:?}");
  ensure_eq!((p[0], p[1], p[2]), (a[0], a[1], a[2]), "indexing {p:?}");
  ensure_eq!(p.as_vec().0, a, "vector of {p:?}");
  ensure_eq!(Vector::from(p).0, a, "vector from {p:?}");
  ensure_eq!(Point::from(Vector(a)).array, a, "point from {a:?}");
  let r: &Vector<i64, 3> = (&p).into();
  ensure_eq!((r.0, r[0], r[1], r[2]), (a, a[0], a[1], a[2]), "borrowed vector from {p:?}");
  ensure!(std::ptr::eq(&r.0, &p.array), "borrowed vector of {p:?} is a copy");
  let v: VectorView<'_, i64, 3> = (&p).into();
  ensure!(*v.0 == a && std::ptr::eq(v.0, &p.array), "view of {p:?}");
  // segments from pairs, and a triangle's ways in
  let seg = LineSegment::from((a[0], a[1])..(b[0], b[1]));
  if f != g {
    let (lo, hi) = (f.min(g), f.max(g));
    ensure_eq!((seg.min.inner().array, seg.max.inner().array), (lo, hi), "segment {f:?}..{g:?}");
    ensure_eq!((seg.min.is_inclusive(), seg.max.is_inclusive()), (lo == f, hi == f), "segment {f:?}..{g:?}");
  }
  // lines keep their origin and direction through every representation
  let (o, w) = (Point::new(f), Vector(g));
  let t = Point::new(g);
  for dir in [Direction::Vector(&w), Direction::Through(&t)] {
    let same = |l: &Line<'_, i64>, what: &str| -> R {
      ensure_eq!(l.origin.array, f, "{what}: origin of the line {f:?} {dir:?}");
      let got = match (&l.direction, &dir) {
        (Direction::Vector(x), Direction::Vector(_)) => x.0,
        (Direction::Through(x), Direction::Through(_)) => x.array,
        _ => return Err(format!("{what}: the line {f:?} {dir:?} became {l:?}")),
      };
      ensure_eq!(got, g, "{what}: direction of the line {f:?} {dir:?}");
      Ok(())
    };
    let line = Line::new(&o, dir);
    same(&line, "new")?;
    let ray = HalfLineSoS::from(line);
    same(&Line::from(ray), "ray")?;
    same(&Line::from(LineSoS::from(ray)), "line of a ray")?;
    same(&Line::from(LineSoS::from(line)), "perturbed line")?;
    same(&Line::from(HalfLineSoS::from(LineSoS::from(line))), "ray of a line")?;
    let owned = Line_ {
      origin: o,
      direction: match dir {
        Direction::Vector(v) => Direction_::Vector(v.clone()),
        Direction::Through(p) => Direction_::Through(*p),
      },
    };
    same(&Line::from(&owned), "owned")?;
    same(&Line::from(&owned.clone()), "clone")?;
    let so = LineSoS_::from(owned);
    same(&Line::from(LineSoS::from(&so)), "owned perturbed line")?;
  }
  same_dirs(&o, &w, &t)
}
fn same_dirs(o: &Point<i64>, w: &Vector<i64, 2>, t: &Point<i64>) -> R {
  let l = [Line::new_directed(o, w), HalfLineSoS::new_directed(o, w).into()];
  for x in l {
    ensure!(matches!(x.direction, Direction::Vector(v) if v == w) && x.origin == o, "directed line {x:?} from {o:?} {w:?}");
  }
  let l = [Line::new_through(o, t), HalfLineSoS::new_through(o, t).into()];
  for x in l {
    ensure!(matches!(x.direction, Direction::Through(v) if v == t) && x.origin == o, "line {x:?} from {o:?} through {t:?}");
  }
  Ok(())
}

static SPEC: Spec = Spec {
  id: "C28",
  rule: "Points, vectors and polygons of four points (degenerate configurations over small, extreme, power-of-two and full ranges) through 46 widening conversions between scalar types and to OrderedFloat<f64>, each value and every predicate compared; doubles of every kind (any bit pattern) to fractions, to NaN-free numbers and back; fractions that are no doubles; distances computed in a wider type; constants, accessors, lines and rays through every representation. Oracle: the exact rational value. Non-trivial: an extreme coordinate or a colinear triple (widening), different points (float, parts), a value with a fractional part (fractions), a value that is no double (rounding).",
  assumptions: &["a fraction that is no double may go to either neighbouring double", "conversions that can lose information (to OrderedFloat<f64>) are offered only from types whose values are all doubles"],
  parts: &[
    Part { name: "widen", quick: 800_000, thorough: 15_000_000, len: 60, run: widen_types },
    Part { name: "float", quick: 600_000, thorough: 6_000_000, len: 60, run: float_types },
    Part { name: "fractions", quick: 800_000, thorough: 10_000_000, len: 20, run: fractions },
    Part { name: "rounding", quick: 400_000, thorough: 4_000_000, len: 24, run: rounding },
    Part { name: "parts", quick: 800_000, thorough: 8_000_000, len: 20, run: parts },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
