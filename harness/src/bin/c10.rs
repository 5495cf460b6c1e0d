//! C10: point location in simple polygons is exact.
use num::{BigInt, BigRational};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::*;
use vharness::geo::Loc;
use vharness::*;

fn loc(l: PointLocation) -> Loc {
  match l {
    PointLocation::Inside => Loc::In,
    PointLocation::OnBoundary => Loc::On,
    PointLocation::Outside => Loc::Out,
  }
}
fn check<T: Sc>(p: &[P], poly: &Polygon<T>, q: P, tq: &Point<T>, c: &mut Ctx) -> R {
  let want = geo::locate(p, q);
  let level = p.iter().any(|v| v[1] == q[1]);
  c.class(match want {
    Loc::In => "inside",
    Loc::On => "on-boundary",
    Loc::Out => "outside",
  });
  c.class_if(level && want != Loc::On, "level-with-a-vertex");
  let n = p.len();
  c.class_if(
    want != Loc::On && (0..n).any(|i| p[i][1] == q[1] && p[(i + 1) % n][1] == q[1] && p[i][0].max(p[(i + 1) % n][0]) > q[0]),
    "ray-along-an-edge",
  );
  c.nontrivial_if(want != Loc::Out || level);
  ensure_eq!(loc(poly.locate(tq)), want, "{}: locate {q:?} ({tq:?}) in {p:?}", T::NAME);
  Ok(())
}

fn random<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[4i64, 2, 8, 30, 1000, 1_000_000]);
  let p = gen::simple_polygon(s, 24, m);
  let k = s.usize(1, 4);
  let qs: Vec<P> = (0..k).map(|_| gen::query_point(s, &p)).collect();
  let mut all = p.clone();
  all.extend(&qs);
  let (lo, hi) = geo::bbox(&all);
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let st = shapes::store(s);
  let mut poly = shapes::polygon::<T>(&p, &e, st);
  if st == 0 {
    let mut v = pts::<T>(&p, &e);
    if shapes::negative_zeros(s, &mut v) {
      poly = Polygon::new_unchecked(v);
    }
  }
  let mut tq = pts::<T>(&qs, &e);
  shapes::negative_zeros(s, &mut tq);
  c.case(&(&p, &qs, &e, st, T::NAME), || format!("{} locate {tq:?} in {:?}", T::NAME, pts::<T>(&p, &e)));
  c.class(T::NAME);
  c.class_if(st > 0, "storage-order-differs");
  for (q, t) in qs.iter().zip(&tq) {
    check(&p, &poly, *q, t, c)?;
  }
  Ok(())
}
fn types(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    random::<i64>,
    random::<i8>,
    random::<f64>,
    random::<i16>,
    random::<i32>,
    random::<isize>,
    random::<f32>,
    random::<OrderedFloat<f64>>,
    random::<OrderedFloat<f32>>,
    random::<NotNan<f64>>,
    random::<NotNan<f32>>,
    random::<BigInt>,
    random::<BigRational>,
    random::<rug::Integer>,
  ];
  f[s.weighted(&[3, 2, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1])](s, c)
}

/// Every simple counter-clockwise polygon with up to 6 vertices on the 3x3 grid, against
/// every half-integer point of the enclosing 5x5 box.
fn grid(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let mut k = 3;
  let mut total = 9 * 9 * 9;
  while k < 6 && i >= total {
    i -= total;
    total *= 9;
    k += 1;
  }
  if k == 6 {
    i = i.wrapping_mul(48271) % total;
  }
  let p: Vec<P> = (0..k)
    .map(|_| {
      let d = (i % 9) as i64;
      i /= 9;
      [d % 3 * 2, d / 3 * 2]
    })
    .collect();
  c.case(&p, || format!("grid {p:?}, all points of (-1..=5)^2"));
  if !geo::is_simple(&p) || geo::area2(&p) < 0 {
    return Ok(());
  }
  let poly = Polygon::new_unchecked(pts::<i64>(&p, &Emb::ID));
  for x in -1..=5 {
    for y in -1..=5 {
      check(&p, &poly, [x, y], &Point::new([x, y]), c)?;
    }
  }
  Ok(())
}

fn large(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[12i64, 40, 1000, 1_000_000]);
  let p = gen::simple_polygon(s, 150, m);
  let st = shapes::store(s);
  let poly = shapes::polygon::<i64>(&p, &Emb::ID, st);
  let qs: Vec<P> = (0..12).map(|_| gen::query_point(s, &p)).collect();
  c.case(&(&p, &qs, st), || format!("locate {qs:?} in {p:?}"));
  for q in &qs {
    check(&p, &poly, *q, &pt(*q, &Emb::ID), c)?;
  }
  Ok(())
}

/// Hundreds of vertices, rays that cross hundreds of edges.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[1000i64, 3, 40, 1_000_000]);
  let p = gen::huge_polygon(s, 1300, m);
  let st = shapes::store(s);
  let poly = shapes::polygon::<i64>(&p, &Emb::ID, st);
  let mut e = s.expand();
  let qs: Vec<P> = (0..60).map(|_| gen::query_point(&mut e, &p)).collect();
  c.case(&(&p, &qs, st), || format!("locate {qs:?} in {p:?}"));
  for q in &qs {
    let n = p.len();
    let hits = (0..n).filter(|i| (p[*i][1] <= q[1]) != (p[(*i + 1) % n][1] <= q[1])).count();
    c.class_if(hits > 300, "line-crossing-over-300-edges");
    check(&p, &poly, *q, &pt(*q, &Emb::ID), c)?;
  }
  Ok(())
}

/// Thousands to tens of thousands of vertices.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let (p, text) = giant::polygon(s, 70_000);
  let st = s.below(2) as u64;
  let poly = shapes::polygon::<i64>(&p, &Emb::ID, st);
  let mut e = s.expand();
  let qs: Vec<P> = (0..8).map(|_| gen::query_point(&mut e, &p)).collect();
  c.case(&(&text, &qs, st), || format!("locate {qs:?} in the {text}"));
  for q in &qs {
    let want = geo::locate(&p, *q);
    c.nontrivial_if(want != Loc::Out);
    ensure_eq!(loc(poly.locate(&pt(*q, &Emb::ID))), want, "locate {q:?} in the {text}");
  }
  Ok(())
}

/// Coordinates of every kind one type has, against the same in rationals.
fn raw(s: &mut Src, c: &mut Ctx) -> R {
  native::raw(s, c, &["locate"], 2)
}

static SPEC: Spec = Spec {
  id: "C10",
  rule: "Simple polygons (grown on a grid, star, monotone, comb, spiral, zigzag, convex, with colinear vertices) with the boundary starting anywhere and with given, reversed or scrambled internal storage, queried at vertices, lattice points of edges and diagonals, points level with a vertex, nudged vertices and random points; exactly embedded in 14 scalar types up to their extremes, with negative zeros; all simple polygons with up to five vertices (six: a spread sample; all in the thorough tier) on the 3x3 grid against all half-integer points around; polygons of up to 150 and of hundreds of vertices, with lines that cross hundreds of edges. Polygons of up to 70,000 vertices. Small lists with coordinates of every kind one type has (full range, neighbouring values, mixed magnitudes, exact and nudged continuations of lines), against the same in rationals. Non-trivial: the point is not outside, or it is level with a vertex.",
  assumptions: &["the half-open crossing rule over exact 128-bit integers is the reference"],
  parts: &[
    Part { name: "raw", quick: 20_000, thorough: 1_000_000, len: 300, run: raw },
    Part { name: "types", quick: 500_000, thorough: 8_000_000, len: 120, run: types },
    Part { name: "grid", quick: 160_000, thorough: 597_780, len: 0, run: grid },
    Part { name: "large", quick: 10_000, thorough: 300_000, len: 700, run: large },
    Part { name: "huge", quick: 1_000, thorough: 20_000, len: 24, run: huge },
    Part { name: "giant", quick: 120, thorough: 3000, len: 24, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
