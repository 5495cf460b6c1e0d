//! C11: point location in convex polygons and triangles is exact.
use num::{BigInt, BigRational};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::*;
use rgeometry::{Error, Orientation};
use vharness::geo::Loc;
use vharness::*;

fn loc(l: PointLocation) -> Loc {
  match l {
    PointLocation::Inside => Loc::In,
    PointLocation::OnBoundary => Loc::On,
    PointLocation::Outside => Loc::Out,
  }
}
fn seen(c: &mut Ctx, w: Loc) {
  c.class(match w {
    Loc::In => "inside",
    Loc::On => "on-boundary",
    Loc::Out => "outside",
  })
}
fn convex_check<T: Sc>(p: &[P], poly: &PolygonConvex<T>, q: P, tq: &Point<T>, c: &mut Ctx) -> R {
  let want = geo::locate(p, q);
  let n = p.len();
  seen(c, want);
  let diag = (2..n - 1).any(|i| geo::orient(p[0], p[i], q) == 0);
  c.class_if(diag, "on-the-line-of-a-diagonal-from-the-first-vertex");
  c.class_if(diag && want == Loc::In, "on-a-diagonal-from-the-first-vertex");
  c.nontrivial_if(want != Loc::Out || diag);
  ensure_eq!(loc(poly.locate(tq)), want, "{}: convex locate {q:?} ({tq:?}) in {p:?}", T::NAME);
  ensure_eq!(loc(poly.polygon().locate(tq)), want, "{}: general locate {q:?} ({tq:?}) in {p:?}", T::NAME);
  Ok(())
}
fn convex<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[4i64, 2, 8, 30, 1000, 1_000_000]);
  let n = s.usize(3, 14);
  let mut p = gen::convex(s, n, m);
  let r = s.below(p.len());
  p.rotate_left(r);
  let k = s.usize(1, 5);
  let mut qs: Vec<P> = vec![];
  for _ in 0..k {
    if s.chance(1, 3) {
      // a lattice point of a diagonal from the first vertex
      let j = s.below(p.len());
      let (a, b) = (p[0], p[j]);
      let g = {
        let (mut x, mut y) = ((b[0] - a[0]).abs(), (b[1] - a[1]).abs());
        while y != 0 {
          (x, y) = (y, x % y);
        }
        x.max(1)
      };
      let t = s.range(-1, g + 1);
      qs.push([a[0] + (b[0] - a[0]) / g * t, a[1] + (b[1] - a[1]) / g * t]);
    } else {
      qs.push(gen::query_point(s, &p));
    }
  }
  let mut all = p.clone();
  all.extend(&qs);
  let (lo, hi) = geo::bbox(&all);
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let st = shapes::store(s);
  let poly = PolygonConvex::new_unchecked(shapes::polygon::<T>(&p, &e, st));
  let mut tq = pts::<T>(&qs, &e);
  shapes::negative_zeros(s, &mut tq);
  c.case(&(&p, &qs, &e, st, T::NAME), || format!("{} locate {tq:?} in convex {:?}", T::NAME, pts::<T>(&p, &e)));
  c.class(T::NAME);
  // the boundary may start anywhere: report against the library's own start
  let ring = ring(&poly, &e)?;
  ensure!(geo::cyc_eq(&ring, &p), "harness: boundary {ring:?} of {p:?}");
  for (q, t) in qs.iter().zip(&tq) {
    convex_check(&ring, &poly, *q, t, c)?;
  }
  Ok(())
}
fn triangle_check<T: Sc>(p: &[P; 3], q: &[P], e: &Emb, c: &mut Ctx) -> R {
  let t = T::NAME;
  let v = pts::<T>(p, e);
  let arr = [v[0].clone(), v[1].clone(), v[2].clone()];
  let o = geo::orient(p[0], p[1], p[2]);
  let made = Triangle::new(arr.clone());
  ensure_eq!(made.is_ok(), o > 0, "{t}: Triangle::new({p:?})");
  ensure_eq!(TriangleView::new([&v[0], &v[1], &v[2]]).is_ok(), o > 0, "{t}: TriangleView::new({p:?})");
  if let Err(x) = made {
    ensure_eq!(x, Error::ClockWiseViolation, "{t}: Triangle::new({p:?})");
  }
  let want_o = match o {
    1 => Orientation::CounterClockWise,
    -1 => Orientation::ClockWise,
    _ => Orientation::CoLinear,
  };
  ensure_eq!(TriangleView::new_unchecked([&v[0], &v[1], &v[2]]).orientation(), want_o, "{t}: orientation of {p:?}");
  ensure_eq!(
    TriangleView::new_unchecked([&v[0], &v[1], &v[2]]).validate().is_ok(),
    o > 0,
    "{t}: TriangleView::validate {p:?}"
  );
  c.class_if(o == 0, "colinear-triangle");
  c.class_if(o < 0, "clockwise-triangle");
  if o == 0 {
    return Ok(());
  }
  let tri = Triangle::new_ccw(arr);
  ensure_eq!(tri.validate(), Ok(()), "{t}: Triangle::new_ccw({p:?}) is valid");
  let view = TriangleView::new_ccw([&v[0], &v[1], &v[2]]);
  ensure_eq!(view.validate(), Ok(()), "{t}: TriangleView::new_ccw({p:?}) is valid");
  for q in q {
    let want = geo::locate(&p[..], *q);
    seen(c, want);
    c.nontrivial_if(want != Loc::Out);
    let tq = pt::<T>(*q, e);
    ensure_eq!(loc(tri.locate(&tq)), want, "{t}: Triangle locate {q:?} in {p:?}");
    ensure_eq!(loc(view.locate(&tq)), want, "{t}: TriangleView locate {q:?} in {p:?}");
    ensure_eq!(loc(tri.view().locate(&tq)), want, "{t}: view().locate {q:?} in {p:?}");
  }
  Ok(())
}
fn triangle<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[3i64, 1, 2, 6, 40, 1_000_000]);
  let g = |s: &mut Src| [s.sym(m), s.sym(m)];
  let mut p = [g(s), g(s), g(s)];
  if s.chance(1, 5) {
    let k = s.sym(3);
    p[2] = [p[0][0] + k * (p[1][0] - p[0][0]), p[0][1] + k * (p[1][1] - p[0][1])];
  }
  let qs: Vec<P> = (0..4).map(|_| gen::query_point(s, &p)).collect();
  let mut all = p.to_vec();
  all.extend(&qs);
  let (lo, hi) = geo::bbox(&all);
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  c.case(&(&p, &qs, &e, T::NAME), || format!("{} locate {qs:?} in triangle {p:?} under {e:?}", T::NAME));
  c.class(T::NAME);
  triangle_check::<T>(&p, &qs, &e, c)
}
macro_rules! dispatch {
  ($name:ident, $f:ident) => {
    fn $name(s: &mut Src, c: &mut Ctx) -> R {
      let f = [
        $f::<i64>,
        $f::<i8>,
        $f::<f64>,
        $f::<i16>,
        $f::<i32>,
        $f::<isize>,
        $f::<f32>,
        $f::<OrderedFloat<f64>>,
        $f::<OrderedFloat<f32>>,
        $f::<NotNan<f64>>,
        $f::<NotNan<f32>>,
        $f::<BigInt>,
        $f::<BigRational>,
        $f::<rug::Integer>,
      ];
      f[s.weighted(&[3, 2, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1])](s, c)
    }
  };
}
dispatch!(convex_types, convex);
dispatch!(triangle_types, triangle);

/// Strictly convex polygons with vertices on the 4x4 grid (spread sample of vertex
/// subsets), every start, every half-integer point around.
fn grid(s: &mut Src, c: &mut Ctx) -> R {
  let mask = s.raw64();
  let all: Vec<P> = (0..16).filter(|b| mask >> b & 1 == 1).map(|b| [b % 4 * 2, b / 4 * 2]).collect();
  let h = geo::hull(&all);
  // each hull is visited once: for the subset that is exactly its vertices
  if h.len() < 3 || h.len() != all.len() {
    return Ok(());
  }
  c.case(&h, || format!("grid convex {h:?}, every start, all points of (-1..=7)^2"));
  for k in 0..h.len() {
    let mut p = h.clone();
    p.rotate_left(k);
    let poly = PolygonConvex::new_unchecked(Polygon::new_unchecked(pts::<i64>(&p, &Emb::ID)));
    for x in -1..=7 {
      for y in -1..=7 {
        convex_check(&p, &poly, [x, y], &Point::new([x, y]), c)?;
      }
    }
  }
  Ok(())
}
/// All triangles and points on the 4x4 grid.
fn triangles(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let mut g = || {
    let d = (i % 16) as i64;
    i /= 16;
    [d % 4, d / 4]
  };
  let p = [g(), g(), g()];
  c.case(&p, || format!("grid triangle {p:?}"));
  let qs: Vec<P> = (0..36).map(|i| [i % 6 - 1, i / 6 - 1]).collect();
  triangle_check::<i64>(&p, &qs, &Emb::ID, c)
}

/// Hundreds of vertices, every start.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[1_000_000i64, 1000, 1 << 40]);
  let n = s.usize(15, 700);
  let mut e = s.expand();
  let mut p = gen::convex(&mut e, n, m);
  let r = s.below(p.len());
  p.rotate_left(r);
  let st = shapes::store(s);
  let poly = PolygonConvex::new_unchecked(shapes::polygon::<i64>(&p, &Emb::ID, st));
  let k = p.len();
  let mut qs: Vec<P> = (0..30).map(|_| gen::query_point(&mut e, &p)).collect();
  for _ in 0..20 {
    // near the fan diagonals, the vertices and the edges
    let (a, b) = (p[e.below(k)], p[0]);
    let t = e.range(-1, 9);
    qs.push([b[0] + (a[0] - b[0]) * t / 8 + e.sym(1), b[1] + (a[1] - b[1]) * t / 8 + e.sym(1)]);
  }
  c.case(&(&p, &qs, st), || format!("locate {qs:?} in convex {p:?}"));
  c.class_if(k > 255, "more-than-255-vertices");
  for q in &qs {
    convex_check(&p, &poly, *q, &Point::new(*q), c)?;
  }
  Ok(())
}

/// Thousands to tens of thousands of vertices.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let n = giant::size(s, 70_000) as i64;
  let mut p: Vec<P> = (0..n).map(|i| [i, i * i]).collect();
  let r = s.below(p.len());
  p.rotate_left(r);
  let st = s.below(2) as u64;
  let poly = PolygonConvex::new_unchecked(shapes::polygon::<i64>(&p, &Emb::ID, st));
  let mut e = s.expand();
  let k = p.len();
  let mut qs: Vec<P> = (0..10).map(|_| gen::query_point(&mut e, &p)).collect();
  for _ in 0..10 {
    let (a, b) = (p[e.below(k)], p[e.below(k)]);
    let t = e.range(-1, 9);
    qs.push([b[0] + (a[0] - b[0]) * t / 8 + e.sym(1), b[1] + (a[1] - b[1]) * t / 8 + e.sym(1)]);
  }
  c.case(&(n, r, &qs, st), || format!("locate {qs:?} in the convex parabola of {n}, started at {r}"));
  c.nontrivial();
  for q in &qs {
    ensure_eq!(loc(poly.locate(&Point::new(*q))), geo::locate(&p, *q), "locate {q:?} in the convex parabola of {n}, started at {r}");
  }
  Ok(())
}

/// Coordinates of every kind one type has, against the same in rationals.
fn raw(s: &mut Src, c: &mut Ctx) -> R {
  native::raw(s, c, &["convex locate", "triangle locate"], 0)
}

static SPEC: Spec = Spec {
  id: "C11",
  rule: "Strictly convex polygons (random hulls, parabola arcs, edge-vector sums; up to 14, and up to 700, vertices) starting at any vertex and in any internal storage order, queried at lattice points of edges, of diagonals and their extensions, at vertices and around; triangles of either orientation and degenerate ones; exactly embedded in 14 scalar types up to their extremes; all strictly convex polygons on the 4x4 grid with every start against all half-integer points around, all triangles on the 4x4 grid against all points around. Convex polygons of up to 70,000 vertices. Small lists with coordinates of every kind one type has (full range, neighbouring values, mixed magnitudes, exact and nudged continuations of lines), against the same in rationals. Non-trivial: not outside, or on the line of a diagonal from the first vertex.",
  assumptions: &["the half-open crossing rule over exact 128-bit integers is the reference"],
  parts: &[
    Part { name: "raw", quick: 20_000, thorough: 1_000_000, len: 300, run: raw },
    Part { name: "convex", quick: 600_000, thorough: 6_000_000, len: 90, run: convex_types },
    Part { name: "triangle", quick: 600_000, thorough: 6_000_000, len: 60, run: triangle_types },
    Part { name: "grid", quick: 65_536, thorough: 65_536, len: 0, run: grid },
    Part { name: "triangles", quick: 4_096, thorough: 4_096, len: 0, run: triangles },
    Part { name: "huge", quick: 4_000, thorough: 100_000, len: 12, run: huge },
    Part { name: "giant", quick: 200, thorough: 5000, len: 12, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
