//! C14: the linear-time convex hull of a simple polygon is exact.
use num::{BigInt, BigRational};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::data::*;
use vharness::*;

fn check<T: Sc>(p: &[P], poly: &Polygon<T>, e: &Emb) -> R {
  let t = T::NAME;
  let want = geo::hull(p);
  let h = melkman::convex_hull(poly);
  let got = ring(&h, e)?;
  ensure!(geo::cyc_eq(&got, &want), "{t}: hull of {p:?} (stored as {:?}) is {got:?}, expected {want:?}", poly.iter().collect::<Vec<_>>());
  ensure_eq!(h.validate(), Ok(()), "{t}: validate of the hull of {p:?}");
  Ok(())
}
fn classes(p: &[P], c: &mut Ctx) {
  let h = geo::hull(p);
  let n = p.len();
  c.class_if(h.len() == n, "convex");
  c.class_if((0..n).any(|i| geo::orient(p[i], p[(i + 1) % n], p[(i + 2) % n]) == 0), "colinear-vertex");
  c.class_if(geo::orient(p[0], p[1], p[2]) == 0, "starts-colinear");
  c.class_if(!h.contains(&p[0]), "starts-off-the-hull");
  c.nontrivial_if(h.len() < n);
}
fn random<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[4i64, 2, 8, 30, 1000, 1_000_000]);
  let p = gen::simple_polygon(s, 30, m);
  let (lo, hi) = geo::bbox(&p);
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let st = shapes::store(s);
  let mut poly = shapes::polygon::<T>(&p, &e, st);
  if st == 0 {
    let mut v = pts::<T>(&p, &e);
    if shapes::negative_zeros(s, &mut v) {
      poly = Polygon::new_unchecked(v);
    }
  }
  c.case(&(&p, &e, st, T::NAME), || {
    format!("{} boundary {:?} stored as {:?}", T::NAME, ring(&poly, &e), poly.iter().collect::<Vec<_>>())
  });
  c.class(T::NAME);
  c.class_if(st > 0, "storage-order-differs");
  classes(&p, c);
  check(&p, &poly, &e)?;
  // the same as the point-set hulls
  let v: Vec<Point<T>> = poly.iter().cloned().collect();
  let a = melkman::convex_hull(&poly);
  for (name, h) in [("graham_scan", graham_scan::convex_hull(v.clone())), ("gift_wrapping", gift_wrapping::convex_hull(v))] {
    let Ok(h) = h else { return Err(format!("{name} fails on the vertices {p:?}")) };
    ensure!(h.equals(&a), "{}: {name} and melkman differ on {p:?}", T::NAME);
  }
  Ok(())
}
fn types(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    random::<i64>,
    random::<i8>,
    random::<f64>,
    random::<i16>,
    random::<i32>,
    random::<isize>,
    random::<f32>,
    random::<OrderedFloat<f64>>,
    random::<OrderedFloat<f32>>,
    random::<NotNan<f64>>,
    random::<NotNan<f32>>,
    random::<BigInt>,
    random::<BigRational>,
    random::<rug::Integer>,
  ];
  f[s.weighted(&[6, 4, 6, 4, 4, 4, 4, 2, 2, 2, 2, 2, 1, 2])](s, c)
}
/// Every simple polygon of up to 6 vertices (6: spread sample) on the 3x3 grid.
fn grid(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let mut k = 3;
  let mut total = 9 * 9 * 9;
  while k < 6 && i >= total {
    i -= total;
    total *= 9;
    k += 1;
  }
  if k == 6 {
    i = i.wrapping_mul(48271) % total;
  }
  let p: Vec<P> = (0..k)
    .map(|_| {
      let d = (i % 9) as i64;
      i /= 9;
      [d % 3, d / 3]
    })
    .collect();
  c.case(&p, || format!("grid {p:?}"));
  if !geo::is_simple(&p) || geo::area2(&p) < 0 {
    return Ok(());
  }
  classes(&p, c);
  check::<i64>(&p, &Polygon::new_unchecked(pts(&p, &Emb::ID)), &Emb::ID)
}
fn large(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[12i64, 40, 1000, 1_000_000]);
  let p = gen::simple_polygon(s, 200, m);
  let st = shapes::store(s);
  c.case(&(&p, st), || format!("large, storage {st}: {p:?}"));
  classes(&p, c);
  for r in 0..p.len().min(8) {
    let mut q = p.clone();
    q.rotate_left(r * p.len() / 8);
    check::<i64>(&q, &shapes::polygon(&q, &Emb::ID, st), &Emb::ID)?;
  }
  Ok(())
}

/// Hundreds of vertices.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[1000i64, 40, 1_000_000]);
  let p = gen::huge_polygon(s, 1300, m);
  let st = shapes::store(s);
  c.case(&(&p, st), || format!("huge, storage {st}: {p:?}"));
  classes(&p, c);
  for r in 0..p.len().min(8) {
    let mut q = p.clone();
    q.rotate_left(r * p.len() / 8);
    check::<i64>(&q, &shapes::polygon(&q, &Emb::ID, st), &Emb::ID)?;
  }
  Ok(())
}

/// Thousands to tens of thousands of vertices.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let (p, text) = giant::polygon(s, 70_000);
  let st = s.below(2) as u64;
  c.case(&(&text, st), || format!("hull of the {text}, storage {st}"));
  let want = geo::hull(&p);
  c.nontrivial_if(want.len() < p.len());
  let h = melkman::convex_hull(&shapes::polygon::<i64>(&p, &Emb::ID, st));
  ensure!(geo::cyc_eq(&ring(&h, &Emb::ID)?, &want), "hull of the {text}");
  Ok(())
}

/// Coordinates of every kind one type has, against the same in rationals.
fn raw(s: &mut Src, c: &mut Ctx) -> R {
  native::raw(s, c, &["melkman"], 2)
}

static SPEC: Spec = Spec {
  id: "C14",
  rule: "Simple polygons (grown on a grid, star, monotone, comb, spiral, zigzag, convex, with colinear vertices) with the boundary starting anywhere and with given, reversed or scrambled internal storage, exactly embedded in 14 scalar types up to their extremes, with negative zeros; every simple polygon of up to five vertices (six: a spread sample; all in the thorough tier) on the 3x3 grid; polygons of up to 200 and of hundreds of vertices from eight starts. Polygons of up to 70,000 vertices. Small lists with coordinates of every kind one type has (full range, neighbouring values, mixed magnitudes, exact and nudged continuations of lines), against the same in rationals. Non-trivial: some vertex is not a hull vertex.",
  assumptions: &["monotone-chain hull over exact 128-bit integers is the reference"],
  parts: &[
    Part { name: "raw", quick: 20_000, thorough: 1_000_000, len: 300, run: raw },
    Part { name: "types", quick: 180_000, thorough: 6_000_000, len: 130, run: types },
    Part { name: "grid", quick: 160_000, thorough: 597_780, len: 0, run: grid },
    Part { name: "large", quick: 10_000, thorough: 300_000, len: 800, run: large },
    Part { name: "huge", quick: 800, thorough: 20_000, len: 24, run: huge },
    Part { name: "giant", quick: 120, thorough: 3000, len: 24, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
