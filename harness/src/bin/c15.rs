//! C15: triangulation partitions the polygon.
use num::{BigInt, BigRational};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::triangulation::earclip;
use rgeometry::algorithms::zhash::ZHashable;
use rgeometry::data::*;
use std::collections::HashMap;
use vharness::*;

type Tri = (PointId, PointId, PointId);

/// Do the triangles partition the simple polygon? `canon[id]` are the exact coordinates.
/// The directed triangle edges must add up to the boundary: every boundary edge once, every
/// other edge cancelled by its reverse exactly once. With no triangle clockwise this means
/// that every inner point is covered exactly once and no outer point is covered.
fn judge(name: &str, order: &[PointId], canon: &HashMap<PointId, P>, tris: &[Tri]) -> R {
  let n = order.len();
  let show = || format!("{:?}", order.iter().map(|i| canon[i]).collect::<Vec<_>>());
  ensure_eq!(tris.len(), n.max(2) - 2, "{name}: number of triangles of {}", show());
  let mut edges: HashMap<(PointId, PointId), i32> = HashMap::new();
  let mut area = 0i128;
  for (a, b, c) in tris {
    let mut v = vec![];
    for i in [a, b, c] {
      let Some(x) = canon.get(i) else {
        return Err(format!("{name}: {i:?} is not a vertex of {}", show()));
      };
      v.push(*x);
    }
    ensure!(a != b && b != c && a != c, "{name}: triangle repeats a vertex: {v:?} of {}", show());
    ensure!(geo::orient(v[0], v[1], v[2]) >= 0, "{name}: clockwise triangle {v:?} of {}", show());
    area += geo::area2(&v);
    for e in [(*a, *b), (*b, *c), (*c, *a)] {
      *edges.entry(e).or_insert(0) += 1;
    }
  }
  let ring: Vec<P> = order.iter().map(|i| canon[i]).collect();
  ensure_eq!(area, geo::area2(&ring), "{name}: total doubled area of the triangles of {}", show());
  for i in 0..n {
    let e = (order[i], order[(i + 1) % n]);
    let k = edges.remove(&e).unwrap_or(0);
    ensure!(k == 1, "{name}: boundary edge {:?}-{:?} belongs to {k} triangles of {}", canon[&e.0], canon[&e.1], show());
  }
  for (e, k) in &edges {
    let r = edges.get(&(e.1, e.0)).copied().unwrap_or(0);
    ensure!(*k == 1 && r == 1, "{name}: diagonal {:?}-{:?} is used {k} times, its reverse {r} times, in {}", canon[&e.0], canon[&e.1], show());
  }
  Ok(())
}
fn canon<T: Sc>(poly: &Polygon<T>, e: &Emb) -> Result<HashMap<PointId, P>, String> {
  poly
    .boundary_slice()
    .iter()
    .map(|i| Ok((*i, back(poly.point(*i), e).ok_or("harness: not an input point")?)))
    .collect()
}
/// The (Point list, order) interface sees the polygon's own points.
fn list<T: Sc>(poly: &Polygon<T>) -> Vec<Point<T>> {
  let mut v: Vec<Point<T>> = vec![];
  let mut ids: Vec<PointId> = poly.boundary_slice().to_vec();
  ids.sort();
  for i in ids {
    v.push(poly.point(i).clone());
  }
  v
}
struct Case<T> {
  p: Vec<P>,
  e: Emb,
  poly: Polygon<T>,
  seed: u64,
  big: bool,
}
fn make<T: Sc>(s: &mut Src, c: &mut Ctx, nmax: usize, ms: &[i64]) -> Option<Case<T>> {
  let m = s.pick(ms);
  let p = gen::simple_polygon(s, nmax, m);
  embed(s, c, nmax, p)
}
fn embed<T: Sc>(s: &mut Src, c: &mut Ctx, nmax: usize, p: Vec<P>) -> Option<Case<T>> {
  let (lo, hi) = geo::bbox(&p);
  let e = emb::<T>(s, lo, hi)?;
  let st = shapes::store(s);
  let mut poly = shapes::polygon::<T>(&p, &e, st);
  if st == 0 {
    let mut v = pts::<T>(&p, &e);
    if shapes::negative_zeros(s, &mut v) {
      poly = Polygon::new_unchecked(v);
    }
  }
  c.case(&(&p, &e, st, T::NAME), || {
    format!("{} boundary {:?} stored as {:?}", T::NAME, ring(&poly, &e), poly.iter().collect::<Vec<_>>())
  });
  c.class(T::NAME);
  let n = p.len();
  c.class_if(st > 0, "storage-order-differs");
  let turn = |i: usize| geo::orient(p[i], p[(i + 1) % n], p[(i + 2) % n]);
  c.class_if((0..n).any(|i| turn(i) == 0), "colinear-vertex");
  let reflex = (0..n).any(|i| turn(i) < 0);
  c.class_if(reflex, "reflex-vertex");
  c.nontrivial_if(n >= 4 && (reflex || (0..n).any(|i| turn(i) == 0)));
  Some(Case { p, e, poly, seed: s.raw64(), big: nmax > 40 })
}
fn plain<T: Sc>(k: &Case<T>, s: &mut Src) -> R {
  let t = T::NAME;
  let ids = canon(&k.poly, &k.e)?;
  let order = k.poly.boundary_slice();
  let v: Vec<Tri> = earclip::earclip(&k.poly).collect();
  judge(&format!("{t} earclip"), order, &ids, &v)?;
  if k.big {
    return Ok(());
  }
  let w: Vec<Tri> = k.poly.triangulate().map(|(a, b, c)| (a.point_id(), b.point_id(), c.point_id())).collect();
  judge(&format!("{t} Polygon::triangulate"), order, &ids, &w)?;
  for (a, _, _) in k.poly.triangulate() {
    ensure!(a.point() == k.poly.point(a.point_id()), "{t}: cursor of triangulate");
  }
  let l = list(&k.poly);
  let rng = Rg::gen(s).limit(shapes::ops(k.p.len(), 2));
  let x: Vec<Tri> = earclip::triangulate_list(&l, order, rng).collect();
  judge(&format!("{t} triangulate_list"), order, &ids, &x)
}
fn hashed<T: Sc + ZHashable>(k: &Case<T>, s: &mut Src) -> R {
  plain(k, s)?;
  let t = T::NAME;
  let ids = canon(&k.poly, &k.e)?;
  let order = k.poly.boundary_slice();
  let a: Vec<Tri> = earclip::earclip(&k.poly).collect();
  let b: Vec<Tri> = earclip::earclip_hashed(&k.poly).collect();
  judge(&format!("{t} earclip_hashed"), order, &ids, &b)?;
  ensure!(a == b, "{t}: earclip and earclip_hashed differ on {:?}: {a:?} and {b:?}", k.p);
  if k.big {
    return Ok(());
  }
  let l = list(&k.poly);
  let rng = Rg::gen(s).limit(shapes::ops(k.p.len(), 2));
  let a: Vec<Tri> = earclip::triangulate_list(&l, order, rng.clone()).collect();
  let b: Vec<Tri> = earclip::triangulate_list_hashed(&l, order, rng).collect();
  judge(&format!("{t} triangulate_list_hashed"), order, &ids, &b)?;
  ensure!(a == b, "{t}: triangulate_list with and without hashing differ on {:?}: {a:?} and {b:?}", k.p);
  Ok(())
}
const MS: [i64; 6] = [4, 2, 8, 30, 1000, 1_000_000];
fn plain_t<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  match make::<T>(s, c, 24, &MS) {
    Some(k) => plain(&k, s),
    None => Ok(()),
  }
}
fn hashed_t<T: Sc + ZHashable>(s: &mut Src, c: &mut Ctx) -> R {
  match make::<T>(s, c, 24, &MS) {
    Some(k) => hashed(&k, s),
    None => Ok(()),
  }
}
fn types(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    hashed_t::<i64>,
    hashed_t::<i8>,
    hashed_t::<f64>,
    plain_t::<i16>,
    plain_t::<i32>,
    plain_t::<isize>,
    plain_t::<f32>,
    plain_t::<OrderedFloat<f64>>,
    plain_t::<OrderedFloat<f32>>,
    plain_t::<NotNan<f64>>,
    plain_t::<NotNan<f32>>,
    plain_t::<BigInt>,
    plain_t::<BigRational>,
    plain_t::<rug::Integer>,
  ];
  f[s.weighted(&[12, 6, 10, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1])](s, c)
}
/// Any order list over a point list with unused points and any ids.
fn sublist(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&MS);
  let p = gen::simple_polygon(s, 16, m);
  let extra = s.usize(0, 4);
  let n = p.len() + extra;
  // ids of an n-gon, a shuffled choice of them as slots
  let donor = Polygon::new_unchecked(vec![Point::new([0i64, 0]); n]);
  let mut ids: Vec<PointId> = donor.boundary_slice().to_vec();
  s.shuffle(&mut ids);
  ids.truncate(p.len());
  let mut l = vec![Point::new([0i64, 0]); n];
  for q in l.iter_mut() {
    *q = pt(gen::query_point(s, &p), &Emb::ID);
  }
  let mut ids_map = HashMap::new();
  for (i, q) in ids.iter().zip(&p) {
    l[i.usize()] = pt(*q, &Emb::ID);
    ids_map.insert(*i, *q);
  }
  c.case(&(&l, &ids), || format!("points {l:?} in order {ids:?}"));
  c.nontrivial_if(p.len() >= 4);
  c.class_if(extra > 0, "points-outside-the-order");
  let rng = Rg::gen(s).limit(shapes::ops(n, 2));
  let a: Vec<Tri> = earclip::triangulate_list(&l, &ids, rng.clone()).collect();
  judge("triangulate_list", &ids, &ids_map, &a)?;
  let b: Vec<Tri> = earclip::triangulate_list_hashed(&l, &ids, rng).collect();
  judge("triangulate_list_hashed", &ids, &ids_map, &b)?;
  ensure!(a == b, "triangulate_list with and without hashing differ: {a:?} and {b:?}");
  Ok(())
}
/// Termination, counted in scalar operations.
fn counted(s: &mut Src, c: &mut Ctx) -> R {
  let Some(k) = make::<Cnt>(s, c, 40, &MS) else { return Ok(()) };
  let (v, _) = budget(shapes::ops(k.p.len(), 3), || earclip::earclip(&k.poly).collect::<Vec<Tri>>());
  judge("earclip (counted)", k.poly.boundary_slice(), &canon(&k.poly, &k.e)?, &v)
}
/// Every simple polygon with up to six vertices on the 3x3 grid (six: spread sample).
fn grid(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let seed = i;
  let mut k = 3;
  let mut total = 9 * 9 * 9;
  while k < 6 && i >= total {
    i -= total;
    total *= 9;
    k += 1;
  }
  if k == 6 {
    i = i.wrapping_mul(48271) % total;
  }
  let p: Vec<P> = (0..k)
    .map(|_| {
      let d = (i % 9) as i64;
      i /= 9;
      [d % 3, d / 3]
    })
    .collect();
  if !geo::is_simple(&p) || geo::area2(&p) < 0 {
    return Ok(());
  }
  c.case(&p, || format!("grid {p:?}"));
  c.nontrivial_if(k >= 4);
  for t in 0..4 {
    let v: Vec<Point<i64>> = pts(&p, &Emb::ID);
    let poly = Polygon::new_unchecked(v.clone());
    let ids = canon(&poly, &Emb::ID)?;
    let rng = Rg::seeded(seed ^ t).limit(10_000);
    let a: Vec<Tri> = earclip::triangulate_list(&v, poly.boundary_slice(), rng.clone()).collect();
    judge("triangulate_list", poly.boundary_slice(), &ids, &a)?;
    let b: Vec<Tri> = earclip::triangulate_list_hashed(&v, poly.boundary_slice(), rng).collect();
    ensure!(a == b, "triangulate_list with and without hashing differ on {p:?}: {a:?} and {b:?}");
  }
  Ok(())
}
/// Vertices closer together than the cells of the z-order hash.
fn cells(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[1i64 << 33, 1 << 34, 1 << 40, 1 << 48, 1 << 51]) + s.range(0, 2000);
  let p = gen::clustered(s, 14, m);
  match s.below(2) {
    0 => embed::<i64>(s, c, 14, p).map_or(Ok(()), |k| hashed(&k, s)),
    _ => embed::<f64>(s, c, 14, p).map_or(Ok(()), |k| hashed(&k, s)),
  }
}
fn large(s: &mut Src, c: &mut Ctx) -> R {
  let ms = [12i64, 40, 1000, 1_000_000];
  match s.below(2) {
    0 => {
      let Some(k) = make::<i64>(s, c, 150, &ms) else { return Ok(()) };
      let _ = k.seed;
      hashed(&k, s)
    }
    _ => {
      let Some(k) = make::<f64>(s, c, 150, &ms) else { return Ok(()) };
      hashed(&k, s)
    }
  }
}

/// Hundreds of vertices.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[1000i64, 40, 1_000_000]);
  let p = gen::huge_polygon(s, 400, m);
  match s.below(2) {
    0 => embed::<i64>(s, c, 400, p).map_or(Ok(()), |k| hashed(&k, s)),
    _ => embed::<f64>(s, c, 400, p).map_or(Ok(()), |k| hashed(&k, s)),
  }
}

/// Thousands to tens of thousands of vertices.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let (p, _) = giant::polygon(s, 2100);
  embed::<i64>(s, c, 2100, p).map_or(Ok(()), |k| hashed(&k, s))
}

/// Coordinates of every kind the type has: both versions cut the same ears in the same order.
fn raw_in<T: Coord + ZHashable>(s: &mut Src, c: &mut Ctx) -> R {
  let k = s.usize(3, if c.thorough { 20 } else { 12 });
  let all = degenerate_points::<T>(s, k);
  let Some(p) = degenerate_polygon(s, &all) else { return Ok(()) };
  let n = p.len();
  c.case(&format!("{} {p:?}", T::NAME), || format!("{} polygon {p:?}", T::NAME));
  c.class(T::NAME);
  c.nontrivial_if(n >= 4);
  let t = T::NAME;
  let poly = Polygon::new_unchecked(p.iter().cloned().map(Point::new).collect());
  let order = poly.boundary_slice();
  let a: Vec<Tri> = earclip::earclip(&poly).collect();
  let b: Vec<Tri> = earclip::earclip_hashed(&poly).collect();
  ensure_eq!(a.len(), n - 2, "{t}: triangles of {p:?}");
  ensure!(a == b, "{t}: earclip and earclip_hashed differ on {p:?}: {a:?} and {b:?}");
  let l = list(&poly);
  let rng = Rg::gen(s).limit(1_000_000);
  let a: Vec<Tri> = earclip::triangulate_list(&l, order, rng.clone()).collect();
  let b: Vec<Tri> = earclip::triangulate_list_hashed(&l, order, rng).collect();
  ensure!(a == b, "{t}: triangulate_list and triangulate_list_hashed differ on {p:?}: {a:?} and {b:?}");
  // exact: counter-clockwise, and the areas add up
  let area = |v: &[[Q; 2]]| -> Q { (0..v.len()).map(|i| rcross(&v[i], &v[(i + 1) % v.len()])).sum() };
  let q: Vec<[Q; 2]> = p.iter().map(r2).collect();
  let mut sum = zero_rat();
  for (x, y, z) in &a {
    let d = area(&[*x, *y, *z].map(|i| r2(&poly.point(i).array)));
    ensure!(d >= zero_rat(), "{t}: clockwise triangle of {p:?}");
    sum += d;
  }
  ensure_eq!(sum, area(&q), "{t}: doubled area of the triangles of {p:?}");
  Ok(())
}
fn raw(s: &mut Src, c: &mut Ctx) -> R {
  let f = [raw_in::<f64>, raw_in::<i64>, raw_in::<i8>];
  f[s.weighted(&[3, 2, 1])](s, c)
}

static SPEC: Spec = Spec {
  id: "C15",
  rule: "Simple polygons (grown on a grid, star, monotone, comb, spiral, zigzag, convex, clustered around far-apart anchors, with colinear vertices) with the boundary starting anywhere and any internal storage order, exactly embedded in 14 scalar types up to their extremes; every interface (earclip, earclip_hashed, Polygon::triangulate, triangulate_list and its hashed version with adversarial and seeded random sources, orders over point lists with unused points); every simple polygon of up to five vertices (six: spread sample) on the 3x3 grid with four random sources; wide i64 and f64 polygons whose vertices share z-order cells; up to 150, and up to 400, vertices. Up to 2100 vertices. Polygons with i8, i64 and f64 coordinates of every kind (full range, neighbouring values, mixed magnitudes). Non-trivial: at least four vertices, one of them reflex or flat.",
  assumptions: &[
    "triangles that are not clockwise and whose directed edges add up to the polygon's boundary cover every point inside exactly once and nothing else (winding numbers)",
  ],
  parts: &[
    Part { name: "raw", quick: 20_000, thorough: 1_500_000, len: 300, run: raw },
    Part { name: "types", quick: 200_000, thorough: 5_000_000, len: 130, run: types },
    Part { name: "sublist", quick: 80_000, thorough: 2_000_000, len: 120, run: sublist },
    Part { name: "counted", quick: 40_000, thorough: 1_000_000, len: 160, run: counted },
    Part { name: "grid", quick: 160_000, thorough: 597_780, len: 0, run: grid },
    Part { name: "cells", quick: 60_000, thorough: 2_000_000, len: 120, run: cells },
    Part { name: "large", quick: 6_000, thorough: 200_000, len: 700, run: large },
    Part { name: "huge", quick: 2_000, thorough: 10_000, len: 24, run: huge },
    Part { name: "giant", quick: 30, thorough: 600, len: 24, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
