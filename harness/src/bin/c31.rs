//! C31: whatever one operation hands out, every other operation takes and treats like a
//! polygon freshly built from its vertices.
use num::{BigInt, BigRational, One, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::polygonization::*;
use rgeometry::algorithms::segment_intersections;
use rgeometry::algorithms::triangulation::earclip;
use rgeometry::algorithms::visibility::naive::get_visibility_polygon;
use rgeometry::data::*;
use std::ops::Bound;
use vharness::*;

type Q2 = [Q; 2];
fn q2<T: Sc>(p: &Point<T>) -> Q2 {
  r2(&p.array)
}
fn boundary<T: Sc>(p: &Polygon<T>) -> Vec<Q2> {
  p.iter_boundary().map(|c| q2(c.point())).collect()
}
fn multiset(v: &[Q2]) -> Vec<Q2> {
  let mut v = v.to_vec();
  v.sort();
  v
}
fn area2(v: &[Q2]) -> Q {
  let n = v.len();
  (0..n).map(|i| &v[i][0] * &v[(i + 1) % n][1] - &v[(i + 1) % n][0] * &v[i][1]).sum()
}
fn ear_sum<T: Sc>(p: &Polygon<T>, it: impl Iterator<Item = (PointId, PointId, PointId)>) -> (usize, Q) {
  let mut n = 0;
  let mut a = Q::zero();
  for (x, y, z) in it {
    n += 1;
    a += area2(&[q2(p.point(x)), q2(p.point(y)), q2(p.point(z))]);
  }
  (n, a)
}

/// Every id exactly once; slice, cursors, iterators, lookups and edges agree.
fn ring_ok<T: Sc>(p: &Polygon<T>, what: &str) -> R {
  let ids = p.boundary_slice();
  let n = ids.len();
  let mut u: Vec<usize> = ids.iter().map(|i| i.usize()).collect();
  u.sort();
  ensure_eq!(u, (0..n).collect::<Vec<_>>(), "ids after {what}");
  ensure_eq!(p.iter().count(), n, "stored points after {what}");
  for (k, x) in p.iter().enumerate() {
    let id = ids[ids.iter().position(|i| i.usize() == k).unwrap()];
    ensure!(x == p.point(id), "stored point {k} after {what} is {x:?}, point({id:?}) is {:?}", p.point(id));
  }
  let around: Vec<PointId> = p.iter_boundary().map(|c| c.point_id()).collect();
  ensure_eq!(around, ids, "boundary after {what}");
  let mut back: Vec<PointId> = p.iter_boundary().rev().map(|c| c.point_id()).collect();
  back.reverse();
  ensure_eq!(back, ids, "boundary backwards after {what}");
  for (k, id) in ids.iter().enumerate() {
    let c = p.cursor(*id);
    let (nx, pv) = (ids[(k + 1) % n], ids[(k + n - 1) % n]);
    ensure_eq!((c.point_id(), c.prev().point_id(), c.next().point_id()), (*id, pv, nx), "cursor({id:?}) after {what}");
    ensure!(c.point() == p.point(*id), "point of cursor({id:?}) after {what}");
    let d = p.direct(IndexEdge::new(*id, nx));
    ensure_eq!((d.src, d.dst), (*id, nx), "edge {id:?} to {nx:?} after {what}");
    let part: Vec<PointId> = c.to(Bound::Included(p.cursor(pv))).map(|c| c.point_id()).collect();
    ensure_eq!(part, (0..n).map(|j| ids[(k + j) % n]).collect::<Vec<_>>(), "all the way round from {id:?} after {what}");
  }
  for (k, e) in p.iter_boundary_edges().enumerate() {
    ensure!(
      e.src == p.point(ids[k]) && e.dst == p.point(ids[(k + 1) % n]),
      "edge {k} after {what}"
    );
  }
  Ok(())
}

/// Queries answer as on a polygon freshly built from the vertex list.
fn like_fresh<T: Sc>(s: &mut Src, p: &Polygon<T>, rng: &Rg, what: &str) -> R {
  let list: Vec<Point<T>> = p.iter_boundary().map(|c| c.point().clone()).collect();
  let n = list.len();
  let f = Polygon::new_unchecked(list.clone());
  let show = || format!("{what} (ids {:?}, vertices {:?})", p.boundary_slice(), boundary(p));
  let ids = p.boundary_slice();
  let fids = f.boundary_slice();
  ensure!(p.equals(&f) && f.equals(p) && p.equals(p), "not equal to a fresh copy after {}", show());
  ensure_eq!(p.validate(), f.validate(), "validate after {}", show());
  ensure_eq!(p.validate_weakly(), f.validate_weakly(), "validate_weakly after {}", show());
  ensure_eq!(p.orientation(), f.orientation(), "orientation after {}", show());
  let (a, b) = (p.bounding_box(), f.bounding_box());
  ensure_eq!([q2(&a.0), q2(&a.1)], [q2(&b.0), q2(&b.1)], "bounding box after {}", show());
  let want = area2(&boundary(p));
  let pq: Polygon<Q> = p.clone().map(|x| x.rat());
  ensure_eq!(pq.signed_area_2x::<Q>(), want, "area after {}", show());
  ensure_eq!(pq.signed_area::<Q>(), &want / Q::from(BigInt::from(2)), "area after {}", show());
  for d in [[1, 0], [0, -1], [2, 1]] {
    let d = vec2::<T>(d, &Emb::ID);
    ensure_eq!(p.is_monotone(&d), f.is_monotone(&d), "monotone along {d:?} after {}", show());
  }
  for (x, y) in ids.iter().zip(fids) {
    let (x, y) = (p.cursor(*x), f.cursor(*y));
    ensure_eq!(x.orientation(), y.orientation(), "turn at {:?} after {}", x.point_id(), show());
    ensure_eq!(x.is_colinear(), y.is_colinear(), "flatness at {:?} after {}", x.point_id(), show());
    ensure_eq!(x.is_ear(), y.is_ear(), "ear at {:?} after {}", x.point_id(), show());
  }
  let e: Vec<DirectedEdge<'_, T>> = p.iter_boundary_edges().collect();
  let g: Vec<DirectedEdge<'_, T>> = f.iter_boundary_edges().collect();
  ensure_eq!(segment_intersections(&e).count(), segment_intersections(&g).count(), "crossings after {}", show());
  if p.validate().is_err() {
    return Ok(());
  }
  // simple polygons only from here
  for _ in 0..3 {
    let (i, j) = (s.below(n), s.below(n));
    let o = match s.below(4) {
      0 => list[i].clone(),
      1 => pt::<T>([s.sym(12), s.sym(12)], &Emb::ID),
      _ => Point::new([list[i].array[0].clone(), list[j].array[1].clone()]),
    };
    ensure_eq!(p.locate(&o), f.locate(&o), "{o:?} after {}", show());
    if T::RATIONAL && n <= 12 && f.locate(&o) == PointLocation::Inside {
      let (x, y) = (catching(|| get_visibility_polygon(&o, p)), catching(|| get_visibility_polygon(&o, &f)));
      let same = match (&x, &y) {
        (Ok(Some(x)), Ok(Some(y))) => geo::cyc_eq(&boundary(x), &boundary(y)),
        (Ok(None), Ok(None)) => true,
        (Err(_), Err(_)) => true,
        _ => false,
      };
      ensure!(same, "seen from {o:?} after {}: {x:?}, from the fresh copy {y:?}", show());
    }
  }
  let h = [melkman::convex_hull(p), melkman::convex_hull(&f)];
  ensure!(
    geo::cyc_eq(&boundary(h[0].polygon()), &boundary(h[1].polygon())),
    "hulls after {}: {:?} and {:?}",
    show(),
    boundary(h[0].polygon()),
    boundary(h[1].polygon())
  );
  let stored: Vec<Point<T>> = p.iter().cloned().collect();
  let g = graham_scan::convex_hull(stored.clone()).map_err(|e| format!("no hull after {}: {e:?}", show()))?;
  ensure!(geo::cyc_eq(&boundary(g.polygon()), &boundary(h[1].polygon())), "hull of the points after {}", show());
  let full = (n - 2, want.clone());
  ensure_eq!(ear_sum(p, p.triangulate().map(|(x, y, z)| (x.point_id(), y.point_id(), z.point_id()))), full, "triangles (count, doubled area) after {}", show());
  ensure_eq!(ear_sum(p, earclip::earclip(p)), full, "clipped ears (count, doubled area) after {}", show());
  let t = earclip::triangulate_list(&stored, ids, rng.clone());
  ensure_eq!(ear_sum(p, t), full, "list triangles (count, doubled area) after {}", show());
  for (x, y, z) in p.triangulate() {
    ensure!([x, y, z].iter().all(|c| c.point() == p.point(c.point_id())), "triangle corners after {}", show());
  }
  Ok(())
}

const OPS: [&str; 20] = [
  "clone",
  "move",
  "scale",
  "mirror",
  "swap-coordinates",
  "graham",
  "gift-wrapping",
  "melkman",
  "two-opt",
  "resolve",
  "star",
  "monotone",
  "visibility",
  "rebuild",
  "rebuild-reversed",
  "triangle",
  "map",
  "in-place",
  "convex-wrap",
  "sub-polygon",
];
fn vertices<T: Sc>(p: &Polygon<T>) -> Vec<Point<T>> {
  p.iter_boundary().map(|c| c.point().clone()).collect()
}
/// One operation; the result, and what its vertices (by id, or as a set) have to be.
enum Must {
  /// the same ids in the same order, these points in boundary order
  Keep(Vec<Q2>),
  /// the same points under the same ids; the ring runs one way or the other
  Turn(Vec<Q2>),
  /// the same points by id, in any order
  Ids(Vec<Q2>),
  /// these points in any order
  Set(Vec<Q2>),
  /// some of these points
  Part(Vec<Q2>),
  Nothing,
}
fn by_id<T: Sc>(p: &Polygon<T>) -> Vec<Q2> {
  p.iter().map(q2).collect()
}
fn step<T: Sc + One + Zero>(s: &mut Src, op: usize, p: &Polygon<T>, rng: &mut Rg) -> Option<(Polygon<T>, Must)> {
  let n = p.boundary_slice().len();
  let b = boundary(p);
  let q = |x: i64| Q::from(BigInt::from(x));
  let shuffled = |s: &mut Src| {
    let mut v = vertices(p);
    s.shuffle(&mut v);
    v
  };
  let ccw = |mut p: Polygon<T>| {
    let before = by_id(&p);
    p.ensure_ccw().ok()?;
    Some((p, Must::Turn(before)))
  };
  Some(match op {
    0 => (p.clone(), Must::Keep(b)),
    1 => {
      let v = [s.sym(5), s.sym(5)];
      let t = Transform::translate(vec2::<T>(v, &Emb::ID));
      let want = b.iter().map(|x| [&x[0] + q(v[0]), &x[1] + q(v[1])]).collect();
      (if s.flip() { &t * p } else { t * p.clone() }, Must::Keep(want))
    }
    2 => {
      let k = s.range(1, 2);
      let t = Transform::uniform_scale(T::of(k as i128, &Emb::ID));
      let want = b.iter().map(|x| [&x[0] * q(k), &x[1] * q(k)]).collect();
      (if s.flip() { &t * p.clone() } else { t * p }, Must::Keep(want))
    }
    // clockwise in between
    3 => {
      let k = if s.flip() { [-1, 1] } else { [1, -1] };
      let t = Transform::scale(vec2::<T>(k, &Emb::ID));
      return ccw(&t * p);
    }
    4 => {
      return ccw(p.clone().map_points(|x| {
        let [a, b] = x.array;
        Point::new([b, a])
      }))
    }
    5 => (graham_scan::convex_hull(shuffled(s)).ok()?.into(), Must::Part(b)),
    6 => (gift_wrapping::convex_hull(shuffled(s)).ok()?.into(), Must::Part(b)),
    7 => (melkman::convex_hull(p).into(), Must::Part(b)),
    8 => {
      if n > 16 {
        return None;
      }
      (two_opt_moves(shuffled(s), rng).ok()?, Must::Set(b))
    }
    9 => {
      if n > 16 {
        return None;
      }
      let mut p = Polygon::new_unchecked(shuffled(s));
      let ids = by_id(&p);
      resolve_self_intersections(&mut p, rng).ok()?;
      (p, Must::Ids(ids))
    }
    10 => {
      let o = if s.flip() { p.point(p.boundary_slice()[s.below(n)]).clone() } else { pt::<T>([s.sym(8), s.sym(8)], &Emb::ID) };
      (new_star_polygon(shuffled(s), &o).ok()?, Must::Set(b))
    }
    11 => {
      let d = s.pick(&[[1i64, 0], [0, 1], [1, 1], [-2, 1], [3, -4]]);
      (new_monotone_polygon(shuffled(s), &vec2::<T>(d, &Emb::ID)).ok()?, Must::Set(b))
    }
    12 => {
      if !T::RATIONAL || n > 12 {
        return None;
      }
      // views have large fractions: one is enough
      if b.iter().flatten().any(|x| x.denom() > &BigInt::from(1_000_000)) {
        return None;
      }
      // strictly inside: the middle of a triangle
      let t: Vec<_> = p.triangulate().collect();
      let (x, y, z) = t[s.below(t.len())];
      let mid = |k: usize| {
        let sum = x.point().array[k].clone() + y.point().array[k].clone() + z.point().array[k].clone();
        sum / T::from_constant(3)
      };
      let o = Point::new([mid(0), mid(1)]);
      let v = catching(|| get_visibility_polygon(&o, p)).ok()??;
      (v, Must::Nothing)
    }
    13 => (Polygon::new(vertices(p)).ok()?, Must::Keep(b)),
    14 => {
      let mut v = vertices(p);
      v.reverse();
      (Polygon::new(v).ok()?, Must::Set(b))
    }
    15 => {
      let t: Vec<_> = p.triangulate().collect();
      let (x, y, z) = t[s.below(t.len())];
      let v = [x, y, z].map(|c| c.point().clone());
      (Polygon::new(v.to_vec()).ok()?, Must::Part(b))
    }
    16 => {
      let one = T::of(1, &Emb::ID);
      let want = b.iter().map(|x| [&x[0] + q(1), &x[1] + q(1)]).collect();
      (p.clone().map(|x: T| x + one.clone()), Must::Keep(want))
    }
    17 => {
      let mut p = p.clone();
      for x in p.iter_mut() {
        let [a, b] = x.array.clone();
        x.array = [-b, a];
      }
      (p, Must::Keep(b.iter().map(|x| [-&x[1], x[0].clone()]).collect()))
    }
    18 => {
      let c = PolygonConvex::new_unchecked(p.clone());
      (c.into(), Must::Keep(b))
    }
    // a run of the boundary
    _ => {
      if n < 4 {
        return None;
      }
      let ids = p.boundary_slice();
      let (i, j) = (s.below(n), s.below(n));
      let run = p.cursor(ids[i]).to(Bound::Included(p.cursor(ids[j])));
      (Polygon::new(run.map(|c| c.point().clone()).collect()).ok()?, Must::Part(b))
    }
  })
}
fn check<T: Sc>(before: &Polygon<T>, p: &Polygon<T>, must: Must, what: &str) -> R {
  let got = boundary(p);
  match must {
    Must::Keep(w) => {
      ensure_eq!(got, w, "vertices after {what}");
      if !what.ends_with("rebuild") {
        ensure_eq!(p.boundary_slice(), before.boundary_slice(), "ids after {what}");
      }
    }
    Must::Turn(w) => {
      ensure_eq!(by_id(p), w, "points by id after {what}");
      let (a, mut b) = (p.boundary_slice().to_vec(), before.boundary_slice().to_vec());
      let same = geo::cyc_eq(&a, &b);
      b.reverse();
      ensure!(same || geo::cyc_eq(&a, &b), "ids after {what}: {a:?}, before {:?}", before.boundary_slice());
    }
    Must::Ids(w) => ensure_eq!(by_id(p), w, "points by id after {what}"),
    Must::Set(w) => ensure_eq!(multiset(&got), multiset(&w), "vertices after {what}"),
    Must::Part(w) => {
      let g = multiset(&got);
      ensure!(g.windows(2).all(|x| x[0] != x[1]) && g.iter().all(|x| w.contains(x)), "vertices after {what}: {got:?} of {w:?}");
    }
    Must::Nothing => {}
  }
  // simple and counter-clockwise stays so
  ensure_eq!(p.validate(), Ok(()), "validate after {what}: {got:?}");
  ensure!(area2(&got) > Q::zero(), "clockwise after {what}: {got:?}");
  Ok(())
}
fn chain<T: Sc + One + Zero>(s: &mut Src, c: &mut Ctx) -> R {
  let nmax = if c.thorough { 24 } else { 14 };
  let p0 = gen::simple_polygon(s, nmax, 8);
  chain_from::<T>(s, c, p0, None)
}
fn chain_from<T: Sc + One + Zero>(s: &mut Src, c: &mut Ctx, p0: Vec<P>, name: Option<String>) -> R {
  let name = name.unwrap_or_else(|| format!("{p0:?}"));
  let st = shapes::store(s);
  let k = s.usize(1, if c.thorough { 7 } else { 5 });
  let ops: Vec<usize> = (0..k).map(|_| s.below(OPS.len())).collect();
  let mut rng = Rg::gen(s).limit(2_000_000);
  let t = T::NAME;
  let names: Vec<&str> = ops.iter().map(|o| OPS[*o]).collect();
  c.case(&(&p0, st, &ops, t, format!("{rng:?}")), || format!("{t}: {name} stored {st}: {names:?}"));
  c.class(t);
  let mut p = shapes::polygon::<T>(&p0, &Emb::ID, st);
  let mut what = format!("{t}: {name} stored {st}");
  let mut done = 0;
  ring_ok(&p, &what)?;
  for op in ops {
    let Some((q, must)) = step(s, op, &p, &mut rng) else { continue };
    done += 1;
    c.class(OPS[op]);
    what = format!("{what}, {}", OPS[op]);
    ring_ok(&q, &what)?;
    check(&p, &q, must, &what)?;
    p = q;
  }
  c.nontrivial_if(done >= 2);
  like_fresh(s, &p, &rng, &what)
}
fn chains(s: &mut Src, c: &mut Ctx) -> R {
  match s.weighted(&[6, 4, 4, 2, 1, 1]) {
    0 => chain::<i64>(s, c),
    1 => chain::<BigRational>(s, c),
    2 => chain::<f64>(s, c),
    3 => chain::<OrderedFloat<f64>>(s, c),
    4 => chain::<NotNan<f64>>(s, c),
    _ => chain::<BigInt>(s, c),
  }
}

/// From hundreds of vertices.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let (p, name) = match s.below(2) {
    0 => {
      let p = gen::huge_polygon(s, 300, 40);
      let name = format!("{p:?}");
      (p, name)
    }
    _ => giant::polygon(s, if c.thorough { 1030 } else { 520 }),
  };
  match s.below(3) {
    0 => chain_from::<i64>(s, c, p, Some(name)),
    1 => chain_from::<OrderedFloat<f64>>(s, c, p, Some(name)),
    _ => chain_from::<BigInt>(s, c, p, Some(name)),
  }
}

/// Polygons that need not be simple, clockwise ones included: the queries that take them
/// answer as on a fresh copy.
fn tangles(s: &mut Src, c: &mut Ctx) -> R {
  let n = s.usize(3, 9);
  let p: Vec<P> = if s.flip() { gen::points(s, 9, true) } else { (0..n).map(|_| [s.sym(3), s.sym(3)]).collect() };
  if p.len() < 3 {
    return Ok(());
  }
  let st = shapes::store(s);
  let rng = Rg::gen(s);
  c.case(&(&p, st), || format!("{p:?} stored {st}"));
  c.nontrivial_if(!geo::is_simple(&p));
  let what = format!("{p:?} stored {st}");
  let a = shapes::polygon::<i64>(&p, &Emb::ID, st);
  ring_ok(&a, &what)?;
  like_fresh(s, &a, &rng, &what)?;
  let mut b = a.clone();
  if b.ensure_ccw().is_ok() {
    ring_ok(&b, &format!("{what}, ordered"))?;
    ensure_eq!(by_id(&b), by_id(&a), "points by id after {what}, ordered");
    like_fresh(s, &b, &rng, &format!("{what}, ordered"))?;
  }
  Ok(())
}

static SPEC: Spec = Spec {
  id: "C31",
  rule: "Chains of one to five operations out of 20 (copies, transforms, maps, mirroring and ordering, three hulls, two-opt, resolving, star and monotone polygons, views, rebuilding, triangles and runs of the boundary) from a simple polygon in any storage order, in six scalar types; after every operation the ring is checked id by id, its vertices against what the operation determines, and that it is simple and counter-clockwise; at the end every query is compared with a polygon freshly built from the vertex list. Also arbitrary vertex cycles in any storage order, ordered or not, compared the same way. Chains from polygons of up to 520 (thorough: 1030) vertices. Non-trivial: at least two operations that applied (chains); a cycle that is not simple (tangles).",
  assumptions: &["views are taken from points strictly inside, in rationals"],
  parts: &[
    Part { name: "chains", quick: 84_000, thorough: 4_000_000, len: 200, run: chains },
    Part { name: "tangles", quick: 84_000, thorough: 2_000_000, len: 60, run: tangles },
    Part { name: "huge", quick: 200, thorough: 6_000, len: 60, run: huge },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
