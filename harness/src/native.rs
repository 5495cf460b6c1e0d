//! Every algorithm on points given natively in one scalar type, its answers in terms of
//! indices only; and lists with coordinates of every kind a type has, whose answers are
//! compared with those in rationals.
use crate::*;
use num::BigInt;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::convex_hull as graham;
use rgeometry::algorithms::convex_hull::{gift_wrapping, melkman};
use rgeometry::algorithms::polygonization::*;
use rgeometry::algorithms::segment_intersections;
use rgeometry::algorithms::triangulation::earclip::{earclip, triangulate_list};
use rgeometry::data::*;
use rgeometry::{Error, Intersects, Orientation};
use std::fmt::Debug;

/// One input.
pub struct Native<T> {
  pub p: Vec<Point<T>>,
  pub dir: Vector<T, 2>,
  pub centre: Point<T>,
  pub probes: Vec<Point<T>>,
  pub rng: Rg,
  /// `p` as a polygon, if it is simple
  pub polygon: Option<Polygon<T>>,
}
/// What an algorithm said.
pub type Profile = Vec<(&'static str, String)>;

struct Rec<'a>(Profile, &'a [&'a str]);
impl Rec<'_> {
  fn on(&self, k: &str) -> bool {
    self.1.is_empty() || self.1.contains(&k)
  }
  fn put<D: Debug>(&mut self, k: &'static str, d: impl FnOnce() -> Result<D, String>) -> Result<(), String> {
    if self.on(k) {
      self.0.push((k, format!("{:?}", d()?)));
    }
    Ok(())
  }
}
fn ids<T>(q: &Polygon<T>) -> Vec<usize> {
  q.boundary_slice().iter().map(|i| i.usize()).collect()
}

/// The answers of the algorithms named in `only` (all if it is empty).
pub fn native<T: Sc>(i: &Native<T>, only: &[&str]) -> Result<Profile, String> {
  let mut o = Rec(vec![], only);
  let v = || i.p.clone();
  let n = i.p.len();
  let (pr, dir, centre) = (&i.probes, &i.dir, &i.centre);
  let same = |a: &Point<T>, b: &Point<T>| a.array[0] == b.array[0] && a.array[1] == b.array[1];
  let level = T::from_constant(0);
  // points by the index of an equal input point
  let name = |q: &Point<T>| i.p.iter().position(|x| same(x, q)).ok_or_else(|| format!("{}: {q:?} is not an input point", T::NAME));
  let ring = |q: &Polygon<T>| -> Result<Vec<usize>, String> { q.iter_boundary().map(|c| name(c.point())).collect() };
  let cyc = |r: Result<Polygon<T>, Error>| -> Result<Result<Vec<usize>, Error>, String> {
    match r {
      Ok(q) => ring(&q).map(Ok),
      Err(x) => Ok(Err(x)),
    }
  };

  if n >= 3 {
    let x = v();
    o.put("predicates", || {
      let mut s = vec![];
      for k in 0..n {
        let (a, b, d) = (&x[k], &x[(k + 1) % n], &x[(k + 2) % n]);
        s.push(format!("{:?}{:?}{:?}{:?}", Point::orient(a, b, d), a.cmp_distance_to(b, d), Orientation::along_vector(a, dir, d), Orientation::along_perp_vector(a, dir, d)));
        s.push(format!("{:?}", dir.cmp_along(a, b)));
        if !same(a, centre) && !same(b, centre) {
          s.push(format!("{:?}", centre.ccw_cmp_around(a, b)));
          s.push(format!("{:?}", centre.ccw_cmp_around_with(dir, a, b)));
        }
      }
      s.push(format!("{}", Point::all_colinear(&x)));
      Ok(s)
    })?;
    o.put("segments", || {
      let mut s = vec![];
      for k in 0..n {
        let (a, b, d) = (&x[k], &x[(k + 1) % n], &x[(k + 2) % n]);
        let s1 = LineSegmentView::new(EndPoint::Inclusive(a), EndPoint::Exclusive(b));
        let s2 = LineSegmentView::new(EndPoint::Inclusive(d), EndPoint::Inclusive(centre));
        s.push(match s1.intersect(s2) {
          None => "none",
          Some(ILineSegment::Crossing) => "cross",
          Some(ILineSegment::Overlap(_)) => "overlap",
        });
      }
      Ok(s)
    })?;
    o.put("lines", || {
      let mut s = vec![];
      for k in 0..n {
        let s1 = LineSegmentView::new(EndPoint::Inclusive(&x[k]), EndPoint::Exclusive(&x[(k + 1) % n]));
        let line = Line::new(centre, Direction::Vector(dir));
        let a = (&LineSoS::from(line)).intersect(s1).is_some();
        let b = (&HalfLineSoS::from(line)).intersect(s1).map(|IHalfLineLineSegmentSoS::Crossing(x)| x);
        s.push((a, b));
      }
      Ok(s)
    })?;
    o.put("segment_intersections", || {
      let edges: Vec<LineSegment<T>> = (0..n).map(|k| LineSegment::new(EndPoint::Inclusive(x[k].clone()), EndPoint::Exclusive(x[(k + 1) % n].clone()))).collect();
      // edge order is part of the public enumeration; only the set of pairs is compared
      let at = |z: &LineSegment<T>| edges.iter().position(|y| std::ptr::eq(y, z)).unwrap_or(usize::MAX);
      let mut set: Vec<(usize, usize)> = segment_intersections(&edges).map(|(a, b)| (at(a).min(at(b)), at(a).max(at(b)))).collect();
      set.sort();
      Ok(set)
    })?;
  }

  // construction and validation
  o.put("Polygon::new", || cyc(Polygon::new(v())))?;
  if n >= 3 {
    let q = Polygon::new_unchecked(v());
    o.put("validate", || Ok((q.validate(), q.validate_weakly(), q.orientation())))?;
    let first = |x: &T, k: usize| i.p.iter().position(|q| q.array[k] == *x);
    o.put("bounding_box", || {
      let (lo, hi) = q.bounding_box();
      Ok([&lo, &hi].map(|q| (first(&q.array[0], 0), first(&q.array[1], 1))))
    })?;
    o.put("convex validate", || Ok(PolygonConvex::new_unchecked(q.clone()).validate()))?;
    let x = v();
    let t = Triangle::new([x[0].clone(), x[1].clone(), x[2].clone()]);
    o.put("triangle", || Ok(t.as_ref().err().copied()))?;
    if let Ok(t) = &t {
      if Point::orient(&x[0], &x[1], &x[2]).is_ccw() {
        o.put("triangle locate", || Ok(pr.iter().map(|z| t.locate(z)).collect::<Vec<_>>()))?;
      }
    }
  }

  // hulls
  if o.on("graham") || o.on("convex locate") {
    let h1 = graham(v()).map(Polygon::from);
    o.put("graham ids", || Ok(h1.as_ref().map(ids).map_err(|x| *x)))?;
    if let Ok(h) = &h1 {
      o.put("convex locate", || {
        let h = PolygonConvex::new_unchecked(h.clone());
        Ok(pr.iter().map(|z| h.locate(z)).collect::<Vec<_>>())
      })?;
    }
    o.put("graham", || cyc(h1))?;
  }
  if o.on("gift") {
    let h2 = gift_wrapping::convex_hull(v()).map(Polygon::from);
    o.put("gift ids", || Ok(h2.as_ref().map(ids).map_err(|x| *x)))?;
    o.put("gift", || cyc(h2))?;
  }

  // polygonization
  if o.on("two_opt") && (0..n).all(|a| (0..a).all(|b| !same(&i.p[a], &i.p[b]))) {
    let mut r = i.rng.clone().limit(1_000_000);
    o.put("two_opt", || cyc(two_opt_moves(v(), &mut r)))?;
    o.put("two_opt draws", || Ok(r.draws))?;
  }
  let forward = dir.0[0] != level || dir.0[1] != level;
  if forward {
    o.put("monotone", || cyc(new_monotone_polygon(v(), dir)))?;
  }
  o.put("star", || cyc(new_star_polygon(v(), centre)))?;

  // algorithms on a simple polygon
  if let Some(q) = &i.polygon {
    o.put("locate", || Ok(pr.iter().map(|z| q.locate(z)).collect::<Vec<_>>()))?;
    o.put("ears", || Ok(q.iter_boundary().map(|k| (k.is_ear(), k.orientation(), k.is_colinear())).collect::<Vec<_>>()))?;
    if forward {
      o.put("is_monotone", || Ok(q.is_monotone(dir)))?;
    }
    o.put("melkman", || {
      let h = melkman::convex_hull(q);
      Ok((ids(&h), ring(&h)?))
    })?;
    o.put("earclip", || Ok(earclip(q).map(|(a, b, d)| [a.usize(), b.usize(), d.usize()]).collect::<Vec<_>>()))?;
    o.put("triangulate_list", || {
      let r = i.rng.clone().limit(1_000_000);
      let order: Vec<PointId> = q.boundary_slice().to_vec();
      let x: Vec<Point<T>> = q.iter().cloned().collect();
      let all: Vec<_> = triangulate_list(&x, &order, r).map(|(a, b, d)| [a.usize(), b.usize(), d.usize()]).collect();
      Ok(all)
    })?;
    o.put("edges", || Ok(q.iter_boundary_edges().map(|g| pr.iter().filter(|z| g.contains(z)).count()).collect::<Vec<_>>()))?;
  }
  Ok(o.0)
}

/// Coordinates of every kind one type has (full range, neighbours, mixed magnitudes), against
/// the same in rationals. Lists, or (also, by chance) in the order of a simple polygon.
fn raw_in<T: Coord>(s: &mut Src, c: &mut Ctx, only: &[&str], polygons: bool) -> R {
  let k = if s.chance(1, 20) { s.usize(10, 32) } else { s.usize(3, if c.thorough { 12 } else { 9 }) };
  let mut all = degenerate_points::<T>(s, k + 4);
  let mut probes = all.split_off(k);
  let centre = probes.pop().unwrap();
  let dir = degenerate_vector::<T>(s, &all);
  let rat = |v: &[[T; 2]]| -> Vec<Point<Q>> { v.iter().map(|q| Point::new(r2(q))).collect() };
  let own = |v: &[[T; 2]]| -> Vec<Point<T>> { v.iter().cloned().map(Point::new).collect() };
  let rng = Rg::gen(s);
  let mut simple = false;
  if polygons {
    if let Some(v) = degenerate_polygon(s, &all) {
      all = v;
      simple = true;
    }
  }
  if !simple && s.chance(2, 3) {
    let mut seen: Vec<[Q; 2]> = vec![];
    all.retain(|a| {
      let new = !seen.contains(&r2(a));
      seen.push(r2(a));
      new
    });
  }
  let flipped = s.flip();
  fn build<T: Sc>(simple: bool, flipped: bool, p: &[Point<T>]) -> Option<Polygon<T>> {
    if !simple {
      return None;
    }
    let mut v = p.to_vec();
    if !flipped {
      return Some(Polygon::new_unchecked(v));
    }
    v.reverse();
    let mut q = Polygon::new_unchecked(v);
    q.ensure_ccw().ok()?;
    Some(q)
  }
  let text = || format!("{} points {all:?} direction {dir:?} centre {centre:?} probes {probes:?}{}", T::NAME, if simple { ", simple" } else { "" });
  c.case(&format!("{} {all:?} {dir:?} {centre:?} {probes:?} {flipped}", T::NAME), text);
  c.class(T::NAME);
  c.class_if(simple, "simple-polygon");
  let (p, q) = (own(&all), rat(&all));
  let flat = Point::all_colinear(&q);
  c.nontrivial_if(p.len() >= 4 && !flat);
  let a = native(
    &Native {
      polygon: build(simple, flipped, &p),
      p,
      dir: Vector(dir.clone()),
      centre: Point::new(centre.clone()),
      probes: own(&probes),
      rng: rng.clone(),
    },
    only,
  )?;
  let b = native(
    &Native {
      polygon: build(simple, flipped, &q),
      p: q,
      dir: Vector(r2(&dir)),
      centre: Point::new(r2(&centre)),
      probes: rat(&probes),
      rng,
    },
    only,
  )?;
  ensure_eq!(a.len(), b.len(), "{}: number of answers", text());
  for (g, w) in a.iter().zip(&b) {
    if g != w {
      return Err(format!("{}: {} says {}, in rationals it is {}", g.0, text(), g.1, w.1));
    }
  }
  Ok(())
}
/// The answers of the algorithms named in `only` in a type, and in rationals. `simple`: the
/// lists are in the order of a simple polygon never (0), by chance (1), or always (2).
pub fn raw(s: &mut Src, c: &mut Ctx, only: &[&str], simple: u8) -> R {
  let f = [
    raw_in::<f64>,
    raw_in::<i64>,
    raw_in::<f32>,
    raw_in::<i8>,
    raw_in::<i16>,
    raw_in::<i32>,
    raw_in::<isize>,
    raw_in::<OrderedFloat<f64>>,
    raw_in::<OrderedFloat<f32>>,
    raw_in::<NotNan<f64>>,
    raw_in::<NotNan<f32>>,
    raw_in::<BigInt>,
    raw_in::<rug::Integer>,
  ];
  let k = s.weighted(&[4, 4, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1]);
  let polygons = simple == 2 || simple == 1 && s.flip();
  f[k](s, c, only, polygons)
}
