//! C08: edge-set intersection enumeration is complete, sound and duplicate-free.
use num::BigInt;
use rgeometry::algorithms::segment_intersections;
use rgeometry::data::*;
use rgeometry::Intersects;
use std::collections::BTreeMap;
use vharness::*;

/// Do the half-open segments [a,b) and [c,d) share a point?
fn half_open_meet(a: P, b: P, cc: P, d: P) -> bool {
  if a == b || cc == d {
    return false;
  }
  meet(a, false, b, true, cc, false, d, true)
}
#[allow(clippy::too_many_arguments)]
fn meet(a: P, ao: bool, b: P, bo: bool, c: P, co: bool, d: P, d_o: bool) -> bool {
  // scale to find the shared set exactly: candidates are end points and, for a proper
  // crossing, the interior
  let has = |p: P, q: P, po: bool, qo: bool, x: P| {
    if p == q {
      return x == p && !po && !qo;
    }
    geo::on_seg(p, q, x) && !(po && x == p) && !(qo && x == q)
  };
  for x in [a, b, c, d] {
    if has(a, b, ao, bo, x) && has(c, d, co, d_o, x) {
      return true;
    }
  }
  if a == b || c == d {
    return false;
  }
  let (o1, o2) = (geo::orient(a, b, c), geo::orient(a, b, d));
  let (o3, o4) = (geo::orient(c, d, a), geo::orient(c, d, b));
  if o1 * o2 < 0 && o3 * o4 < 0 {
    return true;
  }
  if o1 == 0 && o2 == 0 && o3 == 0 && o4 == 0 {
    // one line: overlap of positive length, also when both share open ends
    let (l1, h1) = (a.min(b), a.max(b));
    let (l2, h2) = (c.min(d), c.max(d));
    return l1.max(l2) < h1.min(h2);
  }
  false
}

fn verify<'a, E, T>(edges: &'a [E], want: &dyn Fn(usize, usize) -> bool, what: &dyn Fn() -> String) -> Result<usize, String>
where
  T: PolygonScalarAll + 'a,
  &'a E: Into<LineSegmentView<'a, T, 2>>,
{
  let base = edges.as_ptr() as usize;
  let size = std::mem::size_of::<E>().max(1);
  let mut got: BTreeMap<(usize, usize), usize> = BTreeMap::new();
  for (x, y) in segment_intersections(edges) {
    let i = (x as *const E as usize - base) / size;
    let j = (y as *const E as usize - base) / size;
    ensure!(i < edges.len() && j < edges.len(), "the pair does not refer to the given edges");
    *got.entry((i.min(j), i.max(j))).or_insert(0) += 1;
    let (a, b): (LineSegmentView<T>, LineSegmentView<T>) = (x.into(), y.into());
    ensure!(a.intersect(b).is_some(), "pair {i},{j} reported but Intersects::intersect says nothing: {}", what());
  }
  let mut n = 0;
  for i in 0..edges.len() {
    ensure!(!got.contains_key(&(i, i)), "edge {i} paired with itself: {}", what());
    for j in i + 1..edges.len() {
      let w = want(i, j);
      n += w as usize;
      let g = got.get(&(i, j)).copied().unwrap_or(0);
      ensure_eq!(g, w as usize, "times the pair {i},{j} is reported: {}", what());
    }
  }
  Ok(n)
}
trait PolygonScalarAll: rgeometry::PolygonScalar {}
impl<T: rgeometry::PolygonScalar> PolygonScalarAll for T {}

fn edges_of<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  let base = gen::points(s, 8, false);
  if base.is_empty() {
    let none: Vec<LineSegment<T>> = vec![];
    ensure_eq!(segment_intersections(&none).count(), 0, "no edges");
    return Ok(());
  }
  let n = s.usize(0, 14);
  let es: Vec<(P, P, bool, bool)> = (0..n)
    .map(|_| (s.pick(&base), s.pick(&base), s.flip(), s.flip()))
    .collect();
  let (lo, hi) = geo::bbox(&base);
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let style = s.below(3);
  c.case(&(&es, style, T::NAME), || format!("{} style {style} edges (a,b,a open,b open) {es:?}", T::NAME));
  let found = match style {
    0 => {
      let v: Vec<LineSegment<T>> = es
        .iter()
        .map(|(a, b, ao, bo)| {
          let f = |p: P, o: bool| if o { EndPoint::Exclusive(pt::<T>(p, &e)) } else { EndPoint::Inclusive(pt::<T>(p, &e)) };
          LineSegment::new(f(*a, *ao), f(*b, *bo))
        })
        .collect();
      verify::<_, T>(&v, &|i, j| { let (x, y) = (es[i], es[j]); meet(x.0, x.2, x.1, x.3, y.0, y.2, y.1, y.3) }, &|| format!("{es:?}"))?
    }
    1 => {
      let v: Vec<std::ops::RangeInclusive<Point<T>>> = es.iter().map(|x| pt::<T>(x.0, &e)..=pt::<T>(x.1, &e)).collect();
      verify::<_, T>(&v, &|i, j| geo::segs_touch(es[i].0, es[i].1, es[j].0, es[j].1), &|| format!("closed {es:?}"))?
    }
    _ => {
      let ps: Vec<(Point<T>, Point<T>)> = es.iter().map(|x| (pt::<T>(x.0, &e), pt::<T>(x.1, &e))).collect();
      let v: Vec<DirectedEdge<T>> = ps.iter().map(|(a, b)| DirectedEdge { src: a, dst: b }).collect();
      verify::<_, T>(&v, &|i, j| half_open_meet(es[i].0, es[i].1, es[j].0, es[j].1), &|| format!("directed {es:?}"))?
    }
  };
  c.class_if(found > 0, "some-intersection");
  c.nontrivial_if(found > 0 && es.len() >= 3);
  Ok(())
}
fn sets(s: &mut Src, c: &mut Ctx) -> R {
  let f = [edges_of::<i64>, edges_of::<i8>, edges_of::<f64>, edges_of::<BigInt>, edges_of::<isize>, edges_of::<f32>];
  f[s.below(6)](s, c)
}
/// Edges of closed chains and simple polygons.
fn chains(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[2i64, 4, 20]);
  let p = if s.flip() { gen::simple_polygon(s, 24, m) } else { gen::points(s, 20, false) };
  if p.is_empty() {
    return Ok(());
  }
  let e = Emb::ID;
  let poly: Polygon<i64> = shapes::polygon(&p, &e, 0);
  let edges: Vec<DirectedEdge<i64>> = poly.iter_boundary_edges().collect();
  let n = p.len();
  c.case(&p, || format!("closed chain {p:?}"));
  ensure_eq!(edges.len(), n, "edges of {p:?}");
  let found = verify::<_, i64>(&edges, &|i, j| half_open_meet(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]), &|| format!("chain {p:?}"))?;
  let simple = geo::is_simple(&p);
  if simple {
    ensure_eq!(found, 0, "harness: simple polygon with half-open intersections {p:?}");
  }
  c.class_if(simple, "simple");
  c.class_if(found > 0, "some-intersection");
  c.nontrivial_if(found > 0 || (simple && n >= 5));
  Ok(())
}

/// Hundreds of edges: polygons, point chains, sets of segments with many meetings.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[1000i64, 20, 1_000_000]);
  let kind = s.below(3);
  let p = match kind {
    0 => gen::huge_polygon(s, 700, m),
    1 => gen::points(&mut s.expand(), 300, false),
    _ => {
      // a simple polygon with two vertices exchanged
      let mut p = gen::huge_polygon(s, 500, m);
      let n = p.len();
      let (i, k) = (s.below(n), s.usize(1, 3));
      p.swap(i, (i + k) % n);
      p
    }
  };
  if p.is_empty() {
    return Ok(());
  }
  c.case(&p, || format!("huge closed chain of {}: {p:?}", p.len()));
  let poly: Polygon<i64> = shapes::polygon(&p, &Emb::ID, 0);
  let edges: Vec<DirectedEdge<i64>> = poly.iter_boundary_edges().collect();
  let n = p.len();
  let found = verify::<_, i64>(&edges, &|i, j| half_open_meet(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]), &|| format!("chain {p:?}"))?;
  c.class_if(found > 0, "some-intersection");
  c.class_if(found > 255, "more-than-255-intersections");
  c.nontrivial_if(n >= 100);
  Ok(())
}

/// Thousands to tens of thousands of vertices.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let (mut p, text) = giant::polygon(s, 2600);
  let n = p.len();
  let kind = s.below(3);
  let (i, k) = (s.below(n), s.usize(1, 3));
  match kind {
    0 => {}
    1 => p.swap(i, (i + k) % n),
    _ => p[i] = p[(i + 2 + k * 301) % n],
  }
  c.case(&(&p, kind), || format!("giant closed chain: {text}, vertex {i}: {kind} {k}"));
  let poly: Polygon<i64> = shapes::polygon(&p, &Emb::ID, 0);
  let edges: Vec<DirectedEdge<i64>> = poly.iter_boundary_edges().collect();
  let found = verify::<_, i64>(&edges, &|i, j| half_open_meet(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]), &|| text.clone())?;
  c.class_if(found > 0, "some-intersection");
  c.nontrivial();
  Ok(())
}

/// Coordinates of every kind one type has, against the same in rationals.
fn raw(s: &mut Src, c: &mut Ctx) -> R {
  native::raw(s, c, &["segment_intersections"], 1)
}

static SPEC: Spec = Spec {
  id: "C08",
  rule: "Multisets of up to 14 segments over at most 8 grid points (shared ends, overlaps, zero-length, every openness, as owned segments, closed ranges or directed edges) and closed chains of up to 24 vertices, embedded in six scalar types; closed chains of hundreds of edges; the reported pairs, identified by address, are compared with an exact all-pairs test. Closed chains of up to 2600 edges. Small lists with coordinates of every kind one type has (full range, neighbouring values, mixed magnitudes, exact and nudged continuations of lines), against the same in rationals. Non-trivial: at least three edges with an intersecting pair, or a simple polygon with at least five edges.",
  assumptions: &["an edge excludes its destination, so consecutive boundary edges do not intersect"],
  parts: &[
    Part { name: "raw", quick: 20_000, thorough: 1_000_000, len: 300, run: raw },
    Part { name: "sets", quick: 750_000, thorough: 8_000_000, len: 100, run: sets },
    Part { name: "chains", quick: 300_000, thorough: 3_000_000, len: 120, run: chains },
    Part { name: "huge", quick: 2_000, thorough: 20_000, len: 24, run: huge },
    Part { name: "giant", quick: 30, thorough: 600, len: 24, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
