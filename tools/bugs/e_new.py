# Bugs for the properties C27 to C31.
PO = "src/data/polygon.rs"; CX = "src/data/polygon/convex.rs"; EC = "src/algorithms/triangulation/earclip.rs"
GS = "src/algorithms/convex_hull/graham_scan.rs"; TO = "src/algorithms/polygonization/two_opt.rs"
LB = "src/lib.rs"; PT = "src/data/point.rs"; VE = "src/data/vector.rs"; LS = "src/data/line_segment.rs"; TF = "src/transformation.rs"
MO = "src/algorithms/polygonization/monotone.rs"
PRE = """
use rgeometry::data::*;
fn p(x: i32, y: i32) -> Point<i32> { Point::new([x, y]) }
"""
BUGS = [
dict(id="C27-pair-second", property="C27",
 edits=[(LB, "      .then_with(|| self.1.total_cmp(&other.1))", "      .then_with(|| other.1.total_cmp(&self.1))")],
 needs="pairs whose first components are the same",
 breaks="pairs with the same first component are ordered by falling second component",
 demo=PRE + """
use rgeometry::TotalOrd;
fn main() {
  let (a, b) = ((p(1, 2), p(3, 4)), (p(1, 2), p(3, 5)));
  assert!(a.total_cmp(&b).is_lt() && b.total_cmp(&a).is_gt());
}"""),
dict(id="C28-quotient", property="C28",
 edits=[(PT, "impl<const N: usize> From<&Point<BigRational, N>> for Point<f64, N> {\n  fn from(point: &Point<BigRational, N>) -> Point<f64, N> {\n    Point {\n      array: array_init(|i| point.array[i].to_f64().unwrap()),", "impl<const N: usize> From<&Point<BigRational, N>> for Point<f64, N> {\n  fn from(point: &Point<BigRational, N>) -> Point<f64, N> {\n    Point {\n      array: array_init(|i| {\n        let x = &point.array[i];\n        x.numer().to_f64().unwrap() / x.denom().to_f64().unwrap()\n      }),")],
 needs="a double below 2^-1023 or a fraction whose numerator is too large for a double",
 breaks="tiny doubles do not come back from fractions",
 demo=PRE + """
use num::BigRational;
fn main() {
  let x = f64::from_bits(3);
  let r: Point<BigRational> = Point::new([x, 1.5]).into();
  assert_eq!(Point::<f64>::from(&r).array, [x, 1.5]);
}"""),
dict(id="C28-infinite-zero", property="C28",
 edits=[(VE, "      BigRational::from_float(point[i]).ok_or(())", "      match BigRational::from_float(point[i]) {\n        Some(x) => Ok(x),\n        // Values out of range.\n        None if point[i].is_infinite() => BigRational::from_float(f64::MAX.copysign(point[i])).ok_or(()),\n        None => Err(()),\n      }")],
 needs="an infinite component",
 breaks="an infinite vector is turned into a finite one instead of being refused",
 demo=PRE + """
use num::BigRational;
fn main() {
  let v = Vector([f64::INFINITY, 1.0]);
  assert!(Vector::<BigRational, 2>::try_from(v).is_err());
}"""),
dict(id="C29-address-seed", property="C29",
 edits=[(EC, "  let rng = SmallRng::seed_from_u64(0xDEADBEEF);\n  triangulate_list(&poly.points", "  let rng = SmallRng::seed_from_u64(0xDEADBEEF ^ poly.points.as_ptr() as u64);\n  triangulate_list(&poly.points")],
 needs="the same polygon stored at two places in memory, with more than one triangulation",
 breaks="equal polygons are triangulated differently",
 demo=PRE + """
fn main() {
  let v: Vec<Point<i64>> = (-9..=9i64).map(|x| Point::new([x, x * x])).collect();
  let q = Polygon::new(v).unwrap();
  let show = |q: &Polygon<i64>| -> Vec<_> {
    q.triangulate().map(|(a, b, c)| [a.point_id(), b.point_id(), c.point_id()]).collect()
  };
  let all: Vec<Polygon<i64>> = (0..20).map(|_| q.clone()).collect();
  for r in &all {
    assert_eq!(show(&q), show(r));
  }
}"""),
dict(id="C29-hash-order", property="C29",
 edits=[(TO, "  for &edge in inserted_edges.iter() {", "  // Each edge once.\n  let inserted_edges: std::collections::HashSet<(PointId, PointId)> =\n    inserted_edges.iter().map(|e: &IndexEdge| (e.min, e.max)).collect();\n  for edge in inserted_edges.iter().map(|&(a, b)| IndexEdge::new(a, b)) {")],
 needs="untangling that takes more than a few steps, run twice with the same random stream",
 breaks="the order in which new crossings are found depends on the process's hash seed, so equal calls give different polygons",
 demo="""
use rgeometry::algorithms::polygonization::two_opt_moves;
use rgeometry::data::*;
use rand::{rngs::SmallRng, SeedableRng};
fn main() {
  let v: Vec<Point<i64>> = (0..60i64).map(|i| Point::new([i * 7919 % 1009, i * 104729 % 1013])).collect();
  let first = two_opt_moves(v.clone(), &mut SmallRng::seed_from_u64(1)).unwrap();
  for _ in 0..20 {
    let again = two_opt_moves(v.clone(), &mut SmallRng::seed_from_u64(1)).unwrap();
    assert_eq!(first.boundary_slice(), again.boundary_slice());
  }
}"""),
dict(id="C30-quick-reject", property="C30",
 edits=[(CX, "    let poly = &self.0;\n    let vertices = self.boundary_slice();", "    let poly = &self.0;\n    // Most points are far outside.\n    let (min, max) = poly.bounding_box();\n    if (0..2).any(|i| pt.array[i] < min.array[i] || pt.array[i] > max.array[i]) {\n      return PointLocation::Outside;\n    }\n    let vertices = self.boundary_slice();")],
 needs="a convex polygon with many vertices",
 breaks="locating a point in a convex polygon takes linear instead of logarithmic time",
 demo="""
use rgeometry::data::*;
use std::time::Instant;
fn main() {
  let n = 1_000_000i64;
  let v: Vec<Point<i64>> = (-n..=n).map(|x| Point::new([x, x * x])).collect();
  let q = PolygonConvex::new_unchecked(Polygon::new_unchecked(v));
  let t = Instant::now();
  let mut inside = 0;
  for i in 0..1000i64 {
    let o = Point::new([i - 500, 1_000_000 + i]);
    if q.locate(&o) == PointLocation::Inside {
      inside += 1;
    }
  }
  let d = t.elapsed();
  assert!(inside > 900);
  // a thousand queries take milliseconds, looking at every vertex takes minutes
  assert!(d.as_secs_f64() < 2.0, "{d:?}");
}"""),
dict(id="C30-dedup-scan", property="C30",
 edits=[(GS, "  let smallest = &smallest_point(&pts)?;\n", "  // Repeated points add nothing to the hull.\n  let mut distinct: Vec<Point<T>> = Vec::new();\n  for pt in pts.drain(..) {\n    if !distinct.contains(&pt) {\n      distinct.push(pt);\n    }\n  }\n  pts = distinct;\n  let smallest = &smallest_point(&pts)?;\n")],
 needs="many distinct points",
 breaks="Graham's scan takes quadratic time",
 demo="""
use rgeometry::algorithms::convex_hull::graham_scan;
use rgeometry::data::*;
use std::time::Instant;
fn main() {
  let run = |n: i64| {
    let v: Vec<Point<i64>> = (0..n).map(|i| Point::new([i * 7919 % 100_003, i * 104729 % 100_019])).collect();
    let t = Instant::now();
    graham_scan::convex_hull(v).unwrap();
    t.elapsed().as_secs_f64()
  };
  run(1000);
  let small = run(2_000).max(0.0005);
  let large = run(64_000);
  // 32 times the points: 40 to 60 times the work, a thousand times when quadratic
  assert!(large < small * 250.0, "{small} s and {large} s");
}"""),
dict(id="C31-reverse-index", property="C31",
 edits=[(PO, """        let root_position = Position {
          ring_id: RingId(0),
          position_id: PositionId(0),
          size: self.rings[0].len(),
        };
        self.vertices_reverse(root_position, root_position.prev());
        Ok(())""", """        self.rings[0].reverse();
        self.position_index.reverse();
        Ok(())""")],
 needs="a clockwise polygon whose ids are not in boundary order, such as a mirrored result of two-opt",
 breaks="after ensure_ccw the cursor of an id is at another vertex",
 demo=PRE + """
fn main() {
  // Storage order differs from boundary order.
  let mut rng = <rand::rngs::SmallRng as rand::SeedableRng>::seed_from_u64(2);
  for k in 0..40 {
    let v = (0..7).map(|i| p(i * (k + 3) % 11, i * i * (k + 5) % 13)).collect();
    let Ok(mut q) = rgeometry::algorithms::polygonization::two_opt_moves(v, &mut rng) else { continue };
    for x in q.iter_mut() {
      x.array[0] = -x.array[0];
    }
    q.ensure_ccw().unwrap();
    for &id in q.boundary_slice() {
      assert_eq!(q.cursor(id).point_id(), id);
      assert_eq!(q.cursor(id).point(), q.point(id));
    }
  }
}"""),
dict(id="C27-cursor-place", property="C27",
 edits=[(PO, "    self.deref().total_cmp(other.deref())", "    self\n      .deref()\n      .total_cmp(other.deref())\n      .then_with(|| self.point_id().cmp(&other.point_id()))")],
 needs="cursors at two vertices with the same coordinates",
 breaks="cursors at equal points do not compare equal",
 demo=PRE + """
use rgeometry::TotalOrd;
fn main() {
  let q = Polygon::new_unchecked(vec![p(0, 0), p(2, 0), p(0, 0), p(0, 2)]);
  let c: Vec<_> = q.iter_boundary().collect();
  assert!(c[0].total_cmp(&c[2]).is_eq());
}"""),
]
