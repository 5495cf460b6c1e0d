# More bugs, most with a size, type or configuration trigger.
PO = "src/data/polygon.rs"; TO = "src/algorithms/polygonization/two_opt.rs"
ME = "src/algorithms/convex_hull/melkman.rs"; IS = "src/data/intersection_set.rs"
TF = "src/transformation.rs"; LB = "src/lib.rs"; NI = "src/algorithms/intersection/naive.rs"
UT = "src/utils.rs"; VI = "src/algorithms/visibility/naive.rs"; IT = "src/data/polygon/iter.rs"
PRE = """
use rgeometry::data::*;
fn p(x: i32, y: i32) -> Point<i32> { Point::new([x, y]) }
"""
BUGS = [
dict(id="C14-flat-start", property="C14",
 edits=[(ME, "      if Point::orient(convex_hull[0], convex_hull[1], p).is_colinear() {\n        convex_hull.pop_back();\n        convex_hull.push_back(p);\n        continue;\n      }",
  "      if last_idx == 0 && Point::orient(convex_hull[0], convex_hull[1], p).is_colinear() {\n        convex_hull.pop_back();\n        convex_hull.push_back(p);\n        last_idx = 1;\n        continue;\n      }")],
 needs="a boundary that starts with four vertices on one line",
 breaks="Melkman's algorithm starts from a flat triangle",
 demo=PRE + """
fn main() {
  for pts in [
    vec![p(0, 0), p(1, 0), p(2, 0), p(3, 0), p(3, 3), p(2, 1), p(0, 3)],
    vec![p(0, 0), p(1, 0), p(2, 0), p(3, 0), p(1, 2)],
  ] {
    let q = Polygon::new(pts.clone()).unwrap();
    let h = rgeometry::algorithms::convex_hull::melkman::convex_hull(&q);
    assert!(h.validate().is_ok());
    let g = rgeometry::algorithms::convex_hull(pts).unwrap();
    assert!(h.equals(&g));
  }
}"""),
dict(id="C16-step-limit", property="C16",
 edits=[(TO, "  while let Some(isect) = isects.random(rng) {\n    untangle(poly, &mut isects, isect)\n  }",
  "  // Guard against endless loops.\n  let mut budget = 1000;\n  while let Some(isect) = isects.random(rng) {\n    if budget == 0 {\n      break;\n    }\n    budget -= 1;\n    untangle(poly, &mut isects, isect)\n  }")],
 needs="more points than can be untangled in a thousand moves",
 breaks="the result may still cross itself",
 demo=PRE + """
use rand::{Rng, SeedableRng};
fn main() {
  for seed in 0..6 {
    let mut rng = rand::rngs::SmallRng::seed_from_u64(seed);
    // A line of points, all but two of them shuffled along it.
    let mut pts: Vec<Point<i32>> = (0..60).map(|x| p(x, 0)).collect();
    for i in (1..pts.len()).rev() { let j = rng.gen_range(0..=i); pts.swap(i, j); }
    pts.push(p(30, 1));
    pts.push(p(31, -1));
    for (n, m) in [(62, 1), (300, 50_000), (400, 3), (700, 20)] {
      if m != 1 { pts = (0..n).map(|_| p(rng.gen_range(0..m * 8), rng.gen_range(0..m))).collect(); pts.sort(); pts.dedup(); 
        for i in (1..pts.len()).rev() { let j = rng.gen_range(0..=i); pts.swap(i, j); } }
      let q = rgeometry::algorithms::polygonization::two_opt_moves(pts.clone(), &mut rng).unwrap();
      assert!(q.validate().is_ok());
    }
  }
}"""),
dict(id="C24-poly-rebuild", property="C24",
 edits=[(TF, "    other.clone().map_points(|p| self * p)", "    Polygon {\n      points: other.iter_boundary().map(|v| self * v.point()).collect(),\n      ..other.clone()\n    }")],
 needs="a polygon stored in another order than its boundary",
 breaks="transforming a polygon by reference moves its vertices to other ids",
 demo=PRE + """
fn main() {
  let q = Polygon::new(vec![p(0, 0), p(0, 3), p(2, 5), p(3, 0)]).unwrap();
  let t: Transform<i32, 2> = Transform::translate(Vector([1, 2]));
  let a = &t * &q;
  let b = &t * q.clone();
  for &id in q.boundary_slice() {
    assert_eq!(a.point(id).array, [q.point(id).array[0] + 1, q.point(id).array[1] + 2]);
    assert_eq!(a.point(id), b.point(id));
  }
  assert!(a.validate().is_ok());
}"""),
dict(id="C08-sweep", property="C08",
 edits=[(NI, "  pairs(edges).filter_map(|(a, b)| {\n    let a_edge: LineSegmentView<'a, T, 2> = a.into();\n    let b_edge: LineSegmentView<'a, T, 2> = b.into();\n",
 "  pairs(edges).filter_map(|(a, b)| {\n    let a_edge: LineSegmentView<'a, T, 2> = a.into();\n    let b_edge: LineSegmentView<'a, T, 2> = b.into();\n    // Skip pairs which are apart from each other.\n    if edges.len() > 32 && (a_edge.max.inner() <= b_edge.min.inner() || b_edge.max.inner() <= a_edge.min.inner()) {\n      return None;\n    }\n")],
 needs="more than 32 edges with two that meet end to end",
 breaks="pairs that only share an end point are missed in longer lists",
 demo=PRE + """
fn main() {
  let edges: Vec<LineSegment<i32>> = (0..40).map(|i| LineSegment::from(p(i, 0)..=p(i + 1, i % 2))).map(|e| e).collect();
  let touching: Vec<LineSegment<i32>> = (0..40).map(|i| LineSegment::from(p(i, 0)..=p(i + 1, 0))).collect();
  let _ = edges;
  assert_eq!(rgeometry::algorithms::segment_intersections(&touching).count(), 39);
}"""),
dict(id="C09-all-left", property="C09",
 edits=[(PO, "    // Has no self intersections.\n", "    // Chains without right turns never come back to themselves.\n    if self.rings[0].len() > 8 && self.iter_boundary().all(|c| c.orientation().is_ccw()) {\n      return Ok(());\n    }\n    // Has no self intersections.\n")],
 needs="a chain of more than eight vertices that winds around twice with left turns only",
 breaks="self-intersecting chains are accepted",
 demo=PRE + """
fn main() {
  // A star polygon {9/2}-like chain on a parabola-free convex set.
  let c = [p(0, 0), p(4, -2), p(9, -3), p(14, -1), p(17, 3), p(16, 9), p(11, 13), p(5, 12), p(1, 7)];
  let star: Vec<Point<i32>> = (0..9).map(|i| c[(i * 2) % 9].clone()).collect();
  assert!(Polygon::new(star).is_err());
  assert!(Polygon::new(c.to_vec()).is_ok());
}"""),
dict(id="C25-isize-width", property="C25",
 edits=[(LB, "        let (pq_dist_squared, pq_overflow) = (pq_x * pq_x).overflowing_add(pq_y * pq_y);", "        let (pq_dist_squared, pq_overflow) = square(pq_x).overflowing_add(square(pq_y));"),
  (LB, "        let (pr_dist_squared, pr_overflow) = (pr_x * pr_x).overflowing_add(pr_y * pr_y);", "        let (pr_dist_squared, pr_overflow) = square(pr_x).overflowing_add(square(pr_y));"),
  (LB, "        let pq_x = diff(p[0], q[0]);\n", "        // Squares of narrow differences don't need the wide multiplication.\n        fn square(x: $ulong) -> $ulong {\n          if std::mem::size_of::<$ty>() == 8 && (x as u128) <= 1 << 32 {\n            (x as u64).wrapping_mul(x as u64) as $ulong\n          } else {\n            x * x\n          }\n        }\n        let pq_x = diff(p[0], q[0]);\n")],
 needs="64-bit coordinates exactly 2^32 apart",
 breaks="a distance of 2^32 counts as nothing with i64 and isize only",
 demo="""
use rgeometry::data::*;
use num::BigInt;
fn main() {
  let big = 1i64 << 32;
  let q = |x: i64, y: i64| Point::new([x, y]);
  let r = |x: i64, y: i64| Point::new([BigInt::from(x), BigInt::from(y)]);
  for a in [(big, 0), (0, big), (big, big), (1, 1)] {
    for b in [(big, 0), (0, big), (big, big), (2, 1), (big - 1, 0)] {
      assert_eq!(q(0, 0).cmp_distance_to(&q(a.0, a.1), &q(b.0, b.1)), r(0, 0).cmp_distance_to(&r(a.0, a.1), &r(b.0, b.1)));
    }
  }
}"""),
]
