L = "src/lib.rs"; O = "src/orientation.rs"; S = "src/data/line_segment.rs"; LN = "src/data/line.rs"
BUGS = [
dict(id="C01-zero-product-sign", property="C01",
 edits=[(L, "let ux_vy_neg = ux_neg.bitxor(vy_neg) && ux != 0 && vy != 0;\n        let (uy, uy_neg) = (vector[1].unsigned_abs() as $ulong, vector[1] < 0);",
            "let ux_vy_neg = ux_neg.bitxor(vy_neg) && ux != 0;\n        let (uy, uy_neg) = (vector[1].unsigned_abs() as $ulong, vector[1] < 0);")],
 needs="fixed-width integers, a vector pointing left, both points at the same height",
 breaks="Orientation::along_vector treats the product of a negative number and zero as negative, so points exactly on the line get a side",
 demo='''
use rgeometry::data::*;
use rgeometry::Orientation;
fn main() {
  // a horizontal vector pointing left; the points are on the line
  let o = Point::new([3i32, 5]);
  let v = Vector([-2i32, 0]);
  for x in -10..10 {
    let p = Point::new([x, 5]);
    assert_eq!(Orientation::along_vector(&o.array, &v, &p.array), Orientation::CoLinear, "{p:?}");
  }
}'''),
dict(id="C01-float-shortcut", property="C01",
 edits=[(L, """        let orient = geometry_predicates::predicates::orient2d(
          [p[0] as f64, p[1] as f64],
          [q[0] as f64, q[1] as f64],
          [r[0] as f64, r[1] as f64],
        );
        if orient > 0.0 {""", """        // The difference of two nearby coordinates is exact, so translate to the origin first.
        let orient = geometry_predicates::predicates::orient2d(
          [0.0, 0.0],
          [(q[0] - p[0]) as f64, (q[1] - p[1]) as f64],
          [(r[0] - p[0]) as f64, (r[1] - p[1]) as f64],
        );
        if orient > 0.0 {""")],
 needs="f32/f64 coordinates of very different magnitude that are nearly colinear",
 breaks="the orientation of f32/f64 points is computed from rounded differences and is no longer exact",
 demo='''
use rgeometry::data::Point;
use rgeometry::Orientation;
fn main() {
  let e = 2f64.powi(-60);
  // (e, 0), (1, 1 - e...) : exact products decide
  let p = Point::new([e, 0.0f64]);
  let q = Point::new([1.0, 1.0]);
  let r = Point::new([2.0, 2.0]);
  // The line through q and r is the diagonal; p is to its right.
  assert_eq!(Point::orient(&p, &q, &r), Orientation::ClockWise);
  assert_eq!(Point::orient(&q, &r, &p), Point::orient(&p, &q, &r));
  assert_ne!(Point::orient(&p, &q, &r), Orientation::CoLinear);
}'''),
dict(id="C02-overflow-tie", property="C02",
 edits=[(L, "          (true, false) => Ordering::Greater,\n          (false, true) => Ordering::Less,\n          _ => pq_dist_squared.cmp(&pr_dist_squared),\n        }\n      }\n\n      fn cmp_slope",
            "          (true, _) => Ordering::Greater,\n          (false, true) => Ordering::Less,\n          _ => pq_dist_squared.cmp(&pr_dist_squared),\n        }\n      }\n\n      fn cmp_slope")],
 needs="both squared distances overflow the double-width type: two points almost diagonally across the whole range of the type",
 breaks="comparing two far-away points answers Greater whenever both squared distances overflow",
 demo='''
use rgeometry::data::Point;
use std::cmp::Ordering;
fn main() {
  let o = Point::new([i8::MIN, i8::MIN]);
  let a = Point::new([i8::MAX, i8::MAX - 1]);
  let b = Point::new([i8::MAX, i8::MAX]);
  assert_eq!(o.cmp_distance_to(&a, &b), Ordering::Less);
  assert_eq!(o.cmp_distance_to(&b, &a), Ordering::Greater);
  assert_eq!(o.cmp_distance_to(&b, &b), Ordering::Equal);
}'''),
dict(id="C02-along-rounded", property="C02",
 edits=[(L, "        PolygonScalar::cmp_perp_vector_slope(\n          &[float_to_rational(vector[0]), float_to_rational(vector[1])],\n          &[float_to_rational(p[0]), float_to_rational(p[1])],\n          &[float_to_rational(q[0]), float_to_rational(q[1])],\n        )",
            "        // Compare the scalar projections.\n        let along_p = (vector[0] * p[0] + vector[1] * p[1]) as f64;\n        let along_q = (vector[0] * q[0] + vector[1] * q[1]) as f64;\n        if along_p == along_q || (along_p - along_q).is_nan() {\n          return PolygonScalar::cmp_perp_vector_slope(\n            &[float_to_rational(vector[0]), float_to_rational(vector[1])],\n            &[float_to_rational(p[0]), float_to_rational(p[1])],\n            &[float_to_rational(q[0]), float_to_rational(q[1])],\n          );\n        }\n        along_q.total_cmp(&along_p).reverse()")],
 needs="f32/f64 points whose projections differ by less than the rounding error",
 breaks="projections of f32/f64 points are compared after rounding, so close ones compare the wrong way round",
 demo='''
use rgeometry::data::{Point, Vector};
use std::cmp::Ordering;
fn main() {
  let mut bad = 0;
  let v = Vector([0.1f64, 0.7]);
  for i in 0..200 {
    for j in 0..20 {
      let p = Point::new([0.3 + i as f64 * 0.01, 0.9 - i as f64 * 0.013]);
      let q = Point::new([p.array[0] + 0.7 * j as f64, p.array[1] - 0.1 * j as f64]);
      let r = |x: f64| num::BigRational::from_float(x).unwrap();
      let dot = |z: &Point<f64>| r(v.0[0]) * r(z.array[0]) + r(v.0[1]) * r(z.array[1]);
      let want: Ordering = dot(&p).cmp(&dot(&q));
      if v.cmp_along(&p, &q) != want { bad += 1; }
    }
  }
  assert_eq!(bad, 0);
}'''),
dict(id="C03-straight-down", property="C03",
 edits=[(O, """    let on_zero = |d: &[T; 2]| match Orientation::along_perp_vector(p1, vector, d) {
      CounterClockWise => false,
      ClockWise => true,
      CoLinear => true,
    };""", """    // Only used for points on the line, so one coordinate decides.
    let zero = T::from_constant(0);
    let on_zero = |d: &[T; 2]| {
      if vector.0[0] == zero {
        d[1] >= p1[1]
      } else {
        (d[0] >= p1[0]) == (vector.0[0] > zero)
      }
    };""")],
 needs="a reference direction pointing straight down and a point exactly above or below the origin",
 breaks="with a direction of (0,-y), the angles 0 and 180 degrees are swapped",
 demo="""
use rgeometry::data::{Point, Vector};
use std::cmp::Ordering;
fn main() {
  let o = Point::new([2i32, 1]);
  let (below, above) = (Point::new([2, -7]), Point::new([2, 6]));
  assert_eq!(o.ccw_cmp_around_with(&Vector([0, -3]), &below, &above), Ordering::Less);
  assert_eq!(o.ccw_cmp_around_with(&Vector([0, 3]), &below, &above), Ordering::Greater);
  assert_eq!(o.ccw_cmp_around_with(&Vector([0, -3]), &below, &Point::new([5, 1])), Ordering::Less);
}"""),
dict(id="C03-half-plane", property="C03",
 edits=[("src/data/vector.rs", "    self.ccw_cmp_around_with(&Vector([T::from_constant(1), T::from_constant(0)]), p, q)\n  }\n  pub fn ccw_cmp_around_with(", "    // Compare the half planes first.\n    let zero = T::from_constant(0);\n    let below = |v: &Vector<T, 2>| v.0[1] < self.0[1] || (v.0[1] == self.0[1] && v.0[0] < zero);\n    match (below(p), below(q)) {\n      (false, true) => Ordering::Less,\n      (true, false) => Ordering::Greater,\n      _ => self.ccw_cmp_around_with(&Vector([T::from_constant(1), T::from_constant(0)]), p, q),\n    }\n  }\n  pub fn ccw_cmp_around_with(")],
 needs="an origin off the y axis and a vector level with it",
 breaks="Vector::ccw_cmp_around misplaces vectors at exactly 0 or 180 degrees (compares with zero instead of the origin's x)",
 demo="""
use rgeometry::data::Vector;
use std::cmp::Ordering;
fn main() {
  let o = Vector([5i32, 1]);
  let left = Vector([3i32, 1]);
  assert_eq!(o.ccw_cmp_around(&left, &Vector([4i32, -3])), Ordering::Less);
  assert_eq!(o.ccw_cmp_around(&Vector([4i32, 3]), &left), Ordering::Less);
  let o = Vector([-5i32, 1]);
  let level = Vector([-3i32, 1]);
  assert_eq!(o.ccw_cmp_around(&level, &Vector([-6, 4])), Ordering::Less);
  assert_eq!(o.ccw_cmp_around(&level, &Vector([-6, -4])), Ordering::Less);
}"""),
dict(id="C04-close-large", property="C04",
 edits=[(O, "    let cb = c < b;\n", "    let cb = (c as f32) < (b as f32);\n")],
 needs="two large indices that differ by little",
 breaks="tie breaking compares two of the indices in single precision, so it is inconsistent for large indices next to each other",
 demo="""
use rgeometry::{Orientation, SoS};
fn main() {
  let big = u32::MAX - 5;
  for (a, b, c) in [(3u32, big, 1u32), (big, 7, 2), (1, 2, big), (0, u32::MAX, 5), (0, u32::MAX - 1, u32::MAX), (40_000_001, 40_000_000, 3)] {
    let x = Orientation::CoLinear.break_ties(a, b, c);
    assert_eq!(x, Orientation::CoLinear.break_ties(b, c, a), "{a} {b} {c}");
    assert_eq!(x, Orientation::CoLinear.break_ties(c, a, b), "{a} {b} {c}");
    assert_eq!(x, Orientation::CoLinear.break_ties(b, a, c).reverse(), "{a} {b} {c}");
  }
  let _: SoS = SoS::new(1, 2, 3);
}"""),
dict(id="C05-overlap-openness", property="C05",
 edits=[(S, "        if self.is_exclusive() || other.is_exclusive() {\n          Exclusive(self.take())\n        } else {\n          other\n        }", "        other")],
 needs="two colinear segments that start at the same point, the first including it and the second excluding it",
 breaks="the reported overlap includes an end point that one of the segments excludes",
 demo="""
use rgeometry::data::*;
use rgeometry::Intersects;
fn main() {
  let p = |x: i32| Point::new([x, 2 * x]);
  let a = LineSegment::new(EndPoint::Inclusive(p(0)), EndPoint::Inclusive(p(5)));
  let b = LineSegment::new(EndPoint::Exclusive(p(0)), EndPoint::Inclusive(p(3)));
  for (x, y) in [(&a, &b), (&b, &a)] {
    match x.intersect(y) {
      Some(ILineSegment::Overlap(o)) => {
        assert!(!o.contains(&p(0)));
        assert!(o.contains(&p(1)) && o.contains(&p(3)) && !o.contains(&p(4)));
      }
      _ => panic!("no overlap"),
    }
  }
}"""),
dict(id="C05-touch-guard", property="C05",
 edits=[(S, "      if self.max.is_inclusive()\n        && inner_between(self.max", "      if self.min.is_inclusive()\n        && inner_between(self.max")],
 needs="the first segment's larger end lies strictly inside the second one, and its two ends differ in openness",
 breaks="whether a touching larger end point counts is decided by the openness of the smaller end point",
 demo="""
use rgeometry::data::*;
use rgeometry::Intersects;
fn main() {
  let p = |x: i32, y: i32| Point::new([x, y]);
  let b = LineSegment::new(EndPoint::Inclusive(p(3, -3)), EndPoint::Inclusive(p(3, 3)));
  let a = LineSegment::new(EndPoint::Inclusive(p(0, 0)), EndPoint::Exclusive(p(3, 1)));
  assert!(a.intersect(&b).is_none() && b.intersect(&a).is_none());
  let a = LineSegment::new(EndPoint::Exclusive(p(0, 0)), EndPoint::Inclusive(p(3, 1)));
  assert!(a.intersect(&b).is_some() && b.intersect(&a).is_some());
}"""),
dict(id="C06-ray-behind", property="C06",
 edits=[(LN, "      (_, CoLinear) => {\n        let l2_to_a1 = Point::orient(b2, b1, origin);\n        if l1_to_b1 == l2_to_a1 {", "      (_, CoLinear) => {\n        let l2_to_a1 = Point::orient(b2, b1, origin);\n        if l1_to_b1 == l2_to_a1 || (*b2 == *origin && l1_to_b1 == CounterClockWise) {")],
 needs="a ray that starts at the lexicographically larger end point of a segment to its left",
 breaks="a ray crosses a segment that it only shares its (excluded) origin with",
 demo="""
use rgeometry::data::*;
use rgeometry::Intersects;
fn main() {
  let p = |x: i32, y: i32| Point::new([x, y]);
  let (o, a, b) = (p(2, 2), p(0, 5), p(1, -4));
  let v = Vector([1, 0]);
  let ray = HalfLineSoS::new_directed(&o, &v);
  for z in [&a, &b] {
    let s = LineSegmentView::new(EndPoint::Inclusive(&o), EndPoint::Inclusive(z));
    assert!(ray.intersect(s).is_none(), "{z:?}");
  }
}"""),
dict(id="C06-through-lean", property="C06",
 edits=[(LN, "        l1_to_b2 = Point::orient(origin, through, b2).then(Orientation::CounterClockWise);", "        l1_to_b2 = Point::orient(origin, through, b2).then(l1_to_b1.reverse());")],
 needs="a line given by two points and a segment whose larger end point lies on it",
 breaks="an end point on a line through two points counts as being on the other side of the other end point instead of left of the line",
 demo="""
use rgeometry::data::*;
use rgeometry::Intersects;
fn main() {
  let p = |x: i32, y: i32| Point::new([x, y]);
  let (o, t) = (p(0, 0), p(1, 0));
  let on = p(5, 0);
  let line = LineSoS::from(Line::new_through(&o, &t));
  let up = p(3, 4);
  let down = p(3, -4);
  assert!((&line).intersect(LineSegmentView::new(EndPoint::Inclusive(&up), EndPoint::Inclusive(&on))).is_none());
  assert!((&line).intersect(LineSegmentView::new(EndPoint::Inclusive(&down), EndPoint::Inclusive(&on))).is_some());
}"""),
dict(id="C07-both-through-zero", property="C07",
 edits=[(LN, "    let part_b = x3.clone() * y4.clone() - y3.clone() * x4.clone();\n", "    let part_b = x3.clone() * y4.clone() - y3.clone() * x4.clone();\n    if part_a == part_b && part_a.clone() * denom.clone() == part_b.clone() * part_a.clone() {\n      // the same line twice\n      return None;\n    }\n"), (LN, "let part_a = x1.clone() * y2.clone() - y1.clone() * x2.clone();", "let part_a: T = x1.clone() * y2.clone() - y1.clone() * x2.clone();")],
 needs="two different lines through the origin of the coordinate system",
 breaks="lines that cross at (0,0) are reported as not crossing",
 demo="""
use num::BigRational;
use rgeometry::data::*;
fn main() {
  let q = |x: i64| BigRational::from_integer(x.into());
  let p = |x: i64, y: i64| Point::new([q(x), q(y)]);
  let (a, b, c, d) = (p(-2, -1), p(4, 2), p(3, -3), p(-1, 1));
  let l = Line::new_through(&a, &b);
  let m = Line::new_through(&c, &d);
  assert_eq!(l.intersection_point(&m), Some(p(0, 0)));
}"""),
dict(id="C08-shared-end", property="C08",
 edits=[("src/algorithms/intersection/naive.rs", "    let _isect = Intersects::intersect(a_edge, b_edge)?;", "    // Disjoint ranges can't intersect.\n    if a_edge.max.inner() < b_edge.min.inner() || b_edge.max.inner() <= a_edge.min.inner() {\n      return None;\n    }\n    let _isect = Intersects::intersect(a_edge, b_edge)?;")],
 needs="an earlier edge whose larger end is the smaller end of a later edge, both inclusive",
 breaks="the enumeration misses pairs that only share an end point, in one order of the two edges",
 demo="""
use rgeometry::algorithms::segment_intersections;
use rgeometry::data::*;
fn main() {
  let p = |x: i32, y: i32| Point::new([x, y]);
  let s = |a, b| LineSegment::new(EndPoint::Inclusive(a), EndPoint::Inclusive(b));
  for e in [[s(p(0, 0), p(2, 2)), s(p(2, 2), p(5, 0))], [s(p(2, 2), p(5, 0)), s(p(0, 0), p(2, 2))]] {
    assert_eq!(segment_intersections(&e).count(), 1);
  }
}"""),
dict(id="C08-window", property="C08",
 edits=[("src/algorithms/intersection/naive.rs", "  (0..n).flat_map(move |a| (0..a).map(move |b| (&slice[a], &slice[b])))", "  (0..n).flat_map(move |a| (a + 1..=a + n / 2).map(move |b| (&slice[a], &slice[b % n])))")],
 needs="an even number of edges, with an edge meeting the one exactly half way around the list",
 breaks="pairs of opposite edges in a list of even length are reported twice",
 demo="""
use rgeometry::algorithms::segment_intersections;
use rgeometry::data::*;
fn main() {
  let p = |x: i32, y: i32| Point::new([x, y]);
  let s = |a, b| LineSegment::new(EndPoint::Inclusive(a), EndPoint::Inclusive(b));
  let e = vec![s(p(0, 0), p(9, 9)), s(p(20, 0), p(30, 0)), s(p(0, 9), p(9, 0)), s(p(20, 5), p(30, 5))];
  assert_eq!(segment_intersections(&e).count(), 1);
  assert_eq!(segment_intersections(&e[..3]).count(), 1);
}"""),
]
BUGS = [b for b in BUGS if b["demo"]]
