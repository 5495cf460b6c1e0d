# A second round, again one property at a time.
PO = "src/data/polygon.rs"; CX = "src/data/polygon/convex.rs"; LI = "src/data/line.rs"; TR = "src/data/triangle.rs"; EC = "src/algorithms/triangulation/earclip.rs"
GW = "src/algorithms/convex_hull/gift_wrapping.rs"; GS = "src/algorithms/convex_hull/graham_scan.rs"; MK = "src/algorithms/convex_hull/melkman.rs"; TO = "src/algorithms/polygonization/two_opt.rs"
VI = "src/algorithms/visibility/naive.rs"; IS = "src/data/intersection_set.rs"; UT = "src/utils.rs"; ZH = "src/algorithms/zhash.rs"; LB = "src/lib.rs"; MO = "src/algorithms/polygonization/monotone.rs"
OR = "src/orientation.rs"; IT = "src/data/polygon/iter.rs"
PRE = """
use rgeometry::data::*;
fn p(x: i32, y: i32) -> Point<i32> { Point::new([x, y]) }
"""
BUGS = [
dict(id="C07-shared-origin", property="C07",
 edits=[(LI, "    let [x1, y1] = self.origin.array.clone();\n    let [x2, y2]", "    // Lines from the same origin meet there, no need to divide.\n    if self.origin == other.origin {\n      return Some(self.origin.clone());\n    }\n    let [x1, y1] = self.origin.array.clone();\n    let [x2, y2]")],
 needs="two lines given from the same origin through points in the same or in opposite directions",
 breaks="coinciding lines are reported to meet in one point",
 demo=PRE + """
fn main() {
  let (o, a, b) = (p(1, 1), p(3, 2), p(-3, -1));
  let l1 = Line::new_through(&o, &a);
  let l2 = Line::new_through(&o, &b);
  assert!(l1.intersection_point(&l2).is_none());
}"""),
dict(id="C10-count-width", property="C10",
 edits=[(PO, "    let mut intersections = 0;\n    for edge in self.iter_boundary_edges() {\n      if edge.contains(origin)", "    let mut intersections: i8 = 0;\n    for edge in self.iter_boundary_edges() {\n      if edge.contains(origin)")],
 needs="a query whose ray crosses at least 128 edges",
 breaks="locate overflows a counter",
 demo=PRE + """
fn main() {
  // A comb with 100 teeth. The ray along the teeth crosses both sides of each.
  let mut v = vec![p(0, 0), p(400, 0)];
  for k in (0..100).rev() {
    v.push(p(4 * k + 3, 10));
    v.push(p(4 * k + 1, 1));
  }
  let q = Polygon::new_unchecked(v);
  assert_eq!(q.orientation(), rgeometry::Orientation::CounterClockWise);
  assert_eq!(q.locate(&p(-5, 5)), PointLocation::Outside);
}"""),
dict(id="C13-farther-lex", property="C13",
 edits=[(GW, "          && pts[p].cmp_distance_to(&pts[i], &pts[q]) == Ordering::Greater)", "          // Lexicographic order is the order along any line.\n          && (pts[q].total_cmp(&pts[p]).is_gt() == pts[i].total_cmp(&pts[q]).is_gt()\n            && pts[i].total_cmp(&pts[q]) != Ordering::Equal))")],
 needs="a leftmost point that is directly followed by its copy in the list",
 breaks="gift wrapping stops at a repeated point",
 demo=PRE + """
fn main() {
  let v = vec![p(9, 9), p(0, 0), p(0, 0), p(5, -1), p(2, 8), p(8, 3)];
  let a = rgeometry::algorithms::convex_hull::gift_wrapping::convex_hull(v.clone());
  let b = rgeometry::algorithms::convex_hull(v);
  assert!(a.unwrap().equals(&b.unwrap()));
}"""),
dict(id="C19-escape-continue", property="C19",
 edits=[(VI, """        if point.cmp_distance_to(&interesection, &vertex) != Ordering::Less {
          polygon_points.push(interesection);
        }
      }
      None => return Option::None,
""", """        if point.cmp_distance_to(&interesection, &vertex) != Ordering::Less {
          polygon_points.push(interesection);
        }
      }
      // Nothing to be seen there.
      None => (),
"""),
 (VI, """        if point.cmp_distance_to(&intersection, &vertex) != Ordering::Less {
          polygon_points.push(intersection);
        }
      }
      None => return Option::None,
""", """        if point.cmp_distance_to(&intersection, &vertex) != Ordering::Less {
          polygon_points.push(intersection);
        }
      }
      None => (),
"""),
 (VI, """  polygon_points.dedup();

""", """  polygon_points.dedup();
  if polygon_points.len() < vertices_seen {
    return Option::None;
  }

"""),
 (VI, "  let mut polygon_points = Vec::new();\n", "  let mut polygon_points = Vec::new();\n  let vertices_seen = 4;\n")],
 needs="a viewpoint outside the polygon from which the right side of some ray escapes while no left side does",
 breaks="a visibility polygon is returned although a ray escapes",
 demo=PRE + """
fn main() {
  // From inside the notch, the rays to the upper corners escape.
  let q = Polygon::new(vec![p(0, 0), p(10, 0), p(10, 10), p(6, 10), p(6, 4), p(4, 4), p(4, 10), p(0, 10)]).unwrap().cast::<f64>();
  let r = std::panic::catch_unwind(|| rgeometry::algorithms::visibility::naive::get_visibility_polygon(&Point::new([5.0, 7.0]), &q));
  assert!(matches!(r, Ok(None)));
}"""),
dict(id="C21-equals-first-match", property="C21",
 edits=[(PO, """      if iter == other.iter_boundary() {
        return true;
      }
    }
    false
""", """      // Only one rotation can line up the first vertex of the other polygon.
      if other.iter_boundary().next().is_some_and(|root| *root == *pos) {
        return iter == other.iter_boundary();
      }
    }
    false
""")],
 needs="a boundary that visits the same point twice",
 breaks="equal boundaries with repeated vertices are reported as different",
 demo=PRE + """
fn main() {
  let a = Polygon::new_unchecked(vec![p(0, 0), p(1, 0), p(0, 0), p(0, 1), p(2, 2)]);
  let b = Polygon::new_unchecked(vec![p(0, 0), p(0, 1), p(2, 2), p(0, 0), p(1, 0)]);
  assert!(a.equals(&b));
}"""),
dict(id="C25-short-products", property="C25",
 edits=[(LB, "fixed_precision!(i16, u16, i32, u32);", "fixed_precision!(i16, u16, i16, u16);")],
 needs="i16 coordinates whose differences exceed a byte",
 breaks="predicates of i16 overflow where other types work",
 demo="""
use rgeometry::data::*;
fn main() {
  let v = vec![Point::new([0i16, 0]), Point::new([1000, 0]), Point::new([0, 1000])];
  assert_eq!(Polygon::new(v.clone()).map(|q| q.boundary_slice().len()), Ok(3));
  assert_eq!(Point::orient(&v[0], &v[1], &v[2]), rgeometry::Orientation::CounterClockWise);
}"""),
]
