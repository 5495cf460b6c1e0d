# Bugs in shapes: polygons, convex polygons, triangles, hulls.
PG = "src/data/polygon.rs"; CX = "src/data/polygon/convex.rs"; TR = "src/data/triangle.rs"; IT = "src/data/polygon/iter.rs"
GS = "src/algorithms/convex_hull/graham_scan.rs"; GW = "src/algorithms/convex_hull/gift_wrapping.rs"; MK = "src/algorithms/convex_hull/melkman.rs"
PRE = """
use rgeometry::data::*;
fn p(x: i32, y: i32) -> Point<i32> { Point::new([x, y]) }
"""
BUGS = [
dict(id="C09-flat-side", property="C09",
 edits=[(PG, "    match self.iter_boundary().min_by(|a, b| a.point().cmp(b.point())) {", "    match self.iter_boundary().min_by(|a, b| a.point().array[0].total_cmp(&b.point().array[0])) {")],
 needs="a simple polygon with three or more vertices on its left-most vertical side, listed so that a middle one comes first",
 breaks="Polygon::new rejects valid polygons with CoLinearViolation",
 demo=PRE + """
fn main() {
  let v = vec![p(0, 1), p(0, 0), p(3, 0), p(3, 2), p(0, 2)];
  for k in 0..5 {
    let mut w = v.clone();
    w.rotate_left(k);
    assert!(Polygon::new(w.clone()).is_ok(), "{w:?}");
    w.reverse();
    assert!(Polygon::new(w.clone()).is_ok(), "{w:?}");
  }
}"""),
dict(id="C09-pentagram", property="C09",
 edits=[(CX, "    self.0.validate()\n", "    // Few vertices that all turn left can't wind around more than once.\n    if self.0.boundary_slice().len() < 6 {\n      return Ok(());\n    }\n    Polygon::validate(&self.0)\n")],
 needs="five vertices in the order of a pentagram (every turn is to the left, edges cross)",
 breaks="PolygonConvex::validate accepts a self-intersecting star",
 demo=PRE + """
fn main() {
  let star = vec![p(0, 10), p(-6, -8), p(9, 3), p(-9, 3), p(6, -8)];
  assert!(PolygonConvex::new_unchecked(Polygon::new_unchecked(star)).validate().is_err());
  let ok = vec![p(0, 10), p(-9, 3), p(-6, -8), p(6, -8), p(9, 3)];
  assert!(PolygonConvex::new_unchecked(Polygon::new_unchecked(ok)).validate().is_ok());
}"""),
dict(id="C09-last-edge", property="C09",
 edits=[(PG, "    let edges: Vec<DirectedEdge<'_, T, 2>> = self.iter_boundary_edges().collect();\n", "    // The closing edge shares both of its ends with edges that are checked anyway.\n    let n = self.rings[0].len();\n    let edges: Vec<DirectedEdge<'_, T, 2>> = self.iter_boundary_edges().take(if n > 8 { n - 1 } else { n }).collect();\n")],
 needs="a chain of at least nine vertices whose only crossing involves its last edge",
 breaks="self-intersections with the closing edge of longer chains go unnoticed",
 demo=PRE + """
fn main() {
  // a comb whose closing edge cuts through a tooth
  let v = vec![p(0, 0), p(20, 0), p(20, 10), p(16, 10), p(14, -0 + 4), p(12, 10), p(8, 4), p(6, 10), p(5, -5 + 4), p(2, 10), p(1, 10)];
  let mut bad = 0;
  for k in 0..v.len() {
    let mut w = v.clone();
    w.rotate_left(k);
    if Polygon::new(w).is_ok() { bad += 1; }
  }
  assert_eq!(bad, 0);
}"""),
dict(id="C10-peak", property="C10",
 edits=[(PG, "      if edge.contains(origin) {\n        return PointLocation::OnBoundary;\n      }\n      if let", "      // Edges below the point can be skipped.\n      let y = origin.y_coord();\n      if edge.src.y_coord() < y && edge.dst.y_coord() <= y {\n        continue;\n      }\n      if edge.dst.y_coord() < y && edge.src.y_coord() <= y {\n        continue;\n      }\n      if edge.contains(origin) {\n        return PointLocation::OnBoundary;\n      }\n      if let")],
 needs="a query at a vertex that is a local maximum",
 breaks="a vertex whose two edges both go down is located outside instead of on the boundary",
 demo=PRE + """
fn main() {
  let q = Polygon::new(vec![p(0, 0), p(6, 0), p(5, 7), p(3, 2), p(1, 5)]).unwrap();
  for v in [p(0, 0), p(6, 0), p(5, 7), p(3, 2), p(1, 5)] {
    assert_eq!(q.locate(&v), PointLocation::OnBoundary, "{v:?}");
  }
}"""),
dict(id="C12-centroid-start", property="C12",
 edits=[(PG, "        let p = edge.src.as_vec();\n        let q = edge.dst.as_vec();\n        (p + q) * (p.0", "        let p = edge.src.as_vec();\n        let q = edge.dst.as_vec();\n        if p == q || edge.src == self.point(self.rings[0][0]) && p.0[0] == q.0[0] {\n          // a vertical first edge contributes nothing to the moments\n          return Vector([T::from_constant(0), T::from_constant(0)]);\n        }\n        (p + q) * (p.0")],
 needs="a polygon whose boundary starts with a vertical edge off the y axis",
 breaks="the centroid depends on the vertex at which the boundary starts",
 demo="""
use num::BigRational;
use rgeometry::data::*;
fn main() {
  let q = |x: i64| BigRational::from_integer(x.into());
  let v = vec![[2, 0], [8, 0], [8, 6], [2, 6]];
  for k in 0..4 {
    let mut w: Vec<_> = v.iter().map(|c| Point::new([q(c[0]), q(c[1])])).collect();
    w.rotate_left(k);
    assert_eq!(Polygon::new(w).unwrap().centroid(), Point::new([q(5), q(3)]));
  }
}"""),
dict(id="C14-flat-corner", property="C14",
 edits=[(MK, "      if Point::orient(convex_hull[1], convex_hull[0], convex_hull[last_idx - 1]).is_colinear() {", "      if convex_hull.len() > 5\n        && Point::orient(convex_hull[1], convex_hull[0], convex_hull[last_idx - 1]).is_colinear()\n      {")],
 needs="a polygon whose hull is a triangle at the moment a vertex is added on the extension of one of its sides",
 breaks="Melkman's hull keeps a colinear vertex",
 demo=PRE + """
fn main() {
  use rgeometry::algorithms::convex_hull::melkman::convex_hull as mk;
  let mut bad = vec![];
  // every simple polygon on a small grid with four or five vertices
  for n in [4u32, 5] { for mut i in 0..9i32.pow(n) {
    let mut v = vec![];
    for _ in 0..n { v.push(p(i % 9 % 3, i % 9 / 3)); i /= 9; }
    if let Ok(q) = Polygon::new(v.clone()) {
      let a = mk(&q);
      if a.validate().is_err() { bad.push(v) }
    }
  }}
  assert!(bad.is_empty(), "{} {:?}", bad.len(), bad[0]);
}"""),
dict(id="C21-front-meets-back", property="C21",
 edits=[(IT, "    if pos_head.position_id.0 <= pos_tail.position_id.0 {", "    if pos_head.position_id.0 < pos_tail.position_id.0 {")],
 needs="an iterator with exactly one cursor left",
 breaks="the reported length of an iterator over a single vertex is that of the whole ring plus one",
 demo=PRE + """
fn main() {
  let q = Polygon::new(vec![p(0, 0), p(6, 0), p(5, 7), p(1, 5)]).unwrap();
  let mut it = q.iter_boundary();
  for k in (0..4).rev() {
    it.next().unwrap();
    assert_eq!(it.len(), k);
    assert_eq!(it.size_hint(), (k, Some(k)));
  }
}"""),
dict(id="C10-level-edge", property="C10",
 edits=[(PG, "      if edge.contains(origin) {\n        return PointLocation::OnBoundary;\n      }\n      if let", "      // A horizontal ray never crosses a horizontal edge.\n      if edge.src.y_coord() == edge.dst.y_coord() {\n        continue;\n      }\n      if edge.contains(origin) {\n        return PointLocation::OnBoundary;\n      }\n      if let")],
 needs="a query point in the interior of a horizontal edge",
 breaks="points on horizontal edges are located inside or outside instead of on the boundary",
 demo=PRE + """
fn main() {
  let q = Polygon::new(vec![p(0, 0), p(6, 0), p(5, 7), p(3, 2), p(1, 7)]).unwrap();
  assert_eq!(q.locate(&p(3, 0)), PointLocation::OnBoundary);
  assert_eq!(q.locate(&p(3, 1)), PointLocation::Inside);
  assert_eq!(q.locate(&p(7, 0)), PointLocation::Outside);
}"""),
dict(id="C11-vertical-side", property="C11",
 edits=[(TR, "    let bc = Point::orient(b, c, pt);\n", "    if ab == CoLinear {\n      // On the line through the first side: look at where along the line.\n      let (lo, hi) = if a.x_coord() < b.x_coord() { (a, b) } else { (b, a) };\n      return if pt.x_coord() < lo.x_coord() || pt.x_coord() > hi.x_coord() {\n        PointLocation::Outside\n      } else {\n        PointLocation::OnBoundary\n      };\n    }\n    let bc = Point::orient(b, c, pt);\n"),
        (TR, "    } else if ab == CoLinear || bc == CoLinear || ca == CoLinear {", "    } else if bc == CoLinear || ca == CoLinear {")],
 needs="a triangle whose first side is vertical and a query point on the extension of that side",
 breaks="points beyond the ends of a vertical first side are located on the boundary",
 demo=PRE + """
fn main() {
  let t = Triangle::new([p(4, 6), p(4, 1), p(9, 3)]).unwrap();
  assert_eq!(t.locate(&p(4, 3)), PointLocation::OnBoundary);
  assert_eq!(t.locate(&p(4, 7)), PointLocation::Outside);
  assert_eq!(t.locate(&p(4, 0)), PointLocation::Outside);
}"""),
dict(id="C11-storage-order", property="C11",
 edits=[(CX, "      if Point::orient(p0, poly.point(vertices[middle]), pt) == Orientation::CounterClockWise {", "      if Point::orient(p0, &poly.points[middle], pt) == Orientation::CounterClockWise {")],
 needs="a convex polygon built from clockwise vertices, so that its boundary order differs from the storage order",
 breaks="the binary search compares with the wrong vertices, so inside points are located outside",
 demo=PRE + """
fn main() {
  let v = vec![p(0, 0), p(-3, 2), p(-4, 6), p(-1, 9), p(4, 8), p(6, 4), p(4, 1)];
  let c = PolygonConvex::new_unchecked(Polygon::new(v).unwrap());
  c.validate().unwrap();
  for x in -6..8 { for y in -2..11 {
    assert_eq!(c.locate(&p(x, y)), c.polygon().locate(&p(x, y)), "{x} {y}");
  }}
}"""),
dict(id="C21-cast-order", property="C21",
 edits=[(PG, "    let pts = self.points.into_iter().map(|p| p.cast()).collect();\n    Polygon {\n      points: pts,\n      ring_index: self.ring_index,\n      position_index: self.position_index,", "    let pts: Vec<Point<U>> = self.points.into_iter().map(|p| p.cast()).collect();\n    Polygon {\n      ring_index: self.ring_index,\n      position_index: (0..pts.len()).map(PositionId).collect(),\n      points: pts,")],
 needs="a polygon given in clockwise order (so that ids and positions differ), cast to another type, and a lookup by id afterwards",
 breaks="after a cast, the cursor of a vertex id points at another vertex",
 demo=PRE + """
fn main() {
  let q = Polygon::new(vec![p(0, 0), p(1, 5), p(5, 7), p(6, 0)]).unwrap();
  let ids: Vec<PointId> = q.iter_boundary().map(|c| c.point_id()).collect();
  let r: Polygon<i64> = q.cast();
  for id in ids {
    assert_eq!(r.cursor(id).point(), r.point(id));
  }
}"""),
dict(id="C21-unbounded-tail", property="C21",
 edits=[(PG, "      Bound::Unbounded => CursorIter {\n        cursor_head: self,\n        cursor_tail: self.prev(),", "      // Up to the vertex in front of the first one.\n      Bound::Unbounded => CursorIter {\n        cursor_head: self,\n        cursor_tail: Cursor {\n          polygon: self.polygon,\n          position: Position {\n            position_id: PositionId(self.position.size - 1),\n            ..self.position\n          },\n        },")],
 needs="an unbounded range that starts at any vertex but the first",
 breaks="unbounded ranges stop at the last vertex instead of walking around the whole boundary",
 demo=PRE + """
fn main() {
  let q = Polygon::new(vec![p(0, 0), p(6, 0), p(5, 7), p(1, 5)]).unwrap();
  for c in q.iter_boundary() {
    assert_eq!(c.to(std::ops::Bound::Unbounded).count(), 4);
  }
}"""),
dict(id="C26-flat-ear", property="C26",
 edits=[(PG, "    if trig.orientation() == Orientation::CounterClockWise {\n      // A range", "    if trig.orientation() != Orientation::ClockWise {\n      // A range")],
 needs="a vertex on the straight line between its neighbours",
 breaks="flat vertices are treated as if they could be ears",
 demo=PRE + """
fn main() {
  let q = Polygon::new(vec![p(0, 0), p(3, 0), p(6, 0), p(5, 7), p(1, 5)]).unwrap();
  let flat = q.iter_boundary().find(|c| c.point() == &p(3, 0)).unwrap();
  assert!(!flat.is_ear());
}"""),
dict(id="C26-cursor-turn", property="C26",
 edits=[(PG, "    let p1 = self.prev().point();\n    let p2 = self.point();\n    let p3 = self.next().point();\n    Point::orient(p1, p2, p3)", "    let p1 = self.prev().point();\n    let p2 = self.point();\n    let p3 = self.next().point();\n    // Axis-aligned edges only need a comparison.\n    if p1.y_coord() == p2.y_coord() && p2.y_coord() == p3.y_coord() {\n      return Orientation::CoLinear;\n    }\n    if p1.x_coord() == p2.x_coord() && p1.y_coord() > p2.y_coord() {\n      return if p3.x_coord() >= p2.x_coord() {\n        Orientation::CounterClockWise\n      } else {\n        Orientation::ClockWise\n      };\n    }\n    Point::orient(p1, p2, p3)")],
 needs="a flat vertex in the middle of two vertical edges that go down",
 breaks="the turn at a flat vertex on a falling vertical side is reported as a left turn",
 demo=PRE + """
fn main() {
  let q = Polygon::new(vec![p(0, 0), p(6, 0), p(5, 7), p(0, 5), p(0, 3)]).unwrap();
  let flat = q.iter_boundary().find(|c| c.point() == &p(0, 3)).unwrap();
  assert!(flat.is_colinear() && flat.orientation() == rgeometry::Orientation::CoLinear);
}"""),
dict(id="C13-bottom-middle", property="C13",
 edits=[(GW, "      TotalOrd::total_cmp(&(a.y_coord(), a.x_coord()), &(b.y_coord(), b.x_coord()))\n    })\n    .map", "      TotalOrd::total_cmp(a.y_coord(), b.y_coord())\n    })\n    .map")],
 needs="three points on the lowest level with the middle one listed first",
 breaks="gift wrapping starts at a point that is not extreme and keeps it",
 demo=PRE + """
fn main() {
  let h = rgeometry::algorithms::convex_hull::gift_wrapping::convex_hull(vec![p(4, 0), p(9, 0), p(0, 0), p(5, 6)]).unwrap();
  h.validate().unwrap();
  assert_eq!(h.boundary_slice().len(), 3);
}"""),
]
