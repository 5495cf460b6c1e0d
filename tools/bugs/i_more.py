# Bugs planted in the last round: absolute limits where the answer does not depend on the unit.
LN = "src/data/line.rs"; PO = "src/data/polygon.rs"
PRE = """
use rgeometry::data::*;
"""
BUGS = [
dict(id="C07-small-denominator", property="C07",
 edits=[(LN, "    if denom == T::from_constant(0) {\n", "    // Parallel, but for rounding.\n    if denom.clone() + T::from_constant(1) == T::from_constant(1) {\n")],
 needs="float coordinates in a small unit (below 1e-8)",
 breaks="lines that cross at a right angle have no intersection point",
 demo=PRE + """
fn main() {
  for u in [1.0f64, 1e-3, 1e-9, 1e-30] {
    let (a, b, c, d) = (Point::new([0.0, 0.0]), Point::new([u, u]), Point::new([u, 0.0]), Point::new([0.0, u]));
    let x = Line::new_through(&a, &b).intersection_point(&Line::new_through(&c, &d));
    assert!(x.is_some(), "unit {u}");
  }
}"""),
dict(id="C12-small-area", property="C12",
 edits=[(PO, "    Point::from(xs / (three * self.signed_area_2x()))", "    let area: T = self.signed_area_2x();\n    if area.clone() + T::from_constant(1) == T::from_constant(1) {\n      // No area to speak of.\n      return self.points[self.rings[0][0].usize()].clone();\n    }\n    Point::from(xs / (three * area))")],
 needs="float coordinates in a small unit (below 1e-8)",
 breaks="the centroid of a small polygon is its first vertex",
 demo=PRE + """
fn main() {
  for k in [0, -10, -40, -100] {
    let u = 2f64.powi(k);
    let p = Polygon::new(vec![Point::new([0.0, 0.0]), Point::new([3.0 * u, 0.0]), Point::new([0.0, 3.0 * u])]).unwrap();
    let c = p.centroid().array;
    assert!((c[0] - u).abs() < u / 100.0 && (c[1] - u).abs() < u / 100.0, "unit 2^{k}: {c:?}");
  }
}"""),
]
