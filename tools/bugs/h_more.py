# Bugs planted after the raw parts.
PO = "src/data/polygon.rs"; TO = "src/algorithms/polygonization/two_opt.rs"
IS = "src/data/intersection_set.rs"; CV = "src/data/polygon/convex.rs"
EC = "src/algorithms/triangulation/earclip.rs"; VI = "src/algorithms/visibility/naive.rs"
ST = "src/algorithms/polygonization/star.rs"; LB = "src/lib.rs"
PRE = """
use rgeometry::data::*;
fn p(x: i32, y: i32) -> Point<i32> { Point::new([x, y]) }
"""
BUGS = [
dict(id="C20-no-shuffle", property="C20",
 edits=[(CV, "  let mut result: Vec<T> = positive.chain(negative).collect();\n  result.shuffle(rng);\n  result", "  positive.chain(negative).collect()"),
        (CV, "use rand::seq::SliceRandom;\n", "")],
 needs="looking at which directions the sides of many random polygons take",
 breaks="no polygon ever has sides that go up and left as well as sides that go down and right",
 demo=PRE + """
use rand::SeedableRng;
fn main() {
  let mut rng = rand::rngs::SmallRng::seed_from_u64(1);
  let mut all = 0;
  for _ in 0..200 {
    let q: PolygonConvex<i64> = PolygonConvex::random(40, &mut rng);
    let mut kinds = [0; 4];
    for e in q.iter_boundary_edges() {
      let (a, b) = (e.src.array, e.dst.array);
      if a[0] != b[0] && a[1] != b[1] {
        kinds[(a[0] < b[0]) as usize + 2 * (a[1] < b[1]) as usize] += 1;
      }
    }
    if kinds.iter().all(|k| *k > 0) { all += 1; }
  }
  assert!(all > 0);
}"""),
dict(id="C18-dedup", property="C18",
 edits=[(ST, "  vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));\n", "  vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));\n  vertices.dedup();\n")],
 needs="a list with a repeated point",
 breaks="a repeated point is dropped where the list has to be rejected",
 demo=PRE + """
fn main() {
  let q = rgeometry::algorithms::polygonization::new_star_polygon(vec![p(0, 0), p(4, 0), p(4, 4), p(0, 4)], &p(1, 2));
  assert!(q.is_ok());
  let q = rgeometry::algorithms::polygonization::new_star_polygon(vec![p(0, 0), p(4, 0), p(4, 4), p(4, 4), p(0, 4)], &p(1, 2));
  assert!(q.is_err());
}"""),
]
