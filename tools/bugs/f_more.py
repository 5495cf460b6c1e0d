# A second bug for the properties that had one.
PO = "src/data/polygon.rs"; CX = "src/data/polygon/convex.rs"; TR = "src/data/triangle.rs"
ME = "src/algorithms/convex_hull/melkman.rs"; TO = "src/algorithms/polygonization/two_opt.rs"
IS = "src/data/intersection_set.rs"; UT = "src/utils.rs"; LB = "src/lib.rs"; OR = "src/orientation.rs"
IT = "src/data/polygon/iter.rs"; EC = "src/algorithms/triangulation/earclip.rs"
PRE = """
use rgeometry::data::*;
fn p(x: i32, y: i32) -> Point<i32> { Point::new([x, y]) }
"""
BUGS = [
dict(id="C12-top-corner", property="C12",
 edits=[(TR, "      let y = rng.gen_range(min_y..=max_y);", "      let y = if min_y < max_y {\n        rng.gen_range(min_y..max_y)\n      } else {\n        min_y\n      };")],
 needs="enough samples to see that the top corner never comes, or a triangle whose other points are few",
 breaks="the topmost points of a triangle are never sampled",
 demo=PRE + """
use rand::SeedableRng;
fn main() {
  let (a, b, c) = (p(0, 0), p(1, 0), p(0, 1));
  let t = TriangleView::new([&a, &b, &c]).unwrap();
  let mut rng = rand::rngs::SmallRng::seed_from_u64(1);
  assert!((0..500).any(|_| t.rejection_sampling(&mut rng) == c));
}"""),
dict(id="C20-few-corners", property="C20",
 edits=[(CX, """      if let Ok(p) = crate::algorithms::convex_hull(vertices) {
        return p;
      }""", """      match crate::algorithms::convex_hull(vertices) {
        // Too many vertices ended up on straight lines.
        Ok(p) if p.boundary_slice().len() * 8 < n => continue,
        Ok(p) => return p,
        Err(_) => continue,
      }""")],
 needs="many more vertices requested than a convex polygon in the type's range can have",
 breaks="sampling never ends",
 demo="""
use rgeometry::data::*;
use rand::{RngCore, SeedableRng};
struct Limited(rand::rngs::SmallRng, u64);
impl RngCore for Limited {
  fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
  fn next_u64(&mut self) -> u64 { self.1 += 1; assert!(self.1 < 300_000, "does not end"); self.0.next_u64() }
  fn fill_bytes(&mut self, d: &mut [u8]) { self.0.fill_bytes(d) }
  fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.0.try_fill_bytes(d) }
}
fn main() {
  for seed in 0..5 {
    let mut rng = Limited(rand::rngs::SmallRng::seed_from_u64(seed), 0);
    let c: PolygonConvex<i8> = PolygonConvex::random(1000, &mut rng);
    assert!(c.validate().is_ok());
  }
}"""),
dict(id="C04-signed", property="C04",
 edits=[(OR, "    let ab = a < b;\n    let ac = a < c;\n    let cb = c < b;", "    let before = |i: u32, j: u32| (j.wrapping_sub(i) as i32) > 0;\n    let ab = before(a, b);\n    let ac = before(a, c);\n    let cb = before(c, b);")],
 needs="two indices more than 2^31 apart",
 breaks="far-apart indices are compared the wrong way round, so tie breaking is inconsistent",
 demo=PRE + """
use rgeometry::SoS;
fn main() {
  let ids = [0u32, 5, 1 << 31, u32::MAX];
  for a in ids { for b in ids { for c in ids {
    if a < b && b < c {
      assert!(SoS::new(a, b, c) == SoS::CounterClockWise);
      assert!(SoS::new(b, a, c) == SoS::ClockWise);
    }
  } } }
}"""),
dict(id="C28-float-order", property="C28",
 edits=[(PO, "    self.map(|v| OrderedFloat(v.into()))", "    Polygon::new_unchecked(\n      self\n        .points\n        .into_iter()\n        .map(|p| p.map(|v| OrderedFloat(v.into())))\n        .collect(),\n    )")],
 needs="a polygon built from clockwise vertices",
 breaks="converting a polygon to doubles turns it clockwise",
 demo=PRE + """
fn main() {
  let q = Polygon::new(vec![p(0, 0), p(0, 3), p(2, 5), p(3, 0)]).unwrap();
  assert!(q.validate().is_ok());
  assert!(q.float().validate().is_ok());
}"""),
dict(id="C21-narrow-length", property="C21",
 edits=[(IT, "      pos_tail.position_id.0 - pos_head.position_id.0 + 1", "      usize::from((pos_tail.position_id.0 - pos_head.position_id.0) as u16) + 1")],
 needs="a range of more than 65536 vertices",
 breaks="the reported length of long ranges is wrong",
 demo=PRE + """
fn main() {
  let q = Polygon::new_unchecked((0..70_000i64).map(|x| Point::new([x, x * x])).collect());
  assert_eq!(q.iter_boundary().len(), q.iter_boundary().count());
}"""),
dict(id="C13-long-lists", property="C13",
 edits=[("src/algorithms/convex_hull/graham_scan.rs", "  let smallest = &smallest_point(&pts)?;\n", "  if pts.len() > 1 << 12 {\n    // Points at the same height between two others are never on the hull.\n    pts.sort_by(|a, b| (a.y_coord(), a.x_coord()).total_cmp(&(b.y_coord(), b.x_coord())));\n    let mut prev: Option<Point<T>> = None;\n    pts.dedup_by(|b, a| {\n      let drop = prev.as_ref().is_some_and(|p| p.y_coord() == a.y_coord() && a.y_coord() == b.y_coord());\n      prev = Some(a.clone());\n      drop\n    });\n  }\n  let smallest = &smallest_point(&pts)?;\n")],
 needs="more than 4096 points with three at the same height",
 breaks="points of the hull are dropped from long lists",
 demo=PRE + """
fn main() {
  let pts: Vec<Point<i32>> = (0..5000).map(|x| p(x % 100, x / 100)).collect();
  let h = rgeometry::algorithms::convex_hull(pts).unwrap();
  let mut got: Vec<[i32; 2]> = h.iter().map(|q| q.array).collect();
  got.sort();
  assert_eq!(got, [[0, 0], [0, 49], [99, 0], [99, 49]]);
}"""),
]
