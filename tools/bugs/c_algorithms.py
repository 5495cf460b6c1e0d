# Bugs in the algorithms: triangulation, polygonization, visibility, random polygons, sets, hashes, transforms.
EC = "src/algorithms/triangulation/earclip.rs"; TO = "src/algorithms/polygonization/two_opt.rs"; MO = "src/algorithms/polygonization/monotone.rs"
ST = "src/algorithms/polygonization/star.rs"; VI = "src/algorithms/visibility/naive.rs"; CX = "src/data/polygon/convex.rs"
IS = "src/data/intersection_set.rs"; UT = "src/utils.rs"; ZH = "src/algorithms/zhash.rs"; TF = "src/transformation.rs"; LB = "src/lib.rs"
PRE = """
use rgeometry::data::*;
fn p(x: i32, y: i32) -> Point<i32> { Point::new([x, y]) }
"""
BUGS = [
dict(id="C15-box-prefix", property="C15",
 edits=[(EC, "  for &pid in order {\n    let pt = &slice[pid.usize()];\n", "  for pt in slice.iter().take(order.len()) {\n")],
 needs="a list of points of which the polygon uses only some, not the first ones",
 breaks="the hash box does not cover the polygon, so hashed triangulation misses blocking vertices or overflows",
 demo="""
use rgeometry::data::*;
use rgeometry::algorithms::triangulation::earclip::*;
use rand::SeedableRng;
fn main() {
  let mut pts: Vec<Point<i64>> = (0..6).map(|i| Point::new([i, i * i % 5])).collect();
  let shape = [[0, 0], [3_000_000_000i64, 0], [3_000_000_000, 4_000_000_000], [1_500_000_000, 100], [-5_000_000_000, 6_000_000_000], [-100, 7]];
  pts.extend(shape.iter().map(|c| Point::new(*c)));
  let q = Polygon::new(pts.clone());
  let _ = q;
  // point ids can only be had from a polygon
  let ids: Vec<PointId> = Polygon::new_unchecked(pts.clone()).iter_boundary().map(|c| c.point_id()).collect();
  let order = &ids[6..];
  for seed in 0..30 {
    let r = rand::rngs::SmallRng::seed_from_u64(seed);
    let a: Vec<_> = triangulate_list(&pts, order, r.clone()).collect();
    let b: Vec<_> = triangulate_list_hashed(&pts, order, r).collect();
    assert_eq!(a, b);
  }
}"""),
dict(id="C17-level-dedup", property="C17",
 edits=[(MO, "  points.dedup();\n", "  // Inner points on the same level as their neighbour in the list are copies of it.\n  points.dedup_by(|a, b| a.x_coord() == b.x_coord() && direction.cmp_along(a, b) == Ordering::Equal);\n")],
 needs="a direction along the x axis and two points with the same x coordinate",
 breaks="points are dropped from the monotone polygon",
 demo=PRE + """
fn main() {
  let v = vec![p(0, 0), p(3, 2), p(3, -2), p(6, 1), p(2, 0)];
  let q = rgeometry::algorithms::polygonization::new_monotone_polygon(v, &Vector([1, 0])).unwrap();
  assert_eq!(q.boundary_slice().len(), 5);
}"""),
dict(id="C18-left-turns", property="C18",
 edits=[(ST, "  vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));\n", "  // A chain that only turns left goes around the point already.\n  let turns_left = |w: &[Point<T>]| Point::orient(&w[0], &w[1], &w[2]).is_ccw();\n  if !vertices.windows(3).all(turns_left) {\n    vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));\n  }\n")],
 needs="points listed in the order of a pentagram",
 breaks="points that turn left but wind around twice are rejected",
 demo=PRE + """
fn main() {
  let star = vec![p(0, 10), p(-6, -8), p(9, 3), p(-9, 3), p(6, -8)];
  let q = rgeometry::algorithms::polygonization::new_star_polygon(star, &p(0, 0)).unwrap();
  assert_eq!(q.boundary_slice().len(), 5);
}"""),
dict(id="C18-one-per-direction", property="C18",
 edits=[(ST, "  Polygon::new(vertices)", "  // Of several vertices in the same direction, only one can be part of the boundary.\n  vertices.dedup_by(|a, b| point.ccw_cmp_around(a, b).is_eq());\n  Polygon::new(vertices)")],
 needs="two points in the same direction from the centre",
 breaks="the star polygon lacks some of the given points",
 demo=PRE + """
fn main() {
  let v = vec![p(4, 0), p(8, 0), p(0, 5), p(-5, -1), p(1, -6)];
  match rgeometry::algorithms::polygonization::new_star_polygon(v, &p(0, 0)) {
    Ok(q) => assert_eq!(q.boundary_slice().len(), 5),
    Err(_) => {}
  }
}"""),
dict(id="C19-far-edge", property="C19",
 edits=[(VI, "      use IHalfLineLineSegmentSoS::*;\n      use Orientation::*;\n", "      use IHalfLineLineSegmentSoS::*;\n      use Orientation::*;\n      // Edges behind both of the intersections found so far can't hide them.\n      let behind = |isect: &NearestIntersection<'_, T>| {\n        isect.nearest_intersection.as_ref().is_some_and(|pt| {\n          point.cmp_distance_to(edge.src, pt) == Ordering::Greater\n            && point.cmp_distance_to(edge.dst, pt) == Ordering::Greater\n        })\n      };\n      if behind(&left_intersection) && behind(&right_intersection) {\n        continue;\n      }\n")],
 needs="a long edge that passes close to the viewpoint, listed after a shorter one behind it",
 breaks="the visibility polygon shows parts hidden behind a long wall",
 demo="""
use num::BigRational;
use rgeometry::data::*;
use rgeometry::algorithms::visibility::naive::get_visibility_polygon;
fn q(x: i64, y: i64) -> Point<BigRational> { Point::new([BigRational::from_integer(x.into()), BigRational::from_integer(y.into())]) }
fn main() {
  // a long thin wall between the viewpoint and a dent of the roof behind it
  let v = vec![q(-200, 0), q(300, 0), q(300, 20), q(-190, 20), q(-190, 21), q(300, 21), q(300, 30), q(60, 25), q(-200, 30)];
  let mut first = None;
  for k in 0..v.len() {
    let mut w = v.clone();
    w.rotate_left(k);
    let r = get_visibility_polygon(&q(50, 5), &Polygon::new(w).unwrap()).unwrap();
    let a = r.signed_area_2x::<BigRational>();
    if first.is_none() { first = Some(a.clone()) }
    assert_eq!(first.as_ref(), Some(&a), "{k}");
    assert_eq!(r.locate(&q(59, 24)), PointLocation::Outside);
  }
}"""),
dict(id="C22-last-draw", property="C22",
 edits=[(UT, "    let idx = rng.gen_range(0..self.dense.len());", "    let idx = rng.gen_range(0..self.dense.len().max(2) - 1);")],
 needs="drawing many times from an unchanged set",
 breaks="the most recently stored pair is never drawn",
 demo="""
use rgeometry::data::*;
use rand::SeedableRng;
fn main() {
  let ids: Vec<PointId> = Polygon::new_unchecked((0..6i32).map(|i| Point::new([i, i * i])).collect()).iter_boundary().map(|c| c.point_id()).collect();
  let e = |a: usize, b: usize| IndexEdge::new(ids[a], ids[b]);
  let mut set = IndexIntersectionSet::new(6);
  let all = [IndexIntersection::new(e(0, 1), e(2, 3)), IndexIntersection::new(e(0, 1), e(4, 5)), IndexIntersection::new(e(1, 2), e(3, 4))];
  for i in all { set.push(i); }
  let mut rng = rand::rngs::SmallRng::seed_from_u64(1);
  let mut hit = [false; 3];
  for _ in 0..2000 {
    let d = set.random(&mut rng).unwrap();
    hit[all.iter().position(|i| *i == d).unwrap()] = true;
  }
  assert_eq!(hit, [true; 3]);
}"""),
dict(id="C23-wide-shift", property="C23",
 edits=[(ZH, "    let y_r_shift = 32u32.saturating_sub(height.leading_zeros());", "    let y_r_shift = 33u32.saturating_sub(height.leading_zeros());", 0)],
 needs="a box whose height is between 2^31 and 2^32",
 breaks="two different heights get the same key although the box is narrow enough to tell them apart",
 demo="""
use rgeometry::data::*;
use rgeometry::algorithms::zhash::*;
fn main() {
  let (a, b, h) = (0i64, 10i64, 3_000_000_000i64);
  let key = <i64 as ZHashable>::zhash_key(ZHashBox { min_x: &a, max_x: &b, min_y: &a, max_y: &h });
  let f = |y: i64| <i64 as ZHashable>::zhash_fn(key, &Point::new([3, y]));
  assert!(f(2_000_000_000) < f(2_000_000_001) && f(2_000_000_001) < f(2_000_000_002));
}"""),
dict(id="C23-float-cells", property="C23",
 edits=[(ZH, "    let y = ((point.y_coord() - min_y) / height * z_hash_max) as u32;", "    let y = ((point.y_coord() - min_y) as f32 / height as f32 * z_hash_max as f32) as u32;")],
 needs="float points whose heights differ by less than 2^-24 of the box",
 breaks="different heights get the same key",
 demo="""
use rgeometry::data::*;
use rgeometry::algorithms::zhash::*;
fn main() {
  let (a, b, h) = (0.0f64, 1.0f64, 1.0f64);
  let key = <f64 as ZHashable>::zhash_key(ZHashBox { min_x: &a, max_x: &b, min_y: &a, max_y: &h });
  let f = |y: f64| <f64 as ZHashable>::zhash_fn(key, &Point::new([0.5, y]));
  assert!(f(0.7) < f(0.7 + 1e-8) && f(0.7 + 1e-8) < f(0.7 + 2e-8));
}"""),
dict(id="C24-ref-product", property="C24",
 edits=[(TF, "    Transform::new(&self.0 * &other.0)", "    Transform::new(&other.0 * &self.0)")],
 needs="the product of two transforms by reference that don't commute",
 breaks="the by-reference product applies the transforms in the wrong order",
 demo=PRE + """
use rgeometry::data::Transform;
fn main() {
  let t = Transform::translate(Vector([3, 4]));
  let s = Transform::scale(Vector([2, 5]));
  assert_eq!(&(&t * &s) * &p(1, 1), p(5, 9));
  assert_eq!(&(&s * &t) * &p(1, 1), p(8, 25));
  let _ = p(0, 0);
}"""),
dict(id="C24-skip-normalizer", property="C24",
 edits=[(TF, "    v[(N, 0)] = T::one();\n    let ret = &self.0 * v;\n    let normalizer = ret[(N, 0)].clone();\n    Vector(array_init(|i| ret[(i, 0)].clone() / normalizer.clone()))", "    // The translation doesn't matter for the null vector of a pure scaling.\n    let scaling = (0..N).all(|i| self.0[(i, N)].is_zero() || other.0[i].is_zero());\n    if !scaling {\n      v[(N, 0)] = T::one();\n    } else {\n      let ret = &self.0 * v;\n      return Vector(array_init(|i| ret[(i, 0)].clone()));\n    }\n    let ret = &self.0 * v;\n    let normalizer = ret[(N, 0)].clone();\n    Vector(array_init(|i| ret[(i, 0)].clone() / normalizer.clone()))")],
 needs="a translation along one axis and a point on the other axis",
 breaks="points on an axis are not moved along that axis's normal",
 demo=PRE + """
use rgeometry::data::Transform;
fn main() {
  let t = Transform::translate(Vector([3, 0]));
  assert_eq!(&t * &p(0, 7), p(3, 7));
  assert_eq!(&t * &p(1, 7), p(4, 7));
}"""),
dict(id="C15-top-cell", property="C15",
 edits=[(EC, "    self.hash() >= min && self.hash() <= max", "    self.hash() >= min && self.hash() < max")],
 needs="a wide polygon in which a blocking vertex shares the hash cell of the highest corner of the ear's box",
 breaks="hashed triangulation cuts ears that contain another vertex near their top corner",
 demo="""
use rgeometry::data::*;
use rgeometry::algorithms::triangulation::earclip::*;
use rand::SeedableRng;
fn main() {
  let s = (1i64 << 40) + 300;
  let q = Polygon::new([[0, 0], [s, s], [0, s], [s - 100, s - 50]].map(Point::new).to_vec()).unwrap();
  let points: Vec<Point<i64>> = q.iter().cloned().collect();
  for seed in 0..40 {
    let r = rand::rngs::SmallRng::seed_from_u64(seed);
    let a: Vec<_> = triangulate_list(&points, q.boundary_slice(), r.clone()).collect();
    let b: Vec<_> = triangulate_list_hashed(&points, q.boundary_slice(), r).collect();
    assert_eq!(a, b);
  }
  assert_eq!(earclip(&q).count(), earclip_hashed(&q).count());
}"""),
dict(id="C16-orientation", property="C16",
 edits=[(TO, "    untangle(poly, &mut isects, isect)\n  }\n  poly.ensure_ccw()?;\n", "    untangle(poly, &mut isects, isect)\n  }\n"),
        (TO, "  resolve_self_intersections(&mut poly, rng)?;\n  Ok(poly)", "  resolve_self_intersections(&mut poly, rng)?;\n  poly.ensure_ccw()?;\n  Ok(poly)")],
 needs="resolving the self-intersections of an existing chain which ends up clockwise",
 breaks="a chain untangled in place may be left clockwise",
 demo=PRE + """
use rand::SeedableRng;
use rgeometry::algorithms::polygonization::resolve_self_intersections;
fn main() {
  for v in [vec![p(0, 0), p(0, 5), p(5, 5), p(5, 0)], vec![p(0, 0), p(5, 5), p(0, 5), p(5, 0)], vec![p(5, 0), p(0, 5), p(5, 5), p(0, 0)]] {
    let mut rng = rand::rngs::SmallRng::seed_from_u64(1);
    let mut q = Polygon::new_unchecked(v);
    resolve_self_intersections(&mut q, &mut rng).unwrap();
    q.validate().unwrap();
  }
}"""),
dict(id="C17-strict-first", property="C17",
 edits=[(MO, "  for pt in min_cursor.to(Excluded(max_cursor)) {\n    if direction.cmp_along(&pt, &pt.next()) == Ordering::Greater {", "  for pt in min_cursor.to(Excluded(max_cursor)) {\n    // A step sideways is fine unless it leads back below the start of the step before.\n    let step = direction.cmp_along(&pt, &pt.next());\n    if step == Ordering::Greater && direction.cmp_along(&pt.prev(), &pt.next()) != Ordering::Less {")],
 needs="a rising chain with a dip that stays above the vertex before",
 breaks="polygons with a shallow dip in the rising chain pass for monotone",
 demo=PRE + """
fn main() {
  let q = Polygon::new(vec![p(0, 0), p(6, 5), p(7, 3), p(8, 9), p(-1, 7)]).unwrap();
  assert!(!q.is_monotone(&Vector([0, 1])));
  assert!(q.is_monotone(&Vector([1, 0])));
}"""),
dict(id="C20-two-vertices", property="C20",
 edits=[(CX, "    let n = n.max(3);\n", "    let n = n.max(2);\n")],
 needs="a request for two vertices or fewer",
 breaks="sampling never ends since two opposite edge vectors are always colinear",
 demo="""
use rgeometry::data::*;
use rand::SeedableRng;
fn main() {
  for n in 0..5 {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
      let mut rng = rand::rngs::SmallRng::seed_from_u64(5);
      let c: PolygonConvex<i64> = PolygonConvex::random(n, &mut rng);
      tx.send(c.boundary_slice().len()).unwrap();
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(10)), Ok(n.max(3)));
  }
}"""),
dict(id="C02-wrapped-along", property="C02",
 edits=[(LB, "        PolygonScalar::cmp_perp_vector_slope(\n          &[float_to_rational(vector[0].into_inner()), float_to_rational(vector[1].into_inner())],\n          &[float_to_rational(p[0].into_inner()), float_to_rational(p[1].into_inner())],\n          &[float_to_rational(q[0].into_inner()), float_to_rational(q[1].into_inner())],\n        )", "        PolygonScalar::cmp_slope(p, &[p[0] - vector[1], p[1] + vector[0]], q)")],
 needs="a wrapped float type and coordinates much larger than the direction's",
 breaks="the order along a direction is computed with a rounded point in the wrapped float types only",
 demo="""
use rgeometry::data::*;
use ordered_float::OrderedFloat;
fn main() {
  let s = (1i64 << 52) as f64;
  let o = OrderedFloat;
  let v = Vector([1.0, 0.25]);
  let (a, b) = ([s, s], [s + 1.0, s - 5.0]);
  let x = v.cmp_along(&Point::new(a), &Point::new(b));
  let w = Vector([o(1.0), o(0.25)]);
  let y = w.cmp_along(&Point::new([o(a[0]), o(a[1])]), &Point::new([o(b[0]), o(b[1])]));
  assert_eq!(x, y);
}"""),
]
