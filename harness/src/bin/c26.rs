//! C26: ear and vertex classification is exact.
use num::{BigInt, BigRational};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::*;
use rgeometry::Orientation;
use vharness::*;

/// Strictly convex, and the closed triangle with both neighbours has no other vertex.
fn ear(p: &[P], i: usize) -> bool {
  let n = p.len();
  let (a, b, d) = (p[(i + n - 1) % n], p[i], p[(i + 1) % n]);
  if geo::orient(a, b, d) <= 0 {
    return false;
  }
  (0..n).filter(|j| *j != i && *j != (i + 1) % n && (*j + 1) % n != i).all(|j| {
    let q = p[j];
    geo::orient(a, b, q) < 0 || geo::orient(b, d, q) < 0 || geo::orient(d, a, q) < 0
  })
}
fn turn(i: i32) -> Orientation {
  match i {
    1 => Orientation::CounterClockWise,
    -1 => Orientation::ClockWise,
    _ => Orientation::CoLinear,
  }
}

fn check<T: Sc>(c: &mut Ctx, p: &[P], q: &Polygon<T>, e: &Emb) -> R {
  let t = T::NAME;
  let n = p.len();
  let at = |i: usize| p[i % n];
  let mut ears = 0;
  let mut seen = 0;
  let mut blocked = false;
  for cur in q.iter_boundary() {
    let me = back(cur.point(), e).ok_or("vertex is not an input point")?;
    let Some(i) = p.iter().position(|x| *x == me) else { return Err(format!("{t}: {me:?} is no vertex of {p:?}")) };
    let o = geo::orient(at(i + n - 1), me, at(i + 1));
    ensure_eq!(cur.orientation(), turn(o), "{t}: turn at {me:?} in {p:?}");
    ensure_eq!(cur.is_colinear(), o == 0, "{t}: colinear at {me:?} in {p:?}");
    let want = ear(p, i);
    blocked |= o > 0 && !want;
    ensure_eq!(cur.is_ear(), want, "{t}: ear at {me:?} in {p:?}");
    // the same through the other ways to reach the vertex
    let again = q.cursor(cur.point_id());
    ensure_eq!(again.is_ear(), want, "{t}: ear at {me:?} by id in {p:?}");
    ensure_eq!(cur.next().prev().is_ear(), want, "{t}: ear at {me:?} by steps in {p:?}");
    ears += cur.is_ear() as usize;
    seen += 1;
  }
  ensure_eq!(seen, n, "{t}: vertices visited in {p:?}");
  let line = (0..n).any(|i| (0..i).any(|j| (0..j).any(|k| geo::orient(p[i], p[j], p[k]) == 0)));
  c.class_if(line, "three-colinear-vertices");
  c.class_if(blocked, "convex-vertex-that-is-no-ear");
  c.class_if(n == 3, "triangle");
  c.nontrivial_if(n >= 4 && (blocked || ears < n));
  if !line {
    ensure!(ears >= 2.min(n) && (n > 3 || ears == 3), "{t}: {ears} ears in {p:?}");
  }
  Ok(())
}

fn shape(s: &mut Src) -> Vec<P> {
  match s.weighted(&[6, 2, 1]) {
    0 => gen::simple_polygon(s, 14, 12),
    1 => gen::simple_polygon(s, 8, 4),
    _ => {
      let n = s.usize(3, 12);
      gen::convex(s, n, 30)
    }
  }
}
fn run<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  let p = shape(s);
  let st = shapes::store(s);
  let (lo, hi) = geo::bbox(&p);
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let q = shapes::polygon::<T>(&p, &e, st);
  c.case(&(&p, &e, st, T::NAME), || format!("{} ears of {:?}, storage {st}", T::NAME, pts::<T>(&p, &e)));
  c.class(T::NAME);
  c.class_if(st > 1, "permuted-storage");
  check(c, &p, &q, &e)
}
fn types(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    run::<i64>,
    run::<i8>,
    run::<f64>,
    run::<i16>,
    run::<i32>,
    run::<isize>,
    run::<f32>,
    run::<OrderedFloat<f64>>,
    run::<OrderedFloat<f32>>,
    run::<NotNan<f64>>,
    run::<NotNan<f32>>,
    run::<BigInt>,
    run::<BigRational>,
    run::<rug::Integer>,
  ];
  f[s.weighted(&[6, 4, 6, 4, 4, 4, 4, 2, 2, 2, 2, 2, 1, 2])](s, c)
}
/// Simple polygons among all vertex lists of three to six points on the 3x3 grid.
fn grid(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let mut k = 3;
  let mut total = 729u64;
  while k < 6 && i >= total {
    i -= total;
    total *= 9;
    k += 1;
  }
  if k == 6 {
    i = i.wrapping_mul(48271) % total;
  }
  let p: Vec<P> = (0..k)
    .map(|_| {
      let d = (i % 9) as i64;
      i /= 9;
      [d % 3, d / 3]
    })
    .collect();
  if geo::area2(&p) <= 0 || !geo::is_simple(&p) {
    return Ok(());
  }
  c.case(&p, || format!("grid, ears of {p:?}"));
  let q = shapes::polygon::<i64>(&p, &Emb::ID, 0);
  check(c, &p, &q, &Emb::ID)
}
fn large(s: &mut Src, c: &mut Ctx) -> R {
  let p = gen::simple_polygon(s, 90, 1000);
  let st = shapes::store(s);
  c.case(&(&p, st), || format!("large, ears of {p:?}, storage {st}"));
  let q = shapes::polygon::<i64>(&p, &Emb::ID, st);
  check(c, &p, &q, &Emb::ID)
}

/// Hundreds of vertices.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[1000i64, 40, 1_000_000]);
  let p = gen::huge_polygon(s, 300, m);
  let st = shapes::store(s);
  c.case(&(&p, st), || format!("huge, ears of {p:?}, storage {st}"));
  let q = shapes::polygon::<i64>(&p, &Emb::ID, st);
  check(c, &p, &q, &Emb::ID)
}

/// Thousands to tens of thousands of vertices.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let (p, text) = giant::polygon(s, 70_000);
  let st = s.below(2) as u64;
  let poly = shapes::polygon::<i64>(&p, &Emb::ID, st);
  let mut e = s.expand();
  let n = p.len();
  let at: Vec<usize> = (0..20).map(|k| if k < 3 { n - 1 - k } else { e.below(n) }).collect();
  c.case(&(&text, &at, st), || format!("ears of the {text}, vertices {at:?}"));
  c.nontrivial();
  let around: Vec<_> = poly.iter_boundary().collect();
  for i in at {
    let o = geo::orient(p[(i + n - 1) % n], p[i], p[(i + 1) % n]);
    // the boundary may start elsewhere when it was turned around
    let shift = (0..n).find(|k| around[*k].array == p[0]).ok_or("a vertex is missing")?;
    let cur = around[(i + shift) % n];
    ensure_eq!(cur.array, p[i], "vertex {i} of the {text}");
    ensure_eq!(cur.orientation(), turn(o), "turn at vertex {i} of the {text}");
    ensure_eq!(cur.is_ear(), ear(&p, i), "ear at vertex {i} of the {text}");
  }
  Ok(())
}

/// Coordinates of every kind one type has, against the same in rationals.
fn raw(s: &mut Src, c: &mut Ctx) -> R {
  native::raw(s, c, &["ears"], 2)
}

static SPEC: Spec = Spec {
  id: "C26",
  rule: "Simple polygons (untangled, spiral, comb, convex, colinear runs, small grids), exactly embedded in 14 scalar types up to their extremes, stored in boundary order, flipped or permuted; every simple counter-clockwise chain of three to five points on the 3x3 grid and a sample (thorough: all) of six; up to 90, and up to 300, vertices. Every vertex is classified, reached by iteration, by id and by steps. Polygons of up to 70,000 vertices. Small lists with coordinates of every kind one type has (full range, neighbouring values, mixed magnitudes, exact and nudged continuations of lines), against the same in rationals. Non-trivial: at least four vertices, one of them not an ear.",
  assumptions: &["the two-ears law is only required without three colinear vertices: with the closed triangle as the criterion a colinear vertex can block every ear"],
  parts: &[
    Part { name: "raw", quick: 20_000, thorough: 1_000_000, len: 300, run: raw },
    Part { name: "types", quick: 550_000, thorough: 8_000_000, len: 120, run: types },
    Part { name: "grid", quick: 160_000, thorough: 597_780, len: 0, run: grid },
    Part { name: "large", quick: 7_500, thorough: 100_000, len: 500, run: large },
    Part { name: "huge", quick: 1_500, thorough: 8_000, len: 24, run: huge },
    Part { name: "giant", quick: 120, thorough: 3000, len: 24, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
