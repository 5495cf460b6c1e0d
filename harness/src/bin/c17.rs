//! C17: monotone polygonization and the monotonicity test are exact.
use num::{BigInt, BigRational, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::polygonization::new_monotone_polygon;
use rgeometry::data::*;
use rgeometry::Error;
use vharness::*;

fn along(d: P, p: P) -> i128 {
  d[0] as i128 * p[0] as i128 + d[1] as i128 * p[1] as i128
}
/// Weakly monotone: going around, the level changes direction exactly twice.
fn monotone(p: &[P], d: P) -> bool {
  let n = p.len();
  let signs: Vec<i32> = (0..n)
    .map(|i| geo::sgn(along(d, p[(i + 1) % n]) - along(d, p[i])))
    .filter(|x| *x != 0)
    .collect();
  let m = signs.len();
  (0..m).filter(|i| signs[*i] != signs[(*i + 1) % m]).count() == 2
}
/// The definition: every line perpendicular to d meets the closed polygon in a connected
/// set. Lines through vertices and halfway between neighbouring levels decide it.
fn monotone_by_lines(p: &[P], d: P) -> bool {
  let n = p.len();
  // level u (doubled) and offset v of every vertex
  let uv: Vec<[i128; 2]> = p
    .iter()
    .map(|q| [2 * along(d, *q), d[0] as i128 * q[1] as i128 - d[1] as i128 * q[0] as i128])
    .collect();
  let mut levels: Vec<i128> = uv.iter().map(|x| x[0]).collect();
  levels.sort();
  levels.dedup();
  let mids: Vec<i128> = levels.windows(2).map(|w| (w[0] + w[1]) / 2).collect();
  levels.extend(mids);
  let q = |x: i128| Q::from(BigInt::from(x));
  for t in levels {
    // where the boundary meets the line
    let mut vs: Vec<Q> = vec![];
    let mut runs: Vec<(Q, Q)> = vec![];
    for i in 0..n {
      let (a, b) = (uv[i], uv[(i + 1) % n]);
      if a[0] == t && b[0] == t {
        runs.push((q(a[1].min(b[1])), q(a[1].max(b[1]))));
      }
      if a[0].min(b[0]) <= t && t <= a[0].max(b[0]) {
        if a[0] == b[0] {
          vs.push(q(a[1]));
          vs.push(q(b[1]));
        } else {
          vs.push(q(a[1]) + q(t - a[0]) * q(b[1] - a[1]) / q(b[0] - a[0]));
        }
      }
    }
    vs.sort();
    vs.dedup();
    for w in vs.windows(2) {
      let m = (&w[0] + &w[1]) / q(2);
      if runs.iter().any(|(x, y)| *x <= m && m <= *y) {
        continue;
      }
      // (t, m) is not on the boundary: inside by crossing parity towards larger offsets
      let mut inside = false;
      for i in 0..n {
        let (a, b) = (uv[i], uv[(i + 1) % n]);
        if (a[0] <= t) != (b[0] <= t) {
          let v = q(a[1]) + q(t - a[0]) * q(b[1] - a[1]) / q(b[0] - a[0]);
          if v > m {
            inside = !inside;
          }
        }
      }
      if !inside {
        return false;
      }
    }
  }
  true
}
fn direction(s: &mut Src, p: &[P]) -> P {
  let d = match s.weighted(&[3, 2, 3, 1]) {
    0 => s.pick(&[[0i64, 1], [1, 0], [0, -1], [-1, 0]]),
    1 => [s.sym(5), s.sym(5)],
    // along or perpendicular to an edge or diagonal
    2 if p.len() >= 2 => {
      let (i, j) = (s.below(p.len()), s.below(p.len()));
      let v = [p[j][0] - p[i][0], p[j][1] - p[i][1]];
      if s.flip() {
        v
      } else {
        [-v[1], v[0]]
      }
    }
    _ => [s.sym(1_000_000), s.sym(1_000_000)],
  };
  if d == [0, 0] {
    [0, 1]
  } else {
    d
  }
}
fn test<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[4i64, 2, 8, 30, 1000, 100_000]);
  let p = gen::simple_polygon(s, 16, m);
  let ds: Vec<P> = (0..s.usize(1, 3)).map(|_| direction(s, &p)).collect();
  let (lo, hi) = geo::bbox(&p);
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let st = shapes::store(s);
  let mut poly = shapes::polygon::<T>(&p, &e, st);
  if st == 0 {
    let mut v = pts::<T>(&p, &e);
    if shapes::negative_zeros(s, &mut v) {
      poly = Polygon::new_unchecked(v);
    }
  }
  c.case(&(&p, &ds, &e, st, T::NAME), || format!("{} monotone along {ds:?}? {:?}", T::NAME, ring(&poly, &e)));
  c.class(T::NAME);
  for d in ds.iter().filter(|d| vec_fits::<T>(**d)) {
    let want = monotone(&p, *d);
    c.class(if want { "monotone" } else { "not-monotone" });
    let n = p.len();
    let flat = (0..n).any(|i| along(*d, p[i]) == along(*d, p[(i + 1) % n]));
    c.class_if(flat, "edge-perpendicular-to-the-direction");
    c.nontrivial_if(!want || flat || n >= 6);
    let v = vec2::<T>(*d, &Emb { mul: 1, add: [0, 0], exp: 0, den: 1 });
    ensure_eq!(poly.is_monotone(&v), want, "{}: is_monotone along {d:?} of {p:?}", T::NAME);
  }
  Ok(())
}
fn build<T: Sc>(p: &[P], d: P, v: Vec<Point<T>>, e: &Emb) -> R {
  let t = T::NAME;
  let mut set = p.to_vec();
  set.sort();
  set.dedup();
  let dir = vec2::<T>(d, &Emb { mul: 1, add: [0, 0], exp: 0, den: 1 });
  match new_monotone_polygon(v, &dir) {
    Ok(q) => {
      let r = ring(&q, e)?;
      let mut got = r.clone();
      got.sort();
      ensure_eq!(got, set, "{t}: vertices of the polygon monotone along {d:?} from {p:?}");
      ensure!(geo::is_simple(&r), "{t}: not simple: {r:?}, monotone along {d:?} from {p:?}");
      ensure!(geo::area2(&r) > 0, "{t}: clockwise: {r:?}, monotone along {d:?} from {p:?}");
      ensure!(monotone(&r, d), "{t}: {r:?} from {p:?} is not monotone along {d:?}");
      ensure!(q.is_monotone(&dir), "{t}: is_monotone along {d:?} of {r:?}");
    }
    Err(x) => {
      let line = geo::all_colinear(p);
      let real = match x {
        Error::InsufficientVertices => set.len() < 3 || line,
        Error::DuplicatePoints => geo::has_dup(p),
        Error::SelfIntersections | Error::CoLinearViolation => line,
        _ => false,
      };
      ensure!(real, "{t}: monotone along {d:?} from {p:?} fails with {x:?}, a defect the points do not have");
    }
  }
  Ok(())
}
fn make<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  let p = gen::points(s, 14, false);
  let d = direction(s, &p);
  let (lo, hi) = if p.is_empty() { ([0, 0], [0, 0]) } else { geo::bbox(&p) };
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  if !vec_fits::<T>(d) {
    return Ok(());
  }
  let mut v = pts::<T>(&p, &e);
  shapes::negative_zeros(s, &mut v);
  c.case(&(&p, d, &e, T::NAME), || format!("{} polygon monotone along {d:?} from {v:?}", T::NAME));
  c.class(T::NAME);
  c.class_if(geo::all_colinear(&p), "all-on-one-line");
  c.class_if(geo::has_dup(&p), "repeated-points");
  let ties = (0..p.len()).any(|i| (0..i).any(|j| p[i] != p[j] && along(d, p[i]) == along(d, p[j])));
  c.class_if(ties, "points-at-the-same-level");
  c.nontrivial_if(p.len() >= 4 && !geo::all_colinear(&p));
  build(&p, d, v, &e)
}
macro_rules! dispatch {
  ($name:ident, $f:ident) => {
    fn $name(s: &mut Src, c: &mut Ctx) -> R {
      let f = [
        $f::<i64>,
        $f::<i8>,
        $f::<f64>,
        $f::<i16>,
        $f::<i32>,
        $f::<isize>,
        $f::<f32>,
        $f::<OrderedFloat<f64>>,
        $f::<OrderedFloat<f32>>,
        $f::<NotNan<f64>>,
        $f::<NotNan<f32>>,
        $f::<BigInt>,
        $f::<BigRational>,
        $f::<rug::Integer>,
      ];
      f[s.weighted(&[6, 4, 6, 4, 4, 4, 4, 2, 2, 2, 2, 2, 1, 2])](s, c)
    }
  };
}
dispatch!(test_types, test);
dispatch!(make_types, make);

/// The definition by lines against the library and the turn count.
fn lines(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[4i64, 2, 8, 30]);
  let p = gen::simple_polygon(s, 12, m);
  let d = direction(s, &p);
  c.case(&(&p, d), || format!("monotone along {d:?} by lines? {p:?}"));
  let want = monotone_by_lines(&p, d);
  ensure_eq!(monotone(&p, d), want, "harness: turn count and lines along {d:?} of {p:?}");
  c.class(if want { "monotone" } else { "not-monotone" });
  c.nontrivial_if(p.len() >= 5);
  let poly = Polygon::new_unchecked(pts::<i64>(&p, &Emb::ID));
  ensure_eq!(poly.is_monotone(&Vector(d)), want, "is_monotone along {d:?} of {p:?} (by lines)");
  let _ = Q::zero();
  Ok(())
}
/// Every list of up to five points (six: spread sample) on the 3x3 grid, eight directions.
fn grid(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let mut k = 0;
  let mut total = 1u64;
  while k < 6 && i >= total {
    i -= total;
    total *= 9;
    k += 1;
  }
  if k == 6 {
    i = i.wrapping_mul(48271) % total;
  }
  let p: Vec<P> = (0..k)
    .map(|_| {
      let d = (i % 9) as i64;
      i /= 9;
      [d % 3, d / 3]
    })
    .collect();
  c.case(&p, || format!("grid {p:?}, eight directions"));
  c.nontrivial_if(k >= 4 && !geo::all_colinear(&p));
  let simple = geo::is_simple(&p) && geo::area2(&p) > 0;
  let poly = simple.then(|| Polygon::new_unchecked(pts::<i64>(&p, &Emb::ID)));
  for d in [[0, 1], [1, 0], [1, 1], [-1, 1], [0, -1], [-1, 0], [1, 2], [-2, 1]] {
    build::<i64>(&p, d, pts(&p, &Emb::ID), &Emb::ID)?;
    if let Some(poly) = &poly {
      ensure_eq!(poly.is_monotone(&Vector(d)), monotone(&p, d), "is_monotone along {d:?} of {p:?}");
    }
  }
  Ok(())
}
fn large(s: &mut Src, c: &mut Ctx) -> R {
  let p = gen::points(s, 120, false);
  let d = direction(s, &p);
  c.case(&(&p, d), || format!("large, monotone along {d:?} from {p:?}"));
  c.nontrivial_if(p.len() >= 20);
  build::<i64>(&p, d, pts(&p, &Emb::ID), &Emb::ID)
}

/// Hundreds of vertices, tested and built.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[1000i64, 40, 1_000_000]);
  if s.flip() {
    let p = gen::points(&mut s.expand(), 700, false);
    let d = direction(s, &p);
    c.case(&(&p, d), || format!("huge, monotone along {d:?} from {p:?}"));
    c.nontrivial_if(p.len() >= 20);
    return build::<i64>(&p, d, pts(&p, &Emb::ID), &Emb::ID);
  }
  let p = gen::huge_polygon(s, 1300, m);
  let st = shapes::store(s);
  let poly = shapes::polygon::<i64>(&p, &Emb::ID, st);
  for _ in 0..4 {
    let d = direction(s, &p);
    c.case(&(&p, d, st), || format!("huge, monotone along {d:?}? storage {st}, {p:?}"));
    let want = monotone(&p, d);
    c.class(if want { "monotone" } else { "not-monotone" });
    c.nontrivial_if(p.len() >= 20);
    ensure_eq!(poly.is_monotone(&Vector(d)), want, "is_monotone along {d:?} of {p:?}");
  }
  Ok(())
}

/// Thousands to tens of thousands of vertices.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let (p, text) = giant::polygon(s, 70_000);
  let st = s.below(2) as u64;
  let poly = shapes::polygon::<i64>(&p, &Emb::ID, st);
  for _ in 0..4 {
    let d = match s.below(3) {
      0 => s.pick(&[[1, 0], [0, 1], [-1, 0], [0, -1], [1, 1], [1, -1]]),
      1 => [1, 100_000],
      _ => [s.sym(4), 1],
    };
    c.case(&(&text, d, st), || format!("monotone along {d:?}? the {text}"));
    let want = monotone(&p, d);
    c.class(if want { "monotone" } else { "not-monotone" });
    c.nontrivial();
    ensure_eq!(poly.is_monotone(&Vector(d)), want, "is_monotone along {d:?} of the {text}");
  }
  let n = s.usize(1000, 2100);
  let mut q = p;
  s.expand().shuffle(&mut q);
  q.truncate(n);
  let d = s.pick(&[[1, 0], [0, 1], [-1, 0], [1, 1]]);
  match new_monotone_polygon(pts::<i64>(&q, &Emb::ID), &Vector(d)) {
    Ok(r) => {
      let r = ring(&r, &Emb::ID)?;
      ensure!(geo::is_simple(&r) && geo::area2(&r) > 0 && monotone(&r, d), "polygon monotone along {d:?} from {n} vertices of the {text}");
      let mut got = r;
      got.sort();
      q.sort();
      ensure!(got == q, "vertices of the polygon monotone along {d:?} from {n} vertices of the {text}");
    }
    Err(x) => ensure!(geo::all_colinear(&q), "{x:?} for the polygon monotone along {d:?} from {n} vertices of the {text}"),
  }
  Ok(())
}

/// Coordinates of every kind one type has, against the same in rationals.
fn raw(s: &mut Src, c: &mut Ctx) -> R {
  native::raw(s, c, &["monotone", "is_monotone"], 1)
}

static SPEC: Spec = Spec {
  id: "C17",
  rule: "Simple polygons of seven families in any storage order with axis, random, edge-parallel and edge-perpendicular non-zero directions; point lists (grids, few lines, few distinct coordinates, repeats, convex position) with such directions; exactly embedded in 14 scalar types up to their extremes, with negative zeros; a line-by-line evaluation of the definition; every list of up to five points (six: a spread sample; all in the thorough tier) on the 3x3 grid in eight directions; up to 120, and hundreds of, points. Polygons of up to 70,000 vertices, and up to 2100 points to build from. Small lists with coordinates of every kind one type has (full range, neighbouring values, mixed magnitudes, exact and nudged continuations of lines), against the same in rationals. Non-trivial: not monotone, or an edge perpendicular to the direction, or six vertices (building: four points not on one line).",
  assumptions: &["the zero vector is no direction and is excluded", "building accepts repeated points and uses each once"],
  parts: &[
    Part { name: "raw", quick: 20_000, thorough: 1_000_000, len: 300, run: raw },
    Part { name: "test", quick: 220_000, thorough: 6_000_000, len: 110, run: test_types },
    Part { name: "build", quick: 220_000, thorough: 6_000_000, len: 80, run: make_types },
    Part { name: "lines", quick: 30_000, thorough: 500_000, len: 80, run: lines },
    Part { name: "grid", quick: 220_000, thorough: 597_871, len: 0, run: grid },
    Part { name: "large", quick: 4_500, thorough: 200_000, len: 400, run: large },
    Part { name: "huge", quick: 3_000, thorough: 10_000, len: 40, run: huge },
    Part { name: "giant", quick: 40, thorough: 1000, len: 24, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
