//! C18: star polygonization is sound.
use num::{BigInt, BigRational};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::polygonization::new_star_polygon;
use rgeometry::data::*;
use rgeometry::Error;
use std::cmp::Ordering;
use vharness::*;

fn dir(o: P, p: P) -> [i128; 2] {
  [p[0] as i128 - o[0] as i128, p[1] as i128 - o[1] as i128]
}
fn ang(o: P, a: P, b: P) -> Ordering {
  geo::cmp_angle(dir(o, a), dir(o, b))
}
/// Some rotation of the cycle has non-decreasing angles around o (points at o have none).
fn sorted_around(o: P, r: &[P]) -> bool {
  let v: Vec<P> = r.iter().copied().filter(|p| *p != o).collect();
  let n = v.len();
  (0..n).filter(|i| ang(o, v[*i], v[(*i + 1) % n]) == Ordering::Greater).count() <= 1
}
/// Strictly inside the convex hull.
fn inside_hull(o: P, p: &[P]) -> bool {
  let h = geo::hull(p);
  let n = h.len();
  n >= 3 && (0..n).all(|i| geo::orient(h[i], h[(i + 1) % n], o) > 0)
}

fn build<T: Sc>(c: &mut Ctx, p: &[P], o: P, v: Vec<Point<T>>, e: &Emb) -> R {
  let t = T::NAME;
  let centre = pt::<T>(o, e);
  let at_centre = p.contains(&o);
  let ties = !at_centre && (0..p.len()).any(|i| (0..i).any(|j| ang(o, p[i], p[j]) == Ordering::Equal));
  let inside = inside_hull(o, p);
  let mut chain = p.to_vec();
  if !at_centre {
    chain.sort_by(|a, b| ang(o, *a, *b));
  }
  c.class_if(at_centre, "vertex-at-the-centre");
  c.class_if(ties, "points-in-the-same-direction");
  c.class_if(inside, "centre-strictly-inside-the-hull");
  let got = new_star_polygon(v, &centre);
  c.class(if got.is_ok() { "built" } else { "rejected" });
  c.nontrivial_if(p.len() >= 4 && !geo::all_colinear(p) && (ties || inside));
  match got {
    Ok(q) => {
      let r = ring(&q, e)?;
      let (mut x, mut y) = (r.clone(), p.to_vec());
      x.sort();
      y.sort();
      ensure_eq!(x, y, "{t}: vertices of the star polygon around {o:?} from {p:?}");
      ensure!(geo::is_simple(&r), "{t}: not simple: {r:?}, star around {o:?} from {p:?}");
      ensure!(geo::area2(&r) > 0, "{t}: clockwise: {r:?}, star around {o:?} from {p:?}");
      let mut back = r.clone();
      back.reverse();
      ensure!(
        sorted_around(o, &r) || sorted_around(o, &back),
        "{t}: {r:?} is not in angular order around {o:?} (from {p:?})"
      );
      if inside && !at_centre {
        ensure!(sorted_around(o, &r), "{t}: {r:?} is not counter-clockwise around {o:?} (from {p:?})");
      }
      if !ties && !at_centre {
        ensure!(geo::cyc_eq(&r, &chain) || geo::cyc_eq(&back, &chain), "{t}: {r:?} is not {chain:?} around {o:?}");
      }
    }
    Err(x) => {
      ensure!(
        ties || at_centre || !geo::is_simple(&chain),
        "{t}: star around {o:?} from {p:?} fails with {x:?}, but the angular order {chain:?} is simple"
      );
      ensure!(!(inside && !ties && !at_centre), "{t}: star around inner point {o:?} from {p:?} fails with {x:?}");
      let real = match x {
        Error::SelfIntersections if at_centre => true,
        Error::SelfIntersections if ties => {
          let (mut near, mut far) = (p.to_vec(), p.to_vec());
          near.sort_by(|a, b| ang(o, *a, *b).then(geo::dist2(o, *a).cmp(&geo::dist2(o, *b))));
          far.sort_by(|a, b| ang(o, *a, *b).then(geo::dist2(o, *b).cmp(&geo::dist2(o, *a))));
          [&chain, &near, &far].iter().any(|z| !geo::is_simple(z))
        }
        Error::SelfIntersections => !geo::is_simple(&chain),
        x => shapes::truthful(x, &chain),
      };
      ensure!(real, "{t}: star around {o:?} from {p:?} fails with {x:?}, a defect the points do not have");
    }
  }
  Ok(())
}
fn centre(s: &mut Src, p: &[P]) -> P {
  if p.is_empty() {
    return [s.sym(3), s.sym(3)];
  }
  let (lo, hi) = geo::bbox(p);
  match s.weighted(&[3, 3, 2, 2, 1]) {
    0 => [s.range(lo[0], hi[0]), s.range(lo[1], hi[1])],
    1 => {
      // average of three points: usually inside
      let q: Vec<P> = (0..3).map(|_| s.pick(p)).collect();
      [0, 1].map(|k| (q[0][k] + q[1][k] + q[2][k]).div_euclid(3))
    }
    2 => {
      let (a, b) = (s.pick(p), s.pick(p));
      [0, 1].map(|k| (a[k] + b[k]).div_euclid(2))
    }
    3 => [s.range(lo[0] - 3, hi[0] + 3), s.range(lo[1] - 3, hi[1] + 3)],
    _ => s.pick(p),
  }
}
fn star<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  let p = gen::points(s, 14, false);
  let o = centre(s, &p);
  // also a list in which every point has its own direction
  let p = if s.chance(1, 3) && !p.contains(&o) {
    let mut seen: Vec<P> = vec![];
    for q in p {
      if !seen.iter().any(|x| ang(o, *x, q) == Ordering::Equal) {
        seen.push(q);
      }
    }
    seen
  } else {
    p
  };
  let mut all = p.clone();
  all.push(o);
  let (lo, hi) = geo::bbox(&all);
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let mut v = pts::<T>(&p, &e);
  shapes::negative_zeros(s, &mut v);
  c.case(&(&p, o, &e, T::NAME), || format!("{} star around {:?} from {v:?}", T::NAME, pt::<T>(o, &e)));
  c.class(T::NAME);
  build(c, &p, o, v, &e)
}
fn types(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    star::<i64>,
    star::<i8>,
    star::<f64>,
    star::<i16>,
    star::<i32>,
    star::<isize>,
    star::<f32>,
    star::<OrderedFloat<f64>>,
    star::<OrderedFloat<f32>>,
    star::<NotNan<f64>>,
    star::<NotNan<f32>>,
    star::<BigInt>,
    star::<BigRational>,
    star::<rug::Integer>,
  ];
  f[s.weighted(&[6, 4, 6, 4, 4, 4, 4, 2, 2, 2, 2, 2, 1, 2])](s, c)
}
/// Every list of up to four points (five, six: spread sample) on the 3x3 grid, centres on
/// the grid of half steps around it.
fn grid(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let mut k = 0;
  let mut total = 1u64;
  while k < 6 && i >= total {
    i -= total;
    total *= 9;
    k += 1;
  }
  if k == 6 {
    i = i.wrapping_mul(48271) % total;
  }
  let p: Vec<P> = (0..k)
    .map(|_| {
      let d = (i % 9) as i64;
      i /= 9;
      [2 * (d % 3), 2 * (d / 3)]
    })
    .collect();
  c.case(&p, || format!("grid {p:?}, all centres in [-1,5]^2 of one parity class"));
  for x in -1..6i64 {
    for y in -1..6i64 {
      if (x + 2 * y).rem_euclid(4) == (p.iter().map(|q| q[0] / 2 + q[1]).sum::<i64>()).rem_euclid(4) || k <= 4 {
        build::<i64>(c, &p, [x, y], pts(&p, &Emb::ID), &Emb::ID)?;
      }
    }
  }
  Ok(())
}
fn large(s: &mut Src, c: &mut Ctx) -> R {
  let p = gen::points(s, 120, false);
  let o = centre(s, &p);
  c.case(&(&p, o), || format!("large, star around {o:?} from {p:?}"));
  build::<i64>(c, &p, o, pts(&p, &Emb::ID), &Emb::ID)
}

/// Hundreds of points.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let mut e = s.expand();
  let mut p = if s.chance(1, 3) {
    gen::convex(&mut e, 400, 1_000_000)
  } else {
    gen::points(&mut e, 500, false)
  };
  let o = centre(s, &p);
  if s.chance(2, 3) {
    // one point per direction
    p.retain(|q| *q != o);
    p.sort_by(|a, b| ang(o, *a, *b));
    p.dedup_by(|a, b| ang(o, *a, *b) == Ordering::Equal);
    e.shuffle(&mut p);
  }
  c.case(&(&p, o), || format!("huge, star around {o:?} from {p:?}"));
  build::<i64>(c, &p, o, pts(&p, &Emb::ID), &Emb::ID)
}

/// Thousands to tens of thousands of vertices.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let n = giant::size(s, 2100) as i64;
  let mut p: Vec<P> = (0..n).map(|i| [i, i * i]).collect();
  let k = s.usize(1, n as usize - 2) as i64;
  let o = [k, k * k + 1 + s.below(3) as i64];
  s.expand().shuffle(&mut p);
  c.case(&(n, o, p[0]), || format!("giant, star around {o:?} from the {n} points of a parabola"));
  build::<i64>(c, &p, o, pts(&p, &Emb::ID), &Emb::ID)
}

/// Coordinates of every kind one type has, against the same in rationals.
fn raw(s: &mut Src, c: &mut Ctx) -> R {
  native::raw(s, c, &["star"], 0)
}

static SPEC: Spec = Spec {
  id: "C18",
  rule: "Point lists (grids, few lines, few distinct coordinates, repeats, convex position; also with one point per direction) and centres in the box, between points, outside, or at a point; exactly embedded in 14 scalar types up to their extremes, with negative zeros; every list of up to four points (more: a spread sample; all up to six in the thorough tier) on the 3x3 grid with centres on the half-step grid around it; up to 120, and hundreds of, points. Up to 2100 points. Small lists with coordinates of every kind one type has (full range, neighbouring values, mixed magnitudes, exact and nudged continuations of lines), against the same in rationals. Non-trivial: four points not on one line and a centre strictly inside their hull or points in the same direction.",
  assumptions: &["the order of points in the same direction is not specified", "a point at the centre has no direction; only soundness is required then"],
  parts: &[
    Part { name: "raw", quick: 20_000, thorough: 1_000_000, len: 300, run: raw },
    Part { name: "star", quick: 750_000, thorough: 8_000_000, len: 80, run: types },
    Part { name: "grid", quick: 60_000, thorough: 597_871, len: 0, run: grid },
    Part { name: "large", quick: 18_000, thorough: 300_000, len: 400, run: large },
    Part { name: "huge", quick: 3_000, thorough: 20_000, len: 24, run: huge },
    Part { name: "giant", quick: 20, thorough: 400, len: 24, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
