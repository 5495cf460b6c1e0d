//! C16: 2-opt polygonization always yields a simple polygon on the same points.
use num::{BigInt, BigRational};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::polygonization::{resolve_self_intersections, two_opt_moves};
use rgeometry::data::*;
use rgeometry::Error;
use vharness::*;

fn sorted(p: &[P]) -> Vec<P> {
  let mut v = p.to_vec();
  v.sort();
  v
}
fn classes(p: &[P], c: &mut Ctx) {
  let n = p.len();
  c.class_if(geo::has_dup(p), "repeated-points");
  c.class_if(!geo::has_dup(p) && geo::all_colinear(p), "all-on-one-line");
  if n >= 3 && !geo::has_dup(p) && !geo::all_colinear(p) {
    let simple = geo::is_simple(p);
    c.class_if(simple, "already-simple");
    c.nontrivial_if(!simple);
    c.class_if((0..n).any(|i| (0..i).any(|j| overlap(p, i, j))), "overlapping-edges");
  }
}
fn overlap(p: &[P], i: usize, j: usize) -> bool {
  let n = p.len();
  let (a, b, c, d) = (p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]);
  geo::orient(a, b, c) == 0 && geo::orient(a, b, d) == 0 && geo::segs_touch(a, b, c, d)
}
fn defect(x: Error, p: &[P]) -> bool {
  match x {
    Error::DuplicatePoints => geo::has_dup(p),
    Error::InsufficientVertices | Error::CoLinearViolation => geo::all_colinear(p) || sorted(p).len() < 3,
    Error::SelfIntersections => geo::all_colinear(p) || geo::has_dup(p),
    _ => false,
  }
}
fn judge<T: Sc>(name: &str, p: &[P], r: Result<Vec<P>, Error>, valid: Result<(), Error>) -> R {
  let t = T::NAME;
  let bad = p.len() < 3 || geo::has_dup(p) || geo::all_colinear(p);
  match r {
    Ok(q) => {
      ensure!(!bad, "{t}: {name} of {p:?} succeeds with {q:?}");
      ensure_eq!(sorted(&q), sorted(p), "{t}: vertices of {name} of {p:?}");
      ensure!(geo::is_simple(&q), "{t}: {name} of {p:?} is not simple: {q:?}");
      ensure!(geo::area2(&q) > 0, "{t}: {name} of {p:?} is clockwise: {q:?}");
      ensure_eq!(valid, Ok(()), "{t}: validate of {name} of {p:?}");
    }
    Err(x) => {
      ensure!(bad, "{t}: {name} of {p:?} fails with {x:?}");
      ensure!(defect(x, p), "{t}: {name} of {p:?} fails with {x:?}, a defect the points do not have");
    }
  }
  Ok(())
}
/// An internally consistent polygon: every id at the position the cursor says.
fn consistent<T: Sc>(name: &str, poly: &Polygon<T>) -> R {
  let ids = poly.boundary_slice();
  for (i, id) in ids.iter().enumerate() {
    let cur = poly.cursor(*id);
    ensure!(cur.point_id() == *id, "{}: {name}: cursor of {id:?} is at {:?}", T::NAME, cur.point_id());
    ensure!(cur.next().point_id() == ids[(i + 1) % ids.len()], "{}: {name}: successor of {id:?}", T::NAME);
  }
  Ok(())
}
fn build<T: Sc>(p: &[P], v: Vec<Point<T>>, e: &Emb, rng: &mut Rg) -> R {
  let r = two_opt_moves(v, rng);
  let mut valid = Ok(());
  let r = match r {
    Ok(q) => {
      valid = q.validate();
      consistent("two_opt_moves", &q)?;
      Ok(ring(&q, e)?)
    }
    Err(x) => Err(x),
  };
  judge::<T>("two_opt_moves", p, r, valid)
}
fn resolve<T: Sc>(p: &[P], mut poly: Polygon<T>, e: &Emb, rng: &mut Rg) -> R {
  if p.is_empty() || geo::has_dup(p) {
    return Ok(());
  }
  let before: Vec<Point<T>> = poly.iter().cloned().collect();
  let r = match resolve_self_intersections(&mut poly, rng) {
    Ok(()) => {
      consistent("resolve_self_intersections", &poly)?;
      Ok(ring(&poly, e)?)
    }
    Err(x) => Err(x),
  };
  let ok = r.is_ok();
  judge::<T>("resolve_self_intersections", p, r, if ok { poly.validate() } else { Ok(()) })?;
  // ids keep their points
  let after: Vec<Point<T>> = poly.iter().cloned().collect();
  ensure!(before == after, "{}: resolve_self_intersections of {p:?} changes the point of an id", T::NAME);
  Ok(())
}
fn input(s: &mut Src, nmax: usize) -> Vec<P> {
  match s.weighted(&[6, 3, 3, 1]) {
    0 => gen::points(s, nmax, true),
    // few lines and few distinct coordinates: many overlapping edges
    1 => {
      let (w, h) = (s.range(1, 4), s.range(0, 4));
      let n = s.usize(3, nmax);
      let mut v = vec![];
      for _ in 0..n {
        let q = [s.range(0, w), s.range(0, h)];
        if !v.contains(&q) {
          v.push(q);
        }
      }
      v
    }
    // a line with one or two points off it
    2 => {
      let n = s.usize(2, nmax - 2);
      let d = s.pick(&[[1i64, 0], [0, 1], [1, 1], [2, 1], [-1, 2], [3, -1]]);
      let mut v: Vec<P> = (0..n as i64).map(|i| [d[0] * i, d[1] * i]).collect();
      for _ in 0..s.usize(1, 2) {
        let q = [s.sym(6), s.sym(6)];
        if !v.contains(&q) {
          v.push(q);
        }
      }
      s.shuffle(&mut v);
      v
    }
    _ => gen::points(s, nmax, false),
  }
}
fn chain<T: Sc>(s: &mut Src, p: &[P], v: &[Point<T>]) -> (Vec<P>, Polygon<T>) {
  // the same chain in another storage order: build a donor polygon and overwrite its points
  let n = p.len();
  if n < 3 || s.flip() {
    return (p.to_vec(), Polygon::new_unchecked(v.to_vec()));
  }
  let id: Emb = Emb::ID;
  let cyc: Vec<P> = (0..n as i64).map(|i| [i, i * i]).collect();
  let st = shapes::store(s);
  let donor = shapes::polygon::<i64>(&cyc, &id, st);
  let mut slot: Vec<usize> = vec![];
  for q in donor.iter() {
    slot.push(q.array[0] as usize);
  }
  let first = v[0].array[0].clone();
  let mut poly: Polygon<T> = donor.map(|_| first.clone());
  for (i, q) in poly.iter_mut().enumerate() {
    *q = v[slot[i]].clone();
  }
  (p.to_vec(), poly)
}
fn random<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  let p = input(s, 13);
  let (lo, hi) = if p.is_empty() { ([0, 0], [0, 0]) } else { geo::bbox(&p) };
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let mut v = pts::<T>(&p, &e);
  shapes::negative_zeros(s, &mut v);
  let mut rng = Rg::gen(s).limit(2_000_000);
  c.case(&(&p, &e, T::NAME), || format!("{} {v:?}", T::NAME));
  c.class(T::NAME);
  classes(&p, c);
  {
    // termination, counted in scalar operations
    let (r, _) = budget(shapes::ops(p.len(), 4), || build::<Cnt>(&p, pts(&p, &Emb::ID), &Emb::ID, &mut rng.clone()));
    r?;
  }
  build(&p, v.clone(), &e, &mut rng)?;
  let (p, poly) = chain(s, &p, &v);
  resolve(&p, poly, &e, &mut rng)
}
fn types(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    random::<i64>,
    random::<i8>,
    random::<f64>,
    random::<i16>,
    random::<i32>,
    random::<isize>,
    random::<f32>,
    random::<OrderedFloat<f64>>,
    random::<OrderedFloat<f32>>,
    random::<NotNan<f64>>,
    random::<NotNan<f32>>,
    random::<BigInt>,
    random::<BigRational>,
    random::<rug::Integer>,
  ];
  f[s.weighted(&[6, 4, 6, 4, 4, 4, 4, 2, 2, 2, 2, 2, 1, 2])](s, c)
}
/// Every list of up to six points on the 3x3 grid, with a random source of its own.
fn grid(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let seed = i;
  let mut k = 0;
  let mut total = 1u64;
  while k < 6 && i >= total {
    i -= total;
    total *= 9;
    k += 1;
  }
  let p: Vec<P> = (0..k)
    .map(|_| {
      let d = (i % 9) as i64;
      i /= 9;
      [d % 3, d / 3]
    })
    .collect();
  c.case(&p, || format!("grid {p:?}"));
  classes(&p, c);
  let mut rng = Rg::seeded(seed).limit(1_000_000);
  let (r, _) = budget(shapes::ops(k, 4), || {
    build::<Cnt>(&p, pts(&p, &Emb::ID), &Emb::ID, &mut rng)?;
    if p.is_empty() {
      return Ok(());
    }
    resolve::<Cnt>(&p, Polygon::new_unchecked(pts(&p, &Emb::ID)), &Emb::ID, &mut rng)
  });
  r
}
/// Larger dense grids: long overlapping runs.
fn dense(s: &mut Src, c: &mut Ctx) -> R {
  let (w, h) = (s.range(2, 7), s.range(1, 5));
  let mut all: Vec<P> = (0..w * h).map(|i| [i % w, i / w]).collect();
  let k = s.range(0, 3);
  all.iter_mut().for_each(|q| q[0] += k * q[1]);
  s.shuffle(&mut all);
  let n = s.usize(1, all.len().min(24));
  all.truncate(n);
  let mut rng = Rg::gen(s).limit(2_000_000);
  c.case(&all, || format!("dense {all:?}"));
  classes(&all, c);
  let (r, _) = budget(shapes::ops(n, 4), || build::<Cnt>(&all, pts(&all, &Emb::ID), &Emb::ID, &mut rng));
  r
}
fn large(s: &mut Src, c: &mut Ctx) -> R {
  let p = gen::points(s, 45, true);
  let mut rng = Rg::gen(s).limit(20_000_000);
  c.case(&p, || format!("large {p:?}"));
  classes(&p, c);
  build::<i64>(&p, pts(&p, &Emb::ID), &Emb::ID, &mut rng)
}

/// Long chains.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let p = gen::points(&mut s.expand(), 160, true);
  let mut rng = Rg::gen(s).limit(200_000_000);
  c.case(&p, || format!("huge {p:?}"));
  classes(&p, c);
  build::<i64>(&p, pts(&p, &Emb::ID), &Emb::ID, &mut rng)
}

/// Hundreds to a thousand vertices, nearly in order: few crossings, long stretches to turn around.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let (mut p, text) = giant::polygon(s, 1030);
  let n = p.len();
  let k = s.usize(1, 3);
  let mut e = s.expand();
  for _ in 0..k {
    let i = e.below(n);
    let len = if e.flip() { e.usize(2, 4) } else { e.usize(n / 3, n / 2) };
    for j in 0..len / 2 {
      p.swap((i + j) % n, (i + len - 1 - j) % n);
    }
  }
  let mut rng = Rg::gen(s).limit(200_000_000);
  c.case(&p, || format!("untangle the {text} with {k} stretches turned around"));
  classes(&p, c);
  build::<i64>(&p, pts(&p, &Emb::ID), &Emb::ID, &mut rng)
}

/// Hundreds of points in no order at all: thousands of moves.
fn scatter(s: &mut Src, c: &mut Ctx) -> R {
  let n = s.usize(200, 1600);
  let (w, h) = (1i64 << s.usize(3, 20), 1i64 << s.usize(0, 20));
  let n = n.min((w * h / 2 + 2) as usize).max(5);
  let mut e = s.expand();
  let mut p: Vec<P> = Vec::with_capacity(n);
  for _ in 0..n {
    p.push([e.below(w as usize) as i64, e.below(h as usize) as i64]);
  }
  p.push([0, h]);
  p.push([w, 0]);
  p.sort();
  p.dedup();
  for i in (1..p.len()).rev() {
    p.swap(i, e.below(i + 1));
  }
  let mut rng = Rg::gen(s).limit(200_000_000);
  c.case(&p, || format!("untangle {} points scattered over {w} by {h}", p.len()));
  classes(&p, c);
  build::<i64>(&p, pts(&p, &Emb::ID), &Emb::ID, &mut rng)
}

/// Coordinates of every kind one type has, against the same in rationals.
fn raw(s: &mut Src, c: &mut Ctx) -> R {
  native::raw(s, c, &["two_opt"], 0)
}

static SPEC: Spec = Spec {
  id: "C16",
  rule: "Point lists without repeats (grids, few lines, few distinct coordinates, a line plus one or two points, convex position, near-lines), lists with repeats, in any order, exactly embedded in 14 scalar types up to their extremes, with negative zeros; random sources with adversarial prefixes and seeded streams; closed chains in any internal storage order resolved in place; every list of up to six points on the 3x3 grid; dense sheared grids of up to 24 points; up to 45, and up to 160, points. Termination is decided with an operation-counting scalar and a bound on random draws. Up to 1030 points with a few stretches of a simple polygon turned around; up to 1600 points scattered over strips and squares and in no order. Small lists with coordinates of every kind one type has (full range, neighbouring values, mixed magnitudes, exact and nudged continuations of lines), against the same in rationals. Non-trivial: distinct, not all on one line, and the chain as given is not simple.",
  assumptions: &[
    "the brute-force all-pairs edge test over exact 128-bit integers is the simplicity oracle",
    "non-termination is decided by a budget of 2000*(n+8)^4 + 10^6 scalar operations, or 2*10^6 draws",
  ],
  parts: &[
    Part { name: "raw", quick: 20_000, thorough: 1_000_000, len: 300, run: raw },
    Part { name: "types", quick: 260_000, thorough: 6_000_000, len: 120, run: types },
    Part { name: "grid", quick: 597_871, thorough: 597_871, len: 0, run: grid },
    Part { name: "dense", quick: 190_000, thorough: 4_000_000, len: 120, run: dense },
    Part { name: "large", quick: 13_000, thorough: 300_000, len: 300, run: large },
    Part { name: "huge", quick: 1_500, thorough: 3_000, len: 12, run: huge },
    Part { name: "giant", quick: 24, thorough: 400, len: 30, run: giant },
    Part { name: "scatter", quick: 32, thorough: 400, len: 30, run: scatter },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
