//! C13: point-set convex hulls are exact and the algorithms agree.
use num::{BigInt, BigRational};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::convex_hull as alg;
use rgeometry::data::*;
use rgeometry::Error;
use shapes::truthful;
use vharness::*;

type F<T> = fn(Vec<Point<T>>) -> Result<PolygonConvex<T>, Error>;

fn judge<T: Sc>(name: &str, r: Result<PolygonConvex<T>, Error>, p: &[P], want: &[P], e: &Emb) -> R {
  let t = T::NAME;
  match r {
    Ok(h) => {
      ensure!(want.len() >= 3, "{t}: {name} returns {:?} for points on one line: {p:?}", ring(&h, e)?);
      let got = ring(&h, e)?;
      ensure!(geo::cyc_eq(&got, want), "{t}: {name} of {p:?} is {got:?}, expected {want:?}");
      ensure_eq!(h.validate(), Ok(()), "{t}: validate of the {name} hull of {p:?}");
    }
    Err(x) => {
      ensure!(want.len() < 3, "{t}: {name} fails with {x:?} on {p:?}, whose hull is {want:?}");
      // every three of the points are on one line
      let defect = truthful(x, p) || matches!(x, Error::InsufficientVertices | Error::CoLinearViolation);
      ensure!(defect, "{t}: {name} fails with {x:?}, a defect the points do not have: {p:?}");
    }
  }
  Ok(())
}
fn input(s: &mut Src, nmax: usize) -> Vec<P> {
  let mut p = if s.chance(1, 5) {
    let m = s.pick(&[2i64, 5, 30, 1000]);
    gen::simple_polygon(s, nmax, m)
  } else {
    gen::points(s, nmax, false)
  };
  if !p.is_empty() && s.chance(1, 3) {
    // repeats of extreme points, in any position
    let key = s.below(4);
    for _ in 0..s.usize(1, 3) {
      let q = *match key {
        0 => p.iter().min_by_key(|q| (q[1], q[0])),
        1 => p.iter().max_by_key(|q| (q[1], q[0])),
        2 => p.iter().min(),
        _ => p.iter().max(),
      }
      .unwrap();
      let i = s.below(p.len() + 1);
      p.insert(i, q);
    }
  }
  p
}
fn classes(p: &[P], h: &[P], c: &mut Ctx) {
  let n = p.len();
  c.class_if(h.len() < 3, "all-on-one-line");
  c.class_if(geo::has_dup(p), "repeated-points");
  c.class_if(h.iter().any(|v| p.iter().filter(|q| *q == v).count() > 1), "repeated-hull-vertex");
  let k = h.len();
  c.class_if(
    k >= 3 && p.iter().any(|q| !h.contains(q) && (0..k).any(|i| geo::on_seg(h[i], h[(i + 1) % k], *q))),
    "point-inside-a-hull-edge",
  );
  c.nontrivial_if(n >= 4);
}
const ALGS: [&str; 3] = ["graham_scan", "gift_wrapping", "convex_hull"];
fn fns<T: Sc>() -> [F<T>; 3] {
  [alg::graham_scan::convex_hull::<T>, alg::gift_wrapping::convex_hull::<T>, rgeometry::algorithms::convex_hull::<T>]
}
/// Termination within a generous number of scalar operations.
fn terminates(p: &[P], want: &[P]) -> R {
  for (name, f) in ALGS.iter().zip(fns::<Cnt>()).take(2) {
    let v = pts::<Cnt>(p, &Emb::ID);
    let (r, _) = budget(shapes::ops(p.len(), 2), || f(v));
    judge(name, r, p, want, &Emb::ID)?;
  }
  Ok(())
}
fn random<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  let p = input(s, 24);
  let want = geo::hull(&p);
  let (lo, hi) = if p.is_empty() { ([0, 0], [0, 0]) } else { geo::bbox(&p) };
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let mut v = pts::<T>(&p, &e);
  shapes::negative_zeros(s, &mut v);
  c.case(&(&p, &e, T::NAME), || format!("{} {v:?}", T::NAME));
  c.class(T::NAME);
  classes(&p, &want, c);
  terminates(&p, &want)?;
  for (name, f) in ALGS.iter().zip(fns::<T>()) {
    judge(name, f(v.clone()), &p, &want, &e)?;
  }
  // any other order
  s.shuffle(&mut v);
  for (name, f) in ALGS.iter().zip(fns::<T>()).take(2) {
    judge(name, f(v.clone()), &p, &want, &e)?;
  }
  Ok(())
}
fn types(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    random::<i64>,
    random::<i8>,
    random::<f64>,
    random::<i16>,
    random::<i32>,
    random::<isize>,
    random::<f32>,
    random::<OrderedFloat<f64>>,
    random::<OrderedFloat<f32>>,
    random::<NotNan<f64>>,
    random::<NotNan<f32>>,
    random::<BigInt>,
    random::<BigRational>,
    random::<rug::Integer>,
  ];
  f[s.weighted(&[6, 4, 6, 4, 4, 4, 4, 2, 2, 2, 2, 2, 1, 2])](s, c)
}
/// Every list of up to 5 points (a spread sample of 6) on the 3x3 grid.
fn grid(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let mut k = 0;
  let mut total = 1u64;
  while k < 6 && i >= total {
    i -= total;
    total *= 9;
    k += 1;
  }
  if k == 6 {
    i = i.wrapping_mul(48271) % total;
  }
  let p: Vec<P> = (0..k)
    .map(|_| {
      let d = (i % 9) as i64;
      i /= 9;
      [d % 3, d / 3]
    })
    .collect();
  let want = geo::hull(&p);
  c.case(&p, || format!("grid {p:?}"));
  classes(&p, &want, c);
  terminates(&p, &want)
}
fn large(s: &mut Src, c: &mut Ctx) -> R {
  let p = input(s, 250);
  decide(&p, c)
}
/// Hundreds of points and of hull vertices.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[1000i64, 40, 1_000_000]);
  let mut p = match s.below(4) {
    0 => gen::huge_polygon(s, 600, m),
    1 => gen::convex(&mut s.expand(), 400, m),
    _ => gen::points(&mut s.expand(), 900, false),
  };
  if s.flip() {
    s.expand().shuffle(&mut p);
  }
  decide(&p, c)
}
fn decide(p: &[P], c: &mut Ctx) -> R {
  let p = p.to_vec();
  let want = geo::hull(&p);
  c.case(&p, || format!("large {p:?}"));
  classes(&p, &want, c);
  terminates(&p, &want)?;
  for (name, f) in ALGS.iter().zip(fns::<i64>()).take(2) {
    judge(name, f(pts(&p, &Emb::ID)), &p, &want, &Emb::ID)?;
  }
  Ok(())
}

/// Thousands to tens of thousands of vertices.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let (mut p, text) = giant::polygon(s, 70_000);
  let mut e = s.expand();
  if s.flip() {
    for _ in 0..e.usize(1, 50) {
      let q = e.pick(&p);
      p.push(q);
    }
    e.shuffle(&mut p);
  }
  let want = geo::hull(&p);
  c.case(&(&text, p.len(), p[0]), || format!("hull of {} points, the {text}", p.len()));
  c.nontrivial();
  for (name, f) in ALGS.iter().zip(fns::<i64>()).take(2) {
    if name.contains("gift") && want.len() * p.len() > 10_000_000 {
      continue;
    }
    c.class(name);
    match f(pts(&p, &Emb::ID)) {
      Ok(h) => ensure!(geo::cyc_eq(&ring(&h, &Emb::ID)?, &want), "{name} hull of {} points, the {text}", p.len()),
      Err(x) => return Err(format!("{name} fails with {x:?} on {} points, the {text}", p.len())),
    }
  }
  Ok(())
}

/// Coordinates of every kind one type has, against the same in rationals.
fn raw(s: &mut Src, c: &mut Ctx) -> R {
  native::raw(s, c, &["graham", "gift"], 0)
}

static SPEC: Spec = Spec {
  id: "C13",
  rule: "Point lists: grids, boxes, runs on few lines, few distinct coordinates, convex position, repeats of a small base, near-lines, polygon vertex sets, with planted repeats of extreme points, in generated and shuffled order; exactly embedded in 14 scalar types up to their extremes, with negative zeros; every list of up to five points (six: a spread sample; all in the thorough tier) on the 3x3 grid; lists of up to 250 and of hundreds of points. Termination is decided with an operation-counting scalar. Lists of up to 70,000 points. Small lists with coordinates of every kind one type has (full range, neighbouring values, mixed magnitudes, exact and nudged continuations of lines), against the same in rationals. Non-trivial: at least four points.",
  assumptions: &["monotone-chain hull over exact 128-bit integers is the reference", "non-termination is decided by a budget of 2000*(n+8)^2 + 10^6 scalar operations"],
  parts: &[
    Part { name: "raw", quick: 20_000, thorough: 1_000_000, len: 300, run: raw },
    Part { name: "types", quick: 130_000, thorough: 6_000_000, len: 120, run: types },
    Part { name: "grid", quick: 220_000, thorough: 597_871, len: 0, run: grid },
    Part { name: "large", quick: 7_500, thorough: 200_000, len: 800, run: large },
    Part { name: "huge", quick: 1_500, thorough: 20_000, len: 24, run: huge },
    Part { name: "giant", quick: 120, thorough: 3000, len: 24, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
