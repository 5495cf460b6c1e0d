//! C09: polygon construction accepts exactly the simple polygons.
use num::{BigInt, BigRational};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::*;
use rgeometry::Error;
use shapes::truthful;
use vharness::*;

fn check<T: Sc>(p: &[P], v: Vec<Point<T>>, e: &Emb, c: &mut Ctx) -> R {
  let t = T::NAME;
  let n = p.len();
  let simple = geo::is_simple(p);
  let area = geo::area2(p);
  let dup = geo::has_dup(p);
  c.class_if(simple, "simple");
  c.class_if(simple && area < 0, "clockwise");
  c.class_if(dup, "repeated-vertex");
  c.class_if(!simple && !dup && n >= 3, "self-intersecting");
  match Polygon::new(v.clone()) {
    Ok(q) => {
      ensure!(simple, "{t}: accepted, but not a simple polygon: {p:?}");
      let got = ring(&q, e)?;
      let mut want = p.to_vec();
      if area < 0 {
        want.reverse();
      }
      ensure!(geo::cyc_eq(&got, &want), "{t}: boundary {got:?} of the polygon built from {p:?}, expected {want:?}");
      ensure_eq!(q.validate(), Ok(()), "{t}: validate of the polygon built from {p:?}");
      ensure_eq!(q.validate_weakly(), Ok(()), "{t}: validate_weakly of the polygon built from {p:?}");
      let conv = geo::is_strictly_convex_ccw(&want);
      c.class_if(conv, "strictly-convex");
      let r = PolygonConvex::new_unchecked(q).validate();
      ensure_eq!(r.is_ok(), conv, "{t}: convex validation of {want:?} ({r:?})");
    }
    Err(x) => {
      ensure!(!simple, "{t}: rejected with {x:?}, but it is a simple polygon: {p:?}");
      ensure!(truthful(x, p), "{t}: rejected with {x:?}, a defect the list does not have: {p:?}");
    }
  }
  if n > 0 {
    let q = Polygon::new_unchecked(v);
    let w = simple && area > 0;
    for (name, r) in [("validate", q.validate()), ("validate_weakly", q.validate_weakly())] {
      if name == "validate" || !dup {
        ensure_eq!(r.is_ok(), w, "{t}: {name} ({r:?}) of the vertices {p:?}");
      }
      if let Err(x) = r {
        ensure!(truthful(x, p), "{t}: {name} reports {x:?}, a defect the list does not have: {p:?}");
      } else {
        // accepted by the weak validation: simple once consecutive repeats are dropped
        let mut d = p.to_vec();
        d.dedup();
        while d.len() > 1 && d.first() == d.last() {
          d.pop();
        }
        ensure!(geo::is_simple(&d) && geo::area2(&d) > 0, "{t}: {name} accepts {p:?}");
      }
    }
    if n >= 3 {
      let r = PolygonConvex::new_unchecked(q).validate();
      ensure_eq!(r.is_ok(), geo::is_strictly_convex_ccw(p), "{t}: convex validation ({r:?}) of the vertices {p:?}");
      if let Err(x) = r {
        ensure!(truthful(x, p), "{t}: convex validation reports {x:?}, a defect the list does not have: {p:?}");
      }
    }
  }
  Ok(())
}

fn chain(s: &mut Src) -> Vec<P> {
  let m = s.pick(&[2i64, 1, 3, 5, 20, 1000]);
  match s.weighted(&[3, 3, 5]) {
    0 => gen::points(s, 9, false),
    1 => gen::simple_polygon(s, 30, m),
    _ => {
      // a simple polygon with a few edits
      let mut p = gen::simple_polygon(s, 16, m);
      for _ in 0..s.usize(1, 2) {
        let n = p.len();
        let (i, j) = (s.below(n), s.below(n));
        match s.below(7) {
          0 => p.swap(i, j),
          1 => {
            let q = p[j];
            p.insert(i, q)
          }
          2 => {
            // a vertex moved onto another edge
            let (a, b) = (p[j], p[(j + 1) % n]);
            p[i] = [(a[0] + b[0]).div_euclid(2), (a[1] + b[1]).div_euclid(2)];
          }
          3 => {
            // a spike: out and back along an edge direction
            let (a, b) = (p[i], p[(i + 1) % n]);
            p.insert(i + 1, [2 * b[0] - a[0], 2 * b[1] - a[1]]);
          }
          4 => p[i] = [p[i][0] + s.sym(1), p[i][1] + s.sym(1)],
          5 => {
            let k = i.max(j);
            p[i.min(j)..=k].reverse()
          }
          _ => p.reverse(),
        }
      }
      p
    }
  }
}

fn random<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  let p = chain(s);
  let (lo, hi) = if p.is_empty() { ([0, 0], [0, 0]) } else { geo::bbox(&p) };
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let mut v = pts::<T>(&p, &e);
  let nz = shapes::negative_zeros(s, &mut v);
  c.case(&(&p, &e, nz, T::NAME), || format!("{} {v:?}", T::NAME));
  c.class(T::NAME);
  c.nontrivial_if(p.len() >= 4);
  check(&p, v, &e, c)
}
fn types(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    random::<i64>,
    random::<i8>,
    random::<f64>,
    random::<i16>,
    random::<i32>,
    random::<isize>,
    random::<f32>,
    random::<OrderedFloat<f64>>,
    random::<OrderedFloat<f32>>,
    random::<NotNan<f64>>,
    random::<NotNan<f32>>,
    random::<BigInt>,
    random::<BigRational>,
    random::<rug::Integer>,
  ];
  f[s.weighted(&[6, 4, 6, 4, 4, 4, 4, 2, 2, 2, 2, 2, 1, 2])](s, c)
}
/// Every vertex list of length 0..=6 over the 3x3 grid (a spread sample of length 6 in the
/// quick tier).
fn grid(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let mut k = 0;
  let mut total = 1u64;
  while k < 6 && i >= total {
    i -= total;
    total *= 9;
    k += 1;
  }
  if k == 6 {
    i = i.wrapping_mul(48271) % total;
  }
  let p: Vec<P> = (0..k)
    .map(|_| {
      let d = (i % 9) as i64;
      i /= 9;
      [d % 3, d / 3]
    })
    .collect();
  c.case(&p, || format!("grid {p:?}"));
  c.nontrivial_if(k >= 4);
  check::<i64>(&p, pts(&p, &Emb::ID), &Emb::ID, c)
}
/// Large chains: a far-apart pair of edges conflicts in one place only.
fn large(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[40i64, 1000, 1_000_000]);
  let p = gen::simple_polygon(s, 150, m);
  edited(s, c, p)
}
/// Hundreds of vertices.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[1000i64, 40, 1_000_000]);
  let p = gen::huge_polygon(s, 1000, m);
  edited(s, c, p)
}
fn edited(s: &mut Src, c: &mut Ctx, mut p: Vec<P>) -> R {
  let edit = s.below(4);
  let n = p.len();
  let (i, j) = (s.below(n), s.below(n));
  match edit {
    0 => {}
    1 => {
      let (a, b) = (p[j], p[(j + 1) % n]);
      p[i] = [(a[0] + b[0]).div_euclid(2), (a[1] + b[1]).div_euclid(2)];
    }
    2 => p[i] = p[j],
    _ => p.reverse(),
  }
  c.case(&p, || format!("large {p:?}"));
  c.nontrivial_if(n >= 20);
  check::<i64>(&p, pts(&p, &Emb::ID), &Emb::ID, c)
}

/// Fewer than three points, and empty lists, never panic.
fn tiny(s: &mut Src, c: &mut Ctx) -> R {
  let i = s.raw64() as i64;
  let p: Vec<P> = [[i % 2, 0], [i / 2 % 2, i / 4 % 2]][..(i / 8 % 3) as usize].to_vec();
  c.case(&p, || format!("tiny {p:?}"));
  c.nontrivial();
  let r = Polygon::new(pts::<i64>(&p, &Emb::ID));
  ensure_eq!(r.err(), Some(Error::InsufficientVertices), "Polygon::new({p:?})");
  Ok(())
}

/// Thousands to tens of thousands of vertices.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let (p, text) = giant::polygon(s, 1500);
  for name in ["parabola", "comb", "two chains", "staircase", "saw"] {
    c.class_if(text.starts_with(name), name);
  }
  ensure!(geo::is_simple(&p) && geo::area2(&p) > 0, "the generator made a bad {text}");
  edited(s, c, p)
}

/// Coordinates of every kind one type has, against the same in rationals.
fn raw(s: &mut Src, c: &mut Ctx) -> R {
  native::raw(s, c, &["Polygon::new", "validate", "convex validate"], 1)
}

static SPEC: Spec = Spec {
  id: "C09",
  rule: "Vertex lists: random grid/line/cluster points with repeats, simple polygons from seven families (grown, star, monotone, comb, spiral, zigzag, convex, with subdivided edges), the same after edits (swap, repeat, vertex onto an edge, spike, nudge, sub-range or full reversal), all lists of length up to 5 and a spread sample (all, in the thorough tier) of length 6 over the 3x3 grid, and lists of up to 150 and of hundreds of vertices with one planted conflict or clockwise; exactly embedded in 14 scalar types including their extremes and negative zeros. Up to 1500 vertices. Small lists with coordinates of every kind one type has (full range, neighbouring values, mixed magnitudes, exact and nudged continuations of lines), against the same in rationals. Non-trivial: at least four vertices (large: twenty).",
  assumptions: &["the brute-force all-pairs edge test over exact 128-bit integers is the simplicity oracle"],
  parts: &[
    Part { name: "raw", quick: 20_000, thorough: 1_000_000, len: 300, run: raw },
    Part { name: "types", quick: 390_000, thorough: 6_000_000, len: 160, run: types },
    Part { name: "grid", quick: 220_000, thorough: 597_871, len: 0, run: grid },
    Part { name: "large", quick: 12_000, thorough: 200_000, len: 700, run: large },
    Part { name: "huge", quick: 600, thorough: 10_000, len: 24, run: huge },
    Part { name: "tiny", quick: 24, thorough: 24, len: 0, run: tiny },
    Part { name: "giant", quick: 24, thorough: 600, len: 24, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
