//! C25: results do not depend on the coordinate representation.
use num::{BigInt, BigRational};
use ordered_float::{NotNan, OrderedFloat};
use vharness::native::{native, Native, Profile};
use vharness::*;

/// One abstract input: points, direction, centre, probes and a random stream.
struct Input {
  p: Vec<P>,
  dir: P,
  centre: P,
  probes: Vec<P>,
  rng: Rg,
  /// `p` is a simple counter-clockwise polygon
  simple: bool,
  store: u64,
}
fn profile<T: Sc>(i: &Input, e: &Emb) -> Result<Profile, String> {
  native(&Native {
    p: pts::<T>(&i.p, e),
    dir: vec2::<T>(i.dir, e),
    centre: pt::<T>(i.centre, e),
    probes: pts::<T>(&i.probes, e),
    rng: i.rng.clone(),
    polygon: i.simple.then(|| shapes::polygon::<T>(&i.p, e, i.store)),
  }, &[])
}
fn one<T: Sc>(s: &mut Src, c: &mut Ctx, i: &Input, boxed: (P, P)) -> Result<Option<(String, Profile)>, String> {
  if !vec_fits::<T>(i.dir) {
    return Ok(None);
  }
  let Some(e) = emb::<T>(s, boxed.0, boxed.1) else { return Ok(None) };
  c.class(T::NAME);
  c.class_if(e.mul != 1, "scaled");
  c.class_if(e.exp != 0 || e.den != 1, "fractional-or-exponent");
  c.note(|| format!("{} {e:?}", T::NAME));
  let p = profile::<T>(i, &e).map_err(|m| format!("{} {e:?}: {m}", T::NAME))?;
  Ok(Some((format!("{} {e:?}", T::NAME), p)))
}
type One = fn(&mut Src, &mut Ctx, &Input, (P, P)) -> Result<Option<(String, Profile)>, String>;
const ALL: [One; 14] = [
  one::<i64>,
  one::<i8>,
  one::<f64>,
  one::<i16>,
  one::<i32>,
  one::<isize>,
  one::<f32>,
  one::<OrderedFloat<f64>>,
  one::<OrderedFloat<f32>>,
  one::<NotNan<f64>>,
  one::<NotNan<f32>>,
  one::<BigInt>,
  one::<BigRational>,
  one::<rug::Integer>,
];

fn compare(s: &mut Src, c: &mut Ctx, i: &Input, runs: usize) -> R {
  let mut all = i.p.clone();
  all.extend(&i.probes);
  all.push(i.centre);
  let boxed = geo::bbox(&all);
  let base = profile::<i64>(i, &Emb::ID).map_err(|m| format!("i64: {m}"))?;
  let mut done = 0;
  for _ in 0..runs {
    let Some((name, got)) = ALL[s.weighted(&[4, 4, 4, 3, 3, 3, 4, 2, 2, 2, 2, 2, 1, 2])](s, c, i, boxed)? else { continue };
    ensure_eq!(got.len(), base.len(), "{name}: number of answers");
    for (g, b) in got.iter().zip(&base) {
      ensure!(
        g == b,
        "{}: {name} says {} but i64 says {}; points {:?} direction {:?} centre {:?} probes {:?}",
        b.0, g.1, b.1, i.p, i.dir, i.centre, i.probes
      );
    }
    done += 1;
  }
  c.nontrivial_if(i.p.len() >= 4 && !geo::all_colinear(&i.p) && done > 0);
  Ok(())
}

fn input(s: &mut Src, big: bool) -> Input {
  let simple = s.chance(3, 5);
  let huge = big && s.chance(1, 10);
  let p = match (simple, big) {
    (true, _) if huge => gen::huge_polygon(s, 300, 1000),
    (true, false) => gen::simple_polygon(s, 11, 12),
    (true, true) => gen::simple_polygon(s, 60, 1000),
    (false, b) => {
      let distinct = s.flip();
      gen::points(s, if b { 60 } else { 10 }, distinct)
    }
  };
  let (lo, hi) = if p.is_empty() { ([-2, -2], [2, 2]) } else { geo::bbox(&p) };
  let dir = match s.weighted(&[2, 1, 1]) {
    0 => [s.sym(4), s.sym(4)],
    1 if p.len() >= 2 => {
      let (a, b) = (s.pick(&p), s.pick(&p));
      [(b[0] - a[0]).clamp(-100, 100), (b[1] - a[1]).clamp(-100, 100)]
    }
    _ => s.pick(&[[1, 0], [0, 1], [-1, 0], [0, -1]]),
  };
  let dir = if dir == [0, 0] { [1, 0] } else { dir };
  let centre = [s.range(lo[0], hi[0]), s.range(lo[1], hi[1])];
  let k = s.usize(1, 4);
  let probes = (0..k).map(|_| if p.len() >= 3 { gen::query_point(s, &p) } else { [s.sym(3), s.sym(3)] }).collect();
  Input { p, dir, centre, probes, rng: Rg::gen(s), simple, store: shapes::store(s) }
}
fn small(s: &mut Src, c: &mut Ctx) -> R {
  let i = input(s, false);
  let salt = s.raw64();
  c.case(&(&i.p, i.dir, i.centre, &i.probes, i.store, salt), || {
    format!("points {:?} direction {:?} centre {:?} probes {:?} storage {}", i.p, i.dir, i.centre, i.probes, i.store)
  });
  c.class_if(i.simple, "simple-polygon");
  c.class_if(geo::has_dup(&i.p), "repeated-points");
  compare(s, c, &i, 3)
}
fn large(s: &mut Src, c: &mut Ctx) -> R {
  let i = input(s, true);
  c.case(&(&i.p, i.dir, i.centre, &i.probes, i.store), || {
    format!("large: points {:?} direction {:?} centre {:?} probes {:?} storage {}", i.p, i.dir, i.centre, i.probes, i.store)
  });
  compare(s, c, &i, 2)
}

/// Coordinates of every kind one type has, against the same in rationals.
fn raw(s: &mut Src, c: &mut Ctx) -> R {
  native::raw(s, c, &[], 1)
}

static SPEC: Spec = Spec {
  id: "C25",
  rule: "Point lists and simple polygons (degenerate grids, few lines, repeats, untangled, spiral, colinear runs, permuted storage) with a direction, a centre, probes and a random stream, run through every algorithm as i64 and in up to three other types, translated and scaled exactly to places including both extremes of the type; the complete outcomes (errors, vertex cycles, point ids, classifications, triangles, random draws) are compared. Also up to nine points with coordinates of every kind one type has (full range, neighbouring values, mixed magnitudes, exact and nudged continuations of lines), half of them put in the order of a simple polygon, against the same in rationals. Non-trivial: at least four points not on one line compared in at least one other representation.",
  assumptions: &["the order in which edge intersections are enumerated is compared as a set", "directions are never scaled to the point where they leave the type"],
  parts: &[
    Part { name: "small", quick: 56_000, thorough: 2_500_000, len: 160, run: small },
    Part { name: "raw", quick: 9_000, thorough: 1_500_000, len: 300, run: raw },
    Part { name: "large", quick: 1_100, thorough: 40_000, len: 500, run: large },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
