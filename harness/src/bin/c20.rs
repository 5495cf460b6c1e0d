//! C20: random convex polygons are valid and span the documented box.
use num::Bounded;
use rand::distributions::uniform::SampleUniform;
use rand::distributions::{Distribution, Standard};
use rgeometry::data::*;
use vharness::*;

fn check<T: Sc>(q: &PolygonConvex<T>, n: usize, exactly: bool, what: &dyn Fn() -> String) -> R {
  let t = T::NAME;
  let r = ring(q.polygon(), &Emb::ID)?;
  let k = r.len();
  let max = T::RANGE.1 as i64;
  // strictly convex and once around: every turn left, and the turning adds up to one round
  let dirs: Vec<[i128; 2]> = (0..k)
    .map(|i| {
      let (a, b) = (r[i], r[(i + 1) % k]);
      [b[0] as i128 - a[0] as i128, b[1] as i128 - a[1] as i128]
    })
    .collect();
  let sgn = |x: i128| x.signum();
  let left = (0..k).all(|i| {
    // products of 65-bit differences: compare exactly
    let (u, v) = (dirs[i], dirs[(i + 1) % k]);
    sgn(u[0] * v[1] - u[1] * v[0]) > 0
  });
  let wraps = (0..k)
    .filter(|i| {
      let upper = |d: [i128; 2]| d[1] > 0 || (d[1] == 0 && d[0] > 0);
      !upper(dirs[*i]) && upper(dirs[(*i + 1) % k])
    })
    .count();
  ensure!(k >= 3 && left && wraps == 1, "{t}: not a strictly convex counter-clockwise polygon: {r:?} ({})", what());
  ensure!(k <= n.max(3), "{t}: {k} vertices ({})", what());
  if exactly {
    ensure!(k == n.max(3), "{t}: {k} vertices instead of exactly {} ({})", n.max(3), what());
  }
  let (lo, hi) = geo::bbox(&r);
  ensure!(r.contains(&[0, 0]), "{t}: the origin is no vertex of {r:?} ({})", what());
  ensure!(lo[1] == 0, "{t}: vertex below the origin in {r:?} ({})", what());
  for a in 0..2 {
    let w = hi[a] as i128 - lo[a] as i128;
    ensure!(w == max as i128, "{t}: extent {w} instead of {max} on axis {a}: {r:?} ({})", what());
  }
  if k < 3000 {
    // quadratic
    ensure_eq!(q.validate(), Ok(()), "{t}: validate of {r:?} ({})", what());
  }
  Ok(())
}
fn size(s: &mut Src) -> usize {
  match s.weighted(&[5, 4, 3, 1, 1]) {
    0 => s.usize(3, 12),
    1 => s.usize(13, 60),
    2 => s.usize(61, 200),
    3 => s.usize(0, 3),
    _ => s.usize(200, 1000),
  }
}
fn random<T: Sc + Bounded + SampleUniform>(s: &mut Src, c: &mut Ctx) -> R {
  let n = size(s);
  let adversarial = s.flip();
  let seed = s.raw64();
  let rng = if adversarial { Rg::gen(s) } else { Rg::seeded(seed) };
  let mut rng = rng.limit(200_000 + 2_000 * n as u64);
  let first = rng.clone();
  let q = PolygonConvex::<T>::random(n, &mut rng);
  let k = q.boundary_slice().len();
  c.case(&(n, seed, adversarial, T::NAME, first.draws), || {
    format!("{} random convex polygon of {n} ({}): {k} vertices", T::NAME, if adversarial { "chosen first draws" } else { "seeded" })
  });
  c.class(T::NAME);
  c.class_if(k < n, "fewer-vertices-than-requested");
  c.class_if(adversarial, "chosen-first-draws");
  c.nontrivial_if(n >= 4);
  let exactly = !adversarial && T::RANGE.1 >= i64::MAX as i128 && n <= 200;
  check(&q, n, exactly, &|| format!("n={n}, seed {seed}"))?;
  // a function of the random source
  let mut again = first.clone();
  let z = PolygonConvex::<T>::random(n, &mut again);
  ensure!(z.equals(&q), "{}: another polygon from the same random source (n={n}, seed {seed})", T::NAME);
  Ok(())
}
fn types(s: &mut Src, c: &mut Ctx) -> R {
  let f = [random::<i8>, random::<i64>, random::<i16>, random::<i32>, random::<isize>];
  f[s.weighted(&[4, 3, 2, 2, 2])](s, c)
}
fn standard(s: &mut Src, c: &mut Ctx) -> R {
  let seed = s.raw64();
  let n = s.usize(1, 5);
  let mut rng = Rg::seeded(seed);
  c.case(&(seed, n), || format!("standard distribution, seed {seed}, sample {n}"));
  c.nontrivial_if(true);
  let mut q = None;
  for _ in 0..n {
    let p: PolygonConvex<isize> = Standard.sample(&mut rng);
    q = Some(p);
  }
  check(&q.unwrap(), 100, true, &|| format!("standard distribution, seed {seed}"))
}
/// Small sizes in the smallest type, consecutive seeds.
fn small(s: &mut Src, c: &mut Ctx) -> R {
  let i = s.raw64();
  let n = (i % 40) as usize;
  let seed = i / 40;
  let mut rng = Rg::seeded(seed).limit(400_000);
  c.case(&i, || format!("i8, n={n}, seed {seed}"));
  c.nontrivial_if(n >= 4);
  let q = PolygonConvex::<i8>::random(n, &mut rng);
  check(&q, n, false, &|| format!("n={n}, seed {seed}"))
}

/// Many polygons from one full-entropy source: sides of all four kinds of direction occur, and
/// the sides are not always split between the directions in the same way.
fn spread(s: &mut Src, c: &mut Ctx) -> R {
  fn one<T: Sc + Bounded + SampleUniform>(n: usize, seed: u64, c: &mut Ctx) -> R {
    let mut rng = Rg::seeded(seed).limit(10_000_000);
    c.case(&(n, seed, T::NAME), || format!("100 {} polygons of {n} from seed {seed}", T::NAME));
    c.class(T::NAME);
    c.nontrivial();
    let mut all_four = 0;
    let mut splits = std::collections::BTreeSet::new();
    for _ in 0..100 {
      let q = PolygonConvex::<T>::random(n, &mut rng);
      let mut kinds = [0usize; 4];
      for v in q.iter_boundary() {
        let (a, b) = (v.point(), v.next().point());
        use std::cmp::Ordering::*;
        match (a.array[0].total_cmp(&b.array[0]), a.array[1].total_cmp(&b.array[1])) {
          (Less, Less) => kinds[0] += 1,
          (Greater, Less) => kinds[1] += 1,
          (Greater, Greater) => kinds[2] += 1,
          (Less, Greater) => kinds[3] += 1,
          _ => {}
        }
      }
      all_four += kinds.iter().all(|&k| k > 0) as usize;
      splits.insert(kinds);
    }
    ensure!(all_four > 0, "n={n}, seed {seed}: none of 100 polygons has sides of all four kinds of direction");
    ensure!(splits.len() > 1, "n={n}, seed {seed}: 100 polygons split their sides between the directions in the same way");
    Ok(())
  }
  let f = [one::<i64>, one::<i32>, one::<isize>];
  let k = s.below(f.len());
  f[k](s.usize(10, 120), s.raw64(), c)
}

/// Thousands to tens of thousands of vertices.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  fn one<T: Sc + Bounded + SampleUniform>(n: usize, seed: u64, c: &mut Ctx) -> R {
    let mut rng = Rg::seeded(seed).limit(200_000 + 2_000 * n as u64);
    let q = PolygonConvex::<T>::random(n, &mut rng);
    let k = q.boundary_slice().len();
    c.case(&(n, seed, T::NAME), || format!("{} random convex polygon of {n}, seed {seed}: {k} vertices", T::NAME));
    c.class(T::NAME);
    c.nontrivial();
    check(&q, n, false, &|| format!("n={n}, seed {seed}"))
  }
  let f = [one::<i64>, one::<i32>, one::<i8>, one::<i16>, one::<isize>];
  let k = s.below(f.len());
  f[k](giant::size(s, 70_000), s.raw64(), c)
}

static SPEC: Spec = Spec {
  id: "C20",
  rule: "Requested sizes 0 to 1000 in i8, i16, i32, i64 and isize; seeded random sources, and sources whose first draws are chosen (all zero, all ones, repeats, mixtures) before a seeded stream; the standard distribution; consecutive seeds with sizes up to 39 in i8, where repeated and zero edge vectors are common. Sizes of up to 70,000. Batches of 100 polygons from one full-entropy source, which must show sides of all four kinds of direction and more than one split between them. Non-trivial: at least four vertices requested.",
  assumptions: &[
    "fixed-width integers only: sums of random floating point numbers do not cancel exactly",
    "a random source that repeats one value forever is excluded (documented to loop)",
    "exactly as many vertices as requested in 64-bit types is up to chance; its probability is above 1-2^-40 for up to 200 vertices",
  ],
  parts: &[
    Part { name: "random", quick: 160_000, thorough: 1_500_000, len: 60, run: types },
    Part { name: "standard", quick: 8_000, thorough: 60_000, len: 6, run: standard },
    Part { name: "small", quick: 200_000, thorough: 8_000_000, len: 0, run: small },
    Part { name: "spread", quick: 300, thorough: 5_000, len: 6, run: spread },
    Part { name: "giant", quick: 60, thorough: 1500, len: 12, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
