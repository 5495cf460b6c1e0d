//! C04: simulation-of-simplicity tie breaking is a consistent orientation.
use rgeometry::{Orientation, SoS};
use vharness::*;

fn idx(s: &mut Src, k: usize) -> Vec<u32> {
  let mode = s.below(4);
  let mut v: Vec<u32> = vec![];
  let base = s.raw();
  let mut tries = 0;
  while v.len() < k {
    tries += 1;
    let x = match mode {
      0 => s.below(6) as u32,
      1 => s.raw(),
      2 => s.pick(&[0u32, 1, 2, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, (1 << 31) + 1, 65535, 65536]),
      _ => base.wrapping_add(s.below(5) as u32),
    };
    let x = if tries > 20 { v.len() as u32 * 7 + 100 } else { x };
    if !v.contains(&x) {
      v.push(x);
    }
  }
  v
}
/// Orientation of (a,2^a), (b,2^b), (c,2^c): the points lie on a convex curve, so it is the
/// parity of the permutation sorting them.
fn want(a: u32, b: u32, c: u32) -> SoS {
  let inv = [a > b, a > c, b > c].iter().filter(|x| **x).count();
  if inv % 2 == 0 {
    SoS::CounterClockWise
  } else {
    SoS::ClockWise
  }
}
fn exact(a: u32, b: u32, c: u32) -> SoS {
  let p = |x: u32| (x as i128, 1i128 << x);
  let (p, q, r) = (p(a), p(b), p(c));
  let d = (q.0 - p.0) * (r.1 - p.1) - (q.1 - p.1) * (r.0 - p.0);
  assert!(d != 0);
  if d > 0 {
    SoS::CounterClockWise
  } else {
    SoS::ClockWise
  }
}
const OS: [Orientation; 3] = [Orientation::CoLinear, Orientation::CounterClockWise, Orientation::ClockWise];
fn lift(o: Orientation) -> Option<SoS> {
  match o {
    Orientation::CounterClockWise => Some(SoS::CounterClockWise),
    Orientation::ClockWise => Some(SoS::ClockWise),
    Orientation::CoLinear => None,
  }
}
fn neg(x: SoS) -> SoS {
  if x == SoS::ClockWise {
    SoS::CounterClockWise
  } else {
    SoS::ClockWise
  }
}

fn triple(a: u32, b: u32, c: u32) -> R {
  let w = want(a, b, c);
  ensure_eq!(SoS::new(a, b, c), w, "SoS::new({a},{b},{c})");
  if a.max(b).max(c) < 100 {
    ensure_eq!(w, exact(a, b, c), "harness oracle ({a},{b},{c})");
  }
  for (x, y, z) in [(b, c, a), (c, a, b)] {
    ensure_eq!(SoS::new(x, y, z), w, "rotation ({x},{y},{z})");
  }
  for (x, y, z) in [(b, a, c), (a, c, b), (c, b, a)] {
    ensure_eq!(SoS::new(x, y, z), neg(w), "swap ({x},{y},{z})");
  }
  for o in OS {
    ensure_eq!(o.break_ties(a, b, c), lift(o).unwrap_or(w), "{o:?}.break_ties({a},{b},{c})");
    for other in [SoS::ClockWise, SoS::CounterClockWise] {
      ensure_eq!(o.sos(other), lift(o).unwrap_or(other), "{o:?}.sos({other:?})");
    }
  }
  Ok(())
}
fn triples(s: &mut Src, c: &mut Ctx) -> R {
  let v = idx(s, 3);
  c.case(&v, || format!("indices {v:?}"));
  c.nontrivial();
  triple(v[0], v[1], v[2])
}
/// Consistency of larger index sets: every 4-tuple obeys the 3-term Grassmann-Pluecker
/// sign condition (interiority/transitivity), and one convex chain realises them all.
fn tuples(s: &mut Src, c: &mut Ctx) -> R {
  let v = idx(s, 5);
  c.case(&v, || format!("indices {v:?}"));
  c.nontrivial();
  let ccw = |a: u32, b: u32, d: u32| SoS::new(a, b, d) == SoS::CounterClockWise;
  for a in &v {
    for b in &v {
      for d in &v {
        for e in &v {
          let mut u = [*a, *b, *d, *e];
          u.sort();
          if u.windows(2).any(|w| w[0] == w[1]) {
            continue;
          }
          // interiority: tqr, ptr, pqt => pqr
          let (p, q, r, t) = (*a, *b, *d, *e);
          if ccw(t, q, r) && ccw(p, t, r) && ccw(p, q, t) {
            ensure!(ccw(p, q, r), "interiority broken for {p},{q},{r},{t}");
          }
          for f in &v {
            if u.contains(f) {
              continue;
            }
            // transitivity: tsp, tsq, tsr, tpq, tqr => tpr
            let (t, s, p, q, r) = (*a, *b, *d, *e, *f);
            if ccw(t, s, p) && ccw(t, s, q) && ccw(t, s, r) && ccw(t, p, q) && ccw(t, q, r) {
              ensure!(ccw(t, p, r), "transitivity broken for {t},{s},{p},{q},{r}");
            }
          }
        }
      }
    }
  }
  Ok(())
}
fn algebra(s: &mut Src, c: &mut Ctx) -> R {
  let i = s.raw64() as usize;
  let (a, b, d) = (OS[i % 3], OS[i / 3 % 3], OS[i / 9 % 3]);
  c.case(&i, || format!("orientations {a:?} {b:?} {d:?}"));
  c.nontrivial();
  let sg = |o: Orientation| match o {
    Orientation::CoLinear => 0i32,
    Orientation::CounterClockWise => 1,
    Orientation::ClockWise => -1,
  };
  ensure_eq!(a.reverse().reverse(), a, "reverse is not an involution");
  ensure_eq!(sg(a.reverse()), -sg(a), "reverse of {a:?}");
  ensure_eq!((a.is_colinear(), a.is_ccw(), a.is_cw()), (sg(a) == 0, sg(a) > 0, sg(a) < 0), "{a:?}.is_*");
  let first = |xs: &[Orientation]| xs.iter().copied().find(|x| sg(*x) != 0).unwrap_or(Orientation::CoLinear);
  ensure_eq!(a.then(b), first(&[a, b]), "{a:?}.then({b:?})");
  ensure_eq!(a.then(b).then(d), first(&[a, b, d]), "chain {a:?} {b:?} {d:?}");
  ensure_eq!(a.then(b.then(d)), a.then(b).then(d), "then is not associative");
  ensure_eq!(a.reverse().then(b.reverse()), a.then(b).reverse(), "reverse does not distribute over then");
  Ok(())
}
fn small(s: &mut Src, c: &mut Ctx) -> R {
  let i = s.raw64() as u32;
  let (a, b, d) = (i % 40, i / 40 % 40, i / 1600);
  if a == b || b == d || a == d {
    return Ok(());
  }
  c.case(&(a, b, d), || format!("indices {a},{b},{d}"));
  c.nontrivial();
  triple(a, b, d)
}

static SPEC: Spec = Spec {
  id: "C04",
  rule: "Distinct u32 indices from small, extreme, power-of-two, consecutive and full ranges; all triples below 40 and all triples of orientation values are enumerated; 5-tuples are checked against the chirotope (CC-system) axioms in every role. Every case with distinct indices is non-trivial.",
  assumptions: &["points (i, 2^i) lie on a convex curve, so their orientation is the permutation parity; checked against exact 128-bit determinants for indices below 100"],
  parts: &[
    Part { name: "triples", quick: 10_000_000, thorough: 50_000_000, len: 24, run: triples },
    Part { name: "tuples", quick: 750_000, thorough: 5_000_000, len: 40, run: tuples },
    Part { name: "small", quick: 64000, thorough: 64000, len: 0, run: small },
    Part { name: "algebra", quick: 27, thorough: 27, len: 0, run: algebra },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
