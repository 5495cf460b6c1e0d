//! C19: visibility polygons are exact.
use num::{BigInt, BigRational, Integer, One, ToPrimitive, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::visibility::naive::get_visibility_polygon;
use std::cmp::Ordering;
use vharness::*;

type V = [i128; 2];
type Pq = [Q; 2];
fn sub(a: P, b: P) -> V {
  [a[0] as i128 - b[0] as i128, a[1] as i128 - b[1] as i128]
}
fn crs(a: V, b: V) -> i128 {
  a[0] * b[1] - a[1] * b[0]
}
/// o + t d where the line through a and b crosses it; t as a fraction.
fn along(o: P, d: V, a: P, b: P) -> (i128, i128) {
  let e = sub(b, a);
  let (n, m) = (crs(sub(a, o), e), crs(d, e));
  if m < 0 {
    (-n, -m)
  } else {
    (n, m)
  }
}
fn at(o: P, d: V, t: (i128, i128)) -> Pq {
  let f = Q::new(BigInt::from(t.0), BigInt::from(t.1));
  [0, 1].map(|k| Q::from(BigInt::from(o[k])) + &f * Q::from(BigInt::from(d[k])))
}
/// The region visible from o (off the boundary), cone by cone between neighbouring vertex
/// directions; None if some ray escapes.
fn visible(p: &[P], o: P) -> Option<Vec<Pq>> {
  let n = p.len();
  let mut ds: Vec<V> = p.iter().map(|q| sub(*q, o)).collect();
  ds.sort_by(|a, b| geo::cmp_angle(*a, *b));
  ds.dedup_by(|a, b| geo::cmp_angle(*a, *b) == Ordering::Equal);
  let k = ds.len();
  let mut out = vec![];
  for i in 0..k {
    let (d1, d2) = (ds[i], ds[(i + 1) % k]);
    if crs(d1, d2) <= 0 {
      return None;
    }
    let mid = [d1[0] + d2[0], d1[1] + d2[1]];
    let mut best: Option<((i128, i128), P, P)> = None;
    for j in 0..n {
      let (a, b) = (p[j], p[(j + 1) % n]);
      let (sa, sb) = (geo::sgn(crs(mid, sub(a, o))), geo::sgn(crs(mid, sub(b, o))));
      if sa * sb >= 0 {
        continue;
      }
      let t = along(o, mid, a, b);
      if t.0 <= 0 {
        continue;
      }
      if best.map(|x| t.0 * x.0 .1 < x.0 .0 * t.1).unwrap_or(true) {
        best = Some((t, a, b));
      }
    }
    let (_, a, b) = best?;
    out.push(at(o, d1, along(o, d1, a, b)));
    out.push(at(o, d2, along(o, d2, a, b)));
  }
  Some(out)
}
/// Drop repeated and straight-through vertices. Err if the chain turns back on itself.
fn reduced(v: &[Pq], strict: bool) -> Result<Vec<Pq>, String> {
  let mut v = v.to_vec();
  let mut i = 0;
  let mut still = 0;
  while v.len() > 2 && still < v.len() {
    let n = v.len();
    i %= n;
    let (a, b, c) = (&v[(i + n - 1) % n], &v[i], &v[(i + 1) % n]);
    let (x, y) = (rsub(b, a), rsub(c, b));
    let same = a == b;
    if same && strict {
      return Err(format!("vertex {b:?} occurs twice in a row"));
    }
    if same || rcross(&x, &y).is_zero() {
      if !same && b != c && rdot(&x, &y) < Q::zero() {
        return Err(format!("the chain turns back at {b:?}"));
      }
      v.remove(i);
      i = i.saturating_sub(1);
      still = 0;
    } else {
      i += 1;
      still += 1;
    }
  }
  Ok(v)
}
fn area(v: &[Pq]) -> Q {
  let n = v.len();
  (0..n).map(|i| rcross(&v[i], &v[(i + 1) % n])).sum()
}

/// A common denominator of every point where the line through o and a vertex meets the
/// line of an edge.
fn denominators(p: &[P], o: P) -> BigInt {
  let n = p.len();
  let mut d = BigInt::one();
  for v in p {
    let dir = sub(*v, o);
    for j in 0..n {
      let t = along(o, dir, p[j], p[(j + 1) % n]);
      if t.1 != 0 {
        for x in at(o, dir, t) {
          d = d.lcm(x.denom());
        }
      }
    }
  }
  d
}
fn run<T: Sc>(p: &[P], o: P, e: &Emb, st: u64, want: &Option<Vec<Pq>>) -> R {
  let t = T::NAME;
  let poly = shapes::polygon::<T>(p, e, st);
  let got = get_visibility_polygon(&pt::<T>(o, e), &poly);
  let (got, want) = match (got, want) {
    (None, None) => return Ok(()),
    (Some(q), Some(w)) => (q, w),
    (None, _) => return Err(format!("{t}: no visibility polygon from {o:?} in {p:?}")),
    (Some(q), None) => {
      return Err(format!("{t}: visibility polygon {q:?} from {o:?} in {p:?}, although rays escape"))
    }
  };
  // the expected ring under the embedding
  let f = |x: &Q, k: usize| {
    let y = x * BigInt::from(e.mul) + BigInt::from(e.add[k]);
    let y = y / BigInt::from(e.den);
    if e.exp >= 0 {
      y * (BigInt::one() << e.exp)
    } else {
      y / (BigInt::one() << -e.exp)
    }
  };
  let want: Vec<Pq> = want.iter().map(|x| [f(&x[0], 0), f(&x[1], 1)]).collect();
  let want = reduced(&want, false)?;
  let r: Vec<Pq> = got.iter_boundary().map(|c| r2(&c.point().array)).collect();
  let show = |v: &[Pq]| v.iter().map(|x| format!("({},{})", x[0], x[1])).collect::<Vec<_>>().join(" ");
  let red = reduced(&r, true).map_err(|x| format!("{t}: visibility from {o:?} in {p:?}: {x}"))?;
  ensure!(
    geo::cyc_eq(&red, &want),
    "{t}: visibility polygon from {o:?} in {p:?} is {} instead of {}",
    show(&r),
    show(&want)
  );
  ensure!(area(&r) > Q::zero(), "{t}: clockwise visibility polygon from {o:?} in {p:?}: {}", show(&r));
  Ok(())
}
/// Scaled so that every intersection is an integer, in a type in which every intermediate
/// result of the intersection formula is exact.
fn typed(s: &mut Src, c: &mut Ctx, p: &[P], o: P, st: u64, want: &Option<Vec<Pq>>) -> R {
  let d = denominators(p, o);
  let Some(d) = d.to_i128().filter(|d| *d < 1 << 60) else { return Ok(()) };
  let m = p.iter().chain([&o]).flat_map(|q| q.iter()).map(|x| x.unsigned_abs()).max().unwrap_or(0);
  let top = m as i128 * d;
  type F = fn(&[P], P, &Emb, u64, &Option<Vec<Pq>>) -> R;
  let all: [(i128, F, &str); 11] = [
    (1 << 20, run::<i64>, "i64"),
    (1 << 16, run::<f64>, "f64"),
    (1 << 20, run::<isize>, "isize"),
    (1 << 16, run::<OrderedFloat<f64>>, "OrderedFloat<f64>"),
    (1 << 16, run::<NotNan<f64>>, "NotNan<f64>"),
    (512, run::<i32>, "i32"),
    (128, run::<f32>, "f32"),
    (128, run::<NotNan<f32>>, "NotNan<f32>"),
    (15, run::<i16>, "i16"),
    (i128::MAX, run::<BigInt>, "BigInt"),
    (i128::MAX, run::<rug::Integer>, "rug::Integer"),
  ];
  let ok: Vec<_> = all.iter().filter(|x| top <= x.0).collect();
  let (max, f, name) = ok[ok.len() - 1 - s.below(ok.len())];
  let mut e = Emb::ID;
  e.mul = d;
  // as large as the type allows
  let room = if top == 0 { 1 } else { (*max / top).min(1 << 40) };
  if s.flip() && room > 1 {
    e.mul *= s.range(1, room as i64) as i128;
  }
  if name.contains("f64") && s.chance(1, 3) {
    e.exp = s.range(-120, 120) as i32;
  } else if name.contains("f32") && s.chance(1, 3) {
    e.exp = s.range(-15, 15) as i32;
  }
  c.class_if(e.exp != 0, "scaled-by-2^k");
  c.class(name);
  f(p, o, &e, st, want)
}
fn viewpoint(s: &mut Src, p: &[P]) -> P {
  let want_out = s.chance(1, 8);
  let mut o = p[0];
  for _ in 0..8 {
    o = gen::query_point(s, p);
    match geo::locate(p, o) {
      geo::Loc::In if !want_out => break,
      geo::Loc::Out if want_out => break,
      _ => {}
    }
  }
  o
}
fn note(c: &mut Ctx, p: &[P], o: P, want: &Option<Vec<Pq>>) {
  let n = p.len();
  let aligned = (0..n).any(|i| {
    (0..i).any(|j| {
      let (a, b) = (sub(p[i], o), sub(p[j], o));
      crs(a, b) == 0 && geo::cmp_angle(a, b) == Ordering::Equal
    })
  });
  let inside = geo::locate(p, o) == geo::Loc::In;
  let convex = (0..n).all(|i| geo::orient(p[i], p[(i + 1) % n], p[(i + 2) % n]) >= 0);
  c.class(if inside { "viewpoint-inside" } else { "viewpoint-outside" });
  c.class_if(aligned, "vertices-in-the-same-direction");
  c.class_if(!inside && want.is_some(), "closed-view-from-a-pocket");
  c.nontrivial_if(inside && !convex);
}
fn view(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[4i64, 8, 3, 2, 12, 30, 1000]);
  let mut p = gen::simple_polygon(s, 12, m);
  let k = s.pick(&[1i64, 2, 3]);
  p.iter_mut().for_each(|q| *q = [q[0] * k, q[1] * k]);
  let o = viewpoint(s, &p);
  if geo::locate(&p, o) == geo::Loc::On {
    return Ok(());
  }
  let st = shapes::store(s);
  let want = visible(&p, o);
  let exact = s.chance(1, 3);
  c.case(&(&p, o, st, exact), || format!("view from {o:?} in {p:?} (rational: {exact})"));
  note(c, &p, o, &want);
  if exact {
    let mut all = p.clone();
    all.push(o);
    let (lo, hi) = geo::bbox(&all);
    let Some(e) = emb::<BigRational>(s, lo, hi) else { return Ok(()) };
    c.class("BigRational");
    return run::<BigRational>(&p, o, &e, st, &want);
  }
  typed(s, c, &p, o, st, &want)
}
/// Simple polygons of three to six vertices on the 3x3 grid (a spread sample), viewpoints
/// on the grid of half steps.
fn grid(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let mut k = 3;
  let mut total = 729u64;
  while k < 6 && i >= total {
    i -= total;
    total *= 9;
    k += 1;
  }
  if k == 6 {
    i = i.wrapping_mul(48271) % total;
  }
  let p: Vec<P> = (0..k)
    .map(|_| {
      let d = (i % 9) as i64;
      i /= 9;
      [2 * (d % 3), 2 * (d / 3)]
    })
    .collect();
  if !geo::is_simple(&p) || geo::area2(&p) < 0 {
    return Ok(());
  }
  c.case(&p, || format!("grid {p:?}, viewpoints off the boundary"));
  for x in 0..5 {
    for y in 0..5 {
      let o = [x, y];
      if (x + y) % 2 == (p[0][0] / 2 + p[0][1] / 2) % 2 && geo::locate(&p, o) != geo::Loc::On {
        let want = visible(&p, o);
        note(c, &p, o, &want);
        run::<BigRational>(&p, o, &Emb::ID, 0, &want)?;
      }
    }
  }
  Ok(())
}
fn large(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[30i64, 8, 200]);
  let p = gen::simple_polygon(s, 40, m);
  let o = viewpoint(s, &p);
  if geo::locate(&p, o) == geo::Loc::On {
    return Ok(());
  }
  let want = visible(&p, o);
  c.case(&(&p, o), || format!("large, view from {o:?} in {p:?}"));
  note(c, &p, o, &want);
  run::<BigRational>(&p, o, &Emb::ID, 0, &want)
}

/// Hundreds of vertices.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[30i64, 8, 200]);
  let p = gen::huge_polygon(s, 280, m);
  let o = viewpoint(s, &p);
  if geo::locate(&p, o) == geo::Loc::On {
    return Ok(());
  }
  let want = visible(&p, o);
  c.case(&(&p, o), || format!("huge, view from {o:?} in {p:?}"));
  note(c, &p, o, &want);
  run::<BigRational>(&p, o, &Emb::ID, 0, &want)
}

/// Hundreds to a thousand vertices.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let (p, name) = giant::polygon(s, if c.thorough { 1100 } else { 600 });
  let o = viewpoint(s, &p);
  if geo::locate(&p, o) == geo::Loc::On {
    return Ok(());
  }
  let want = visible(&p, o);
  c.case(&(&p, o), || format!("view from {o:?} in {name}"));
  note(c, &p, o, &want);
  run::<BigRational>(&p, o, &Emb::ID, 0, &want)
}

static SPEC: Spec = Spec {
  id: "C19",
  rule: "Simple polygons of seven families in any storage order, viewpoints off the boundary: inside (random, level with vertices, on diagonals, next to vertices) and one in eight outside; rational coordinates, and every other scalar type but i8 scaled so that all intersections are representable; simple polygons of three to six vertices on the 3x3 grid (a spread sample) with viewpoints on the half-step grid; up to 40, up to 280, and up to 600 (thorough: 1100) vertices. Oracle: the nearest edge in every cone between neighbouring vertex directions, compared as exact vertex cycles. Non-trivial: viewpoint inside a polygon that is not convex.",
  assumptions: &[
    "points on the boundary are not viewpoints",
    "in types without exact division, inputs are scaled so that all intersections are representable and no intermediate result overflows or rounds",
    "a single visible segment sticking out between two touching corners (no area) is not part of the polygon",
    "vertices in the middle of a straight side of the result are not significant",
  ],
  parts: &[
    Part { name: "view", quick: 72_000, thorough: 2_500_000, len: 110, run: view },
    Part { name: "grid", quick: 60_000, thorough: 597_780, len: 0, run: grid },
    Part { name: "large", quick: 2_400, thorough: 60_000, len: 300, run: large },
    Part { name: "huge", quick: 100, thorough: 4_000, len: 24, run: huge },
    Part { name: "giant", quick: 24, thorough: 600, len: 24, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
