//! C06: line and ray crossings are exact and consistently perturbed.
use num::{BigInt, BigRational, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::*;
use rgeometry::{Intersects, Orientation};
use vharness::*;

fn sg(q: &Q) -> i32 {
  geo::sgn(q.cmp(&Q::zero()) as i32)
}
fn lean(i: i32) -> Orientation {
  match i {
    0 => Orientation::CoLinear,
    1 => Orientation::CounterClockWise,
    _ => Orientation::ClockWise,
  }
}
/// None, or the lean of the crossing of the open ray o + t d (t > 0) with the closed
/// segment a-b.
fn want_ray(o: &[Q; 2], d: &[Q; 2], a: &[Q; 2], b: &[Q; 2]) -> Option<Orientation> {
  let (wa, wb) = (rsub(a, o), rsub(b, o));
  let (ca, cb) = (rcross(d, &wa), rcross(d, &wb));
  let (sa, sb) = (sg(&ca), sg(&cb));
  match (sa, sb) {
    (0, 0) => None,
    (0, _) => (rdot(d, &wa) > Q::zero()).then(|| lean(sb)),
    (_, 0) => (rdot(d, &wb) > Q::zero()).then(|| lean(sa)),
    _ if sa == sb => None,
    _ => {
      // the point of the segment on the line: a + ca/(ca-cb) (b-a)
      let t = &ca / (&ca - &cb);
      let ab = rsub(b, a);
      let x = [&wa[0] + &ab[0] * &t, &wa[1] + &ab[1] * &t];
      (rdot(d, &x) > Q::zero()).then(|| Orientation::CoLinear)
    }
  }
}
fn want_line(o: &[Q; 2], d: &[Q; 2], a: &[Q; 2], b: &[Q; 2]) -> bool {
  let left = |p: &[Q; 2]| sg(&rcross(d, &rsub(p, o))) >= 0;
  left(a) != left(b)
}
fn ep<T: Sc>(p: &Point<T>, open: bool) -> EndPoint<&Point<T>> {
  if open {
    EndPoint::Exclusive(p)
  } else {
    EndPoint::Inclusive(p)
  }
}
fn ray_got(r: Option<IHalfLineLineSegmentSoS>) -> Option<Orientation> {
  r.map(|IHalfLineLineSegmentSoS::Crossing(l)| l)
}

fn random<T: Coord>(s: &mut Src, c: &mut Ctx) -> R {
  let ps = degenerate_points::<T>(s, 4);
  let mut v = degenerate_vector::<T>(s, &ps);
  let zero = T::from_constant(0);
  if v[0] == zero && v[1] == zero {
    v = [T::from_constant(1), zero];
  }
  let (oa, ob) = (s.flip(), s.flip());
  let t = T::NAME;
  let key: Vec<String> = ps.iter().chain([&v]).map(|p| format!("{p:?}")).collect();
  c.case(&(t, &key, oa, ob), || format!("{t} origin {:?} vector {v:?} through {:?} segment {:?}-{:?} open {oa},{ob}", ps[0], ps[1], ps[2], ps[3]));
  c.class(t);
  let r: Vec<[Q; 2]> = ps.iter().map(r2).collect();
  let rv = r2(&v);
  let pt: Vec<Point<T>> = ps.iter().cloned().map(Point::new).collect();
  let vv = Vector(v.clone());
  let dirs: Vec<(Direction<T, 2>, [Q; 2])> = if ps[0] == ps[1] {
    vec![(Direction::Vector(&vv), rv)]
  } else {
    vec![(Direction::Vector(&vv), rv), (Direction::Through(&pt[1]), rsub(&r[1], &r[0]))]
  };
  let mut touch = false;
  for (dir, d) in &dirs {
    let w = want_ray(&r[0], d, &r[2], &r[3]);
    let wl = want_line(&r[0], d, &r[2], &r[3]);
    touch |= rcross(d, &rsub(&r[2], &r[0])).is_zero() || rcross(d, &rsub(&r[3], &r[0])).is_zero();
    c.class_if(w == Some(Orientation::CoLinear), "ray-crosses");
    c.class_if(w.map(|l| !l.is_colinear()).unwrap_or(false), "ray-touches");
    let what = || format!("{t}: origin {:?} direction {dir:?} segment {:?}-{:?}", ps[0], ps[2], ps[3]);
    let ray = HalfLineSoS::new(&pt[0], *dir);
    for (a, b, oa, ob) in [(2, 3, oa, ob), (3, 2, ob, oa)] {
      let seg = LineSegmentView::new(ep(&pt[a], oa), ep(&pt[b], ob));
      ensure_eq!(ray_got(ray.intersect(seg)), w, "ray crossing, {}", what());
      ensure_eq!(ray_got(ray.intersect(DirectedEdge { src: &pt[a], dst: &pt[b] })), w, "ray crossing of an edge, {}", what());
      let line = LineSoS::from(Line::new(&pt[0], *dir));
      ensure_eq!((&line).intersect(seg).is_some(), wl, "line crossing, {}", what());
      ensure_eq!((&line).intersect(DirectedEdge { src: &pt[a], dst: &pt[b] }).is_some(), wl, "line crossing of an edge, {}", what());
      ensure_eq!((&LineSoS::from(ray)).intersect(seg).is_some(), wl, "line of the ray, {}", what());
      let owned = Line_ {
        origin: pt[0].clone(),
        direction: match dir {
          Direction::Vector(v) => Direction_::Vector((*v).clone()),
          Direction::Through(p) => Direction_::Through((*p).clone()),
        },
      };
      ensure_eq!(ray_got(HalfLineSoS::from(Line::from(&owned)).intersect(seg)), w, "ray from an owned line, {}", what());
      let so = LineSoS_::from(owned);
      ensure_eq!((&LineSoS::from(&so)).intersect(seg).is_some(), wl, "owned line crossing, {}", what());
    }
    match dir {
      Direction::Vector(v) => {
        let seg = LineSegmentView::new(ep(&pt[2], oa), ep(&pt[3], ob));
        ensure_eq!(ray_got(HalfLineSoS::new_directed(&pt[0], v).intersect(seg)), w, "new_directed, {}", what());
        ensure_eq!((&LineSoS::from(Line::new_directed(&pt[0], v))).intersect(seg).is_some(), wl, "line new_directed, {}", what());
      }
      Direction::Through(p) => {
        let seg = LineSegmentView::new(ep(&pt[2], oa), ep(&pt[3], ob));
        ensure_eq!(ray_got(HalfLineSoS::new_through(&pt[0], p).intersect(seg)), w, "new_through, {}", what());
        ensure_eq!((&LineSoS::from(Line::new_through(&pt[0], p))).intersect(seg).is_some(), wl, "line new_through, {}", what());
      }
    }
    c.nontrivial_if(touch || w.is_some() || wl);
  }
  c.class_if(touch, "end-point-on-line");
  Ok(())
}
fn types(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    random::<i8>,
    random::<i16>,
    random::<i32>,
    random::<i64>,
    random::<isize>,
    random::<f64>,
    random::<f32>,
    random::<OrderedFloat<f64>>,
    random::<OrderedFloat<f32>>,
    random::<NotNan<f64>>,
    random::<NotNan<f32>>,
    random::<BigInt>,
    random::<BigRational>,
    random::<rug::Integer>,
  ];
  f[s.below(14)](s, c)
}

fn parity<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  let m = s.pick(&[2i64, 3, 5, 8]);
  let chain: Vec<P> = if s.flip() { gen::simple_polygon(s, 14, m) } else { gen::points(s, 10, false) };
  if chain.len() < 3 {
    return Ok(());
  }
  let o = gen::query_point(s, &chain);
  let mut d = [s.sym(4), s.sym(4)];
  if s.flip() {
    // aim at a vertex
    let v = s.pick(&chain);
    d = [v[0] - o[0], v[1] - o[1]];
  }
  if d == [0, 0] || !vec_fits::<T>(d) {
    d = [1, 0];
  }
  let n = chain.len();
  let th = [o[0] + d[0], o[1] + d[1]];
  let (lo, hi) = geo::bbox(&[&chain[..], &[o, th]].concat());
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let loc = geo::locate(&chain, o);
  if loc == geo::Loc::On {
    return Ok(());
  }
  c.case(&(&chain, o, d, T::NAME), || format!("parity {} chain {chain:?} origin {o:?} direction {d:?}", T::NAME));
  let (vp, op, tp, dv) = (pts::<T>(&chain, &e), pt::<T>(o, &e), pt::<T>(th, &e), vec2::<T>(d, &e));
  let through = s.flip();
  let ray = if through { HalfLineSoS::new_through(&op, &tp) } else { HalfLineSoS::new_directed(&op, &dv) };
  let (mut l, mut r, mut leaning) = (0, 0, 0);
  for i in 0..n {
    let edge = DirectedEdge { src: &vp[i], dst: &vp[(i + 1) % n] };
    if let Some(IHalfLineLineSegmentSoS::Crossing(x)) = ray.intersect(edge) {
      if !x.is_cw() {
        l += 1;
      }
      if !x.is_ccw() {
        r += 1;
      }
      if !x.is_colinear() {
        leaning += 1;
      }
    }
  }
  c.nontrivial_if(leaning > 0 || l > 1);
  c.class_if(leaning > 0, "ray-through-vertex");
  let w = (loc == geo::Loc::In) as usize;
  ensure_eq!(l % 2, w, "parity of crossings not leaning right: chain {chain:?} origin {o:?} direction {d:?} through={through} {}", T::NAME);
  ensure_eq!(r % 2, w, "parity of crossings not leaning left: chain {chain:?} origin {o:?} direction {d:?} through={through} {}", T::NAME);
  Ok(())
}
fn parities(s: &mut Src, c: &mut Ctx) -> R {
  let f = [parity::<i64>, parity::<i8>, parity::<f64>, parity::<i32>, parity::<NotNan<f64>>, parity::<BigInt>, parity::<BigRational>, parity::<rug::Integer>];
  f[s.below(8)](s, c)
}

fn grid(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64().wrapping_mul(48271) % GRID;
  let mut d = || {
    let k = i % 25;
    i /= 25;
    [(k % 5) as i64 - 2, (k / 5) as i64 - 2]
  };
  let (v, a, b) = (d(), d(), d());
  if v == [0, 0] {
    return Ok(());
  }
  let f = |p: [i64; 2]| [Q::from(BigInt::from(p[0])), Q::from(BigInt::from(p[1]))];
  let o = [0i64, 0];
  c.case(&(v, a, b), || format!("grid origin 0 direction {v:?} segment {a:?}-{b:?}"));
  let w = want_ray(&f(o), &f(v), &f(a), &f(b));
  let wl = want_line(&f(o), &f(v), &f(a), &f(b));
  c.nontrivial_if(w.is_some() || wl);
  let (po, pa, pb, pv, vv) = (Point::new(o), Point::new(a), Point::new(b), Point::new(v), Vector(v));
  let e = DirectedEdge { src: &pa, dst: &pb };
  for dir in [Direction::Vector(&vv), Direction::Through(&pv)] {
    ensure_eq!(ray_got(HalfLineSoS::new(&po, dir).intersect(e)), w, "ray origin 0 direction {dir:?} edge {a:?}->{b:?}");
    ensure_eq!((&LineSoS::from(Line::new(&po, dir))).intersect(e).is_some(), wl, "line origin 0 direction {dir:?} edge {a:?}->{b:?}");
  }
  Ok(())
}
const GRID: u64 = 15625;

/// Coordinates of every kind one type has, against the same in rationals.
fn raw(s: &mut Src, c: &mut Ctx) -> R {
  native::raw(s, c, &["lines"], 1)
}

static SPEC: Spec = Spec {
  id: "C06",
  rule: "Origin, vector, through-point and segment per scalar type (small, extreme, power-of-two, full range; colinear or one unit/ulp off), every constructor and both segment directions against exact rational crossings; all directions and segments of the 5x5 grid around the origin are enumerated; closed chains (simple and self-intersecting) with rays aimed at vertices for the parity law. Small lists with coordinates of every kind one type has (full range, neighbouring values, mixed magnitudes, exact and nudged continuations of lines), against the same in rationals. Non-trivial: an end point on the line, a crossing, or a ray that meets a vertex or at least two edges.",
  assumptions: &["the direction is not zero and the through-point differs from the origin", "the ray is open at its origin", "BigRational arithmetic of the num crate is the oracle"],
  parts: &[
    Part { name: "raw", quick: 20_000, thorough: 1_000_000, len: 300, run: raw },
    Part { name: "types", quick: 300_000, thorough: 5_000_000, len: 64, run: types },
    Part { name: "grid", quick: GRID, thorough: GRID, len: 0, run: grid },
    Part { name: "parity", quick: 620_000, thorough: 8_000_000, len: 120, run: parities },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
