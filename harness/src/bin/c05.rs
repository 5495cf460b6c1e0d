//! C05: segment containment and intersection are exact set operations.
use num::{BigInt, BigRational, One, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::*;
use rgeometry::Intersects;
use vharness::*;

type V2 = [Q; 2];
/// A segment as a set: end points in the order given, with openness.
#[derive(Clone, Debug)]
struct Seg {
  a: V2,
  b: V2,
  ao: bool,
  bo: bool,
}
impl Seg {
  fn has(&self, p: &V2) -> bool {
    let (ab, ap) = (rsub(&self.b, &self.a), rsub(p, &self.a));
    if self.a == self.b {
      return *p == self.a && !self.ao && !self.bo;
    }
    if !rcross(&ab, &ap).is_zero() {
      return false;
    }
    let t = rdot(&ab, &ap);
    let l = rdot(&ab, &ab);
    (if self.ao { t > Q::zero() } else { t >= Q::zero() }) && (if self.bo { t < l } else { t <= l })
  }
}
#[derive(Debug, PartialEq, Clone)]
enum Want {
  Nothing,
  Crossing,
  /// Overlap from .0 (openness) to .1, lexicographically ordered.
  Overlap((V2, bool), (V2, bool)),
}
fn line_of(x: &Seg, y: &Seg) -> bool {
  let pts = [&x.a, &x.b, &y.a, &y.b];
  let Some(q) = pts.iter().find(|p| **p != pts[0]) else { return true };
  pts.iter().all(|p| rcross(&rsub(q, pts[0]), &rsub(p, pts[0])).is_zero())
}
fn want(x: &Seg, y: &Seg) -> Want {
  if line_of(x, y) {
    // lexicographic order is an order along the common line
    let norm = |s: &Seg| {
      let (mut l, mut h) = ((s.a.clone(), s.ao), (s.b.clone(), s.bo));
      if l.0 > h.0 {
        std::mem::swap(&mut l, &mut h)
      }
      if l.0 == h.0 {
        let o = l.1 || h.1;
        l.1 = o;
        h.1 = o;
      }
      (l, h)
    };
    let ((l1, h1), (l2, h2)) = (norm(x), norm(y));
    let lo = if l1.0 == l2.0 { (l1.0, l1.1 || l2.1) } else if l1.0 > l2.0 { l1 } else { l2 };
    let hi = if h1.0 == h2.0 { (h1.0, h1.1 || h2.1) } else if h1.0 < h2.0 { h1 } else { h2 };
    if lo.0 < hi.0 || (lo.0 == hi.0 && !lo.1 && !hi.1) {
      return Want::Overlap(lo, hi);
    }
    return Want::Nothing;
  }
  // not on one line: at most one common point; it is an end point or a proper crossing
  let hit = if x.a == x.b {
    if y.has(&x.a) && x.has(&x.a) {
      true
    } else {
      false
    }
  } else if y.a == y.b {
    x.has(&y.a) && y.has(&y.a)
  } else {
    let (d, e) = (rsub(&x.b, &x.a), rsub(&y.b, &y.a));
    let den = rcross(&d, &e);
    if den.is_zero() {
      false // parallel, different lines
    } else {
      let w = rsub(&y.a, &x.a);
      let t = rcross(&w, &e) / &den;
      let u = rcross(&w, &d) / &den;
      let inside = |t: &Q, ao: bool, bo: bool| {
        (if ao { *t > Q::zero() } else { *t >= Q::zero() }) && (if bo { *t < Q::one() } else { *t <= Q::one() })
      };
      inside(&t, x.ao, x.bo) && inside(&u, y.ao, y.bo)
    }
  };
  if hit {
    Want::Crossing
  } else {
    Want::Nothing
  }
}
fn ep<T: Sc>(p: Point<T>, open: bool) -> EndPoint<Point<T>> {
  if open {
    EndPoint::Exclusive(p)
  } else {
    EndPoint::Inclusive(p)
  }
}
fn got<T: Sc>(r: Option<ILineSegment<'_, T>>) -> Result<Want, String> {
  Ok(match r {
    None => Want::Nothing,
    Some(ILineSegment::Crossing) => Want::Crossing,
    Some(ILineSegment::Overlap(v)) => {
      Want::Overlap((r2(&v.min.inner().array), v.min.is_exclusive()), (r2(&v.max.inner().array), v.max.is_exclusive()))
    }
  })
}

fn check<T: Sc>(p: &[[T; 2]], op: &[bool], probes: &[[T; 2]], c: &mut Ctx) -> R {
  let t = T::NAME;
  let pt: Vec<Point<T>> = p.iter().cloned().map(Point::new).collect();
  let seg = |i: usize| Seg { a: r2(&p[i]), b: r2(&p[i + 1]), ao: op[i], bo: op[i + 1] };
  let (x, y) = (seg(0), seg(2));
  let mk = |i: usize, j: usize| LineSegment::new(ep(pt[i].clone(), op[i]), ep(pt[j].clone(), op[j]));
  let (l, lr, m, mr) = (mk(0, 1), mk(1, 0), mk(2, 3), mk(3, 2));
  // containment
  for (sx, fwd, rev, i) in [(&x, &l, &lr, 0), (&y, &m, &mr, 2)] {
    for q in p.iter().chain(probes) {
      let w = sx.has(&r2(q));
      let pq = Point::new(q.clone());
      ensure_eq!(fwd.contains(&pq), w, "{t}: {:?}-{:?} (open ends {:?},{:?}) contains {q:?}", p[i], p[i + 1], op[i], op[i + 1]);
      ensure_eq!(rev.contains(&pq), w, "{t}: reversed {:?}-{:?} (open ends {:?},{:?}) contains {q:?}", p[i], p[i + 1], op[i], op[i + 1]);
      ensure_eq!(LineSegmentView::from(fwd).contains(&pq), w, "{t}: view of {:?}-{:?} contains {q:?}", p[i], p[i + 1]);
      if !op[i] && op[i + 1] {
        ensure_eq!(DirectedEdge { src: &pt[i], dst: &pt[i + 1] }.contains(&pq), w, "{t}: edge {:?}->{:?} contains {q:?}", p[i], p[i + 1]);
      }
    }
  }
  let w = want(&x, &y);
  let d = || format!("{t}: {:?}-{:?} (open {},{}) with {:?}-{:?} (open {},{})", p[0], p[1], op[0], op[1], p[2], p[3], op[2], op[3]);
  for (a, b) in [(&l, &m), (&l, &mr), (&lr, &m), (&lr, &mr)] {
    ensure_eq!(got(a.intersect(b))?, w, "intersect {}", d());
    ensure_eq!(got(b.intersect(a))?, w, "intersect, arguments swapped, {}", d());
    ensure_eq!(got(a.as_ref().intersect(b.as_ref()))?, w, "view intersect {}", d());
  }
  if !op[0] && op[1] && !op[2] && op[3] {
    let (e, f) = (DirectedEdge { src: &pt[0], dst: &pt[1] }, DirectedEdge { src: &pt[2], dst: &pt[3] });
    ensure_eq!(got(e.intersect(f))?, w, "edge intersect {}", d());
    let (e, f) = (DirectedEdge_ { src: pt[0].clone(), dst: pt[1].clone() }, DirectedEdge_ { src: pt[2].clone(), dst: pt[3].clone() });
    ensure_eq!(got((&e).intersect(&f))?, w, "owned edge intersect {}", d());
    let (e, f) = (pt[0].clone()..pt[1].clone(), pt[2].clone()..pt[3].clone());
    ensure_eq!(got((&e).intersect(&f))?, w, "range intersect {}", d());
  }
  if !op[0] && !op[1] && !op[2] && !op[3] {
    let (e, f) = (pt[0].clone()..=pt[1].clone(), pt[2].clone()..=pt[3].clone());
    ensure_eq!(got((&e).intersect(&f))?, w, "inclusive range intersect {}", d());
  }
  let one_line = line_of(&x, &y);
  let touch = w == Want::Nothing && want(&Seg { ao: false, bo: false, ..x.clone() }, &Seg { ao: false, bo: false, ..y.clone() }) != Want::Nothing;
  c.class_if(one_line, "one-line");
  c.class_if(matches!(w, Want::Overlap(..)), "overlap");
  c.class_if(w == Want::Crossing, "crossing");
  c.class_if(touch, "only-open-ends-touch");
  c.class_if(p[0] == p[1] || p[2] == p[3], "degenerate-segment");
  c.nontrivial_if(w != Want::Nothing || one_line || touch);
  Ok(())
}
fn open(s: &mut Src) -> Vec<bool> {
  match s.below(4) {
    0 => vec![false, true, false, true],
    1 => vec![false; 4],
    _ => (0..4).map(|_| s.flip()).collect(),
  }
}
fn random<T: Coord>(s: &mut Src, c: &mut Ctx) -> R {
  let ps = degenerate_points::<T>(s, 6);
  let op = open(s);
  let key: Vec<String> = ps.iter().map(|p| format!("{p:?}")).collect();
  c.case(&(T::NAME, &key, &op), || format!("{} {:?}-{:?} and {:?}-{:?} open={op:?} probes {:?}", T::NAME, ps[0], ps[1], ps[2], ps[3], &ps[4..]));
  c.class(T::NAME);
  check(&ps[..4], &op, &ps[4..], c)
}
fn types(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    random::<i8>,
    random::<i16>,
    random::<i32>,
    random::<i64>,
    random::<isize>,
    random::<f64>,
    random::<f32>,
    random::<OrderedFloat<f64>>,
    random::<OrderedFloat<f32>>,
    random::<NotNan<f64>>,
    random::<NotNan<f32>>,
    random::<BigInt>,
    random::<BigRational>,
    random::<rug::Integer>,
  ];
  f[s.below(14)](s, c)
}
/// All pairs of segments with ends on the 3x3 grid and all openness combinations.
fn grid(s: &mut Src, c: &mut Ctx) -> R {
  let i = s.raw64();
  let mut i = i.wrapping_mul(48271) % GRID;
  let mut d = || {
    let k = (i % 9) as i64;
    i /= 9;
    [k % 3, k / 3]
  };
  let p = [d(), d(), d(), d()];
  let op: Vec<bool> = (0..4).map(|k| i >> k & 1 == 1).collect();
  c.case(&(p, &op), || format!("grid {p:?} open={op:?}"));
  let probes: Vec<[i64; 2]> = (0..9).map(|k| [k % 3, k / 3]).collect();
  check(&p, &op, &probes, c)
}
const GRID: u64 = 9 * 9 * 9 * 9 * 16;

/// Coordinates of every kind one type has, against the same in rationals.
fn raw(s: &mut Src, c: &mut Ctx) -> R {
  native::raw(s, c, &["segments"], 1)
}

static SPEC: Spec = Spec {
  id: "C05",
  rule: "Four end points and two probe points per scalar type (small, extreme, power-of-two, full range; repeated, colinear, one unit/ulp off a line) with every mix of open and closed ends; all 104,976 pairs of segments on the 3x3 grid with all openness combinations are enumerated. Every representation (owned, view, edge, range), argument order and direction is compared with the exact set intersection. Small lists with coordinates of every kind one type has (full range, neighbouring values, mixed magnitudes, exact and nudged continuations of lines), against the same in rationals. Non-trivial: the closed segments meet or all four end points lie on one line.",
  assumptions: &["a segment whose two ends coincide is the single point if both ends are inclusive and empty otherwise", "BigRational arithmetic of the num crate is the oracle"],
  parts: &[
    Part { name: "raw", quick: 20_000, thorough: 1_000_000, len: 300, run: raw },
    Part { name: "types", quick: 300_000, thorough: 4_000_000, len: 80, run: types },
    Part { name: "grid", quick: GRID, thorough: GRID, len: 0, run: grid },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
