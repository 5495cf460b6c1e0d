//! C29: every result is a function of the arguments and of the random stream.
use num::{BigInt, Bounded};
use ordered_float::{NotNan, OrderedFloat};
use rand::distributions::uniform::SampleUniform;
use rand::Rng;
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::polygonization::*;
use rgeometry::algorithms::segment_intersections;
use rgeometry::algorithms::triangulation::earclip;
use rgeometry::algorithms::visibility::naive::get_visibility_polygon;
use rgeometry::algorithms::zhash::ZHashable;
use rgeometry::data::*;
use vharness::*;

/// What a call is made on: canonical points of one kind, realised anew for every call.
#[derive(Clone, Debug)]
struct Job {
  alg: usize,
  p: Vec<P>,
  o: P,
  n: usize,
  store: u64,
  e: Emb,
  rng: Rg,
}
const ALGS: [&str; 21] = [
  "graham_scan",
  "gift_wrapping",
  "melkman",
  "new_monotone_polygon",
  "new_star_polygon",
  "get_visibility_polygon",
  "segment_intersections",
  "earclip",
  "two_opt_moves",
  "resolve_self_intersections",
  "triangulate_list",
  "intersection set draws",
  "validate",
  "locate",
  "centroid and areas",
  "is_ear",
  "ensure_ccw",
  "Polygon::triangulate",
  "convex random",
  "triangle sampling",
  "hashed triangulation",
];
/// Algorithms that need a simple polygon.
const SIMPLE: [usize; 8] = [2, 5, 7, 10, 13, 15, 17, 20];
/// Algorithms that draw random numbers.
const DRAWS: [usize; 6] = [8, 9, 10, 11, 18, 19];

fn show<T: Sc>(p: &Polygon<T>) -> String {
  let ids = p.boundary_slice();
  format!("{ids:?} {:?}", p.iter().map(|x| &x.array).collect::<Vec<_>>())
}
/// The outcome of one call, spelled out, and how many random numbers it drew.
fn run<T: Sc>(j: &Job) -> (String, u64) {
  let mut rng = j.rng.clone();
  let v = || pts::<T>(&j.p, &j.e);
  let poly = || shapes::polygon::<T>(&j.p, &j.e, j.store);
  let o = || pt::<T>(j.o, &j.e);
  let out = match j.alg {
    0 => format!("{:?}", graham_scan::convex_hull(v()).map(|x| show(x.polygon()))),
    1 => format!("{:?}", gift_wrapping::convex_hull(v()).map(|x| show(x.polygon()))),
    2 => show(melkman::convex_hull(&poly()).polygon()),
    3 => format!("{:?}", new_monotone_polygon(v(), &vec2::<T>([j.o[0] % 4, 1 + j.o[1].abs() % 3], &Emb::ID)).map(|x| show(&x))),
    4 => format!("{:?}", new_star_polygon(v(), &o()).map(|x| show(&x))),
    5 => format!("{:?}", get_visibility_polygon(&o(), &poly()).map(|x| show(&x))),
    6 => {
      let l: Vec<DirectedEdge_<T, 2>> = {
        let v = v();
        let n = v.len();
        (0..n).map(|i| DirectedEdge_ { src: v[i].clone(), dst: v[(i + 1) % n].clone() }).collect()
      };
      let at = |x: &DirectedEdge_<T, 2>| l.iter().position(|y| std::ptr::eq(x, y));
      let r: Vec<_> = segment_intersections(&l).map(|(a, b)| (at(a), at(b))).collect();
      format!("{r:?}")
    }
    7 => {
      let p = poly();
      let r: Vec<_> = earclip::earclip(&p).collect();
      format!("{r:?}")
    }
    8 => format!("{:?}", two_opt_moves(v(), &mut rng).map(|x| show(&x))),
    9 => {
      let mut p = poly();
      let r = resolve_self_intersections(&mut p, &mut rng);
      format!("{r:?} {}", show(&p))
    }
    10 => {
      let p = poly();
      let l: Vec<Point<T>> = p.iter().cloned().collect();
      let r: Vec<_> = earclip::triangulate_list(&l, p.boundary_slice(), rng.clone()).collect();
      format!("{r:?}")
    }
    11 => {
      let p = poly();
      let ids = p.boundary_slice();
      let n = ids.len();
      let mut set = IndexIntersectionSet::new(n);
      let e = |i: usize| IndexEdge::new(ids[i % n], ids[(i + 1) % n]);
      for i in 0..n {
        for k in i + 1..n {
          if (i + k + j.n) % 3 != 0 && e(i) != e(k) {
            set.push(IndexIntersection::new(e(i), e(k)));
          }
        }
      }
      let mut got = vec![];
      for _ in 0..6 {
        match set.random(&mut rng) {
          Some(x) => {
            set.remove_all(x.min);
            got.push(x);
          }
          None => break,
        }
      }
      format!("{got:?} {:?}", set.iter().collect::<Vec<_>>())
    }
    12 => {
      let p = poly();
      format!("{:?} {:?} {:?}", p.validate(), p.validate_weakly(), Polygon::new(v()).map(|x| show(&x)))
    }
    13 => {
      let p = poly();
      format!("{:?} {:?}", p.locate(&o()), p.orientation())
    }
    14 => {
      let p = poly();
      let b = p.bounding_box();
      format!("{b:?} {:?} {}", p.orientation(), p.is_monotone(&vec2::<T>([1, 0], &Emb::ID)))
    }
    15 => {
      let p = poly();
      let r: Vec<_> = p.iter_boundary().map(|c| (c.is_ear(), c.orientation())).collect();
      format!("{r:?}")
    }
    16 => {
      let mut p = Polygon::new_unchecked(v());
      let r = p.ensure_ccw();
      format!("{r:?} {}", show(&p))
    }
    17 => {
      let p = poly();
      let r: Vec<_> = p.triangulate().collect();
      format!("{r:?}")
    }
    _ => unreachable!(),
  };
  (out, rng.draws)
}
/// Calls that exist for some types only.
fn run_i64(j: &Job) -> (String, u64) {
  let mut rng = j.rng.clone();
  let out = match j.alg {
    18 => format!("{} {:?} {:?}", show(PolygonConvex::<i64>::random(j.n, &mut rng).polygon()), rng.gen::<Point<i64, 3>>(), rng.gen::<Vector<i8, 2>>()),
    19 => sample::<i64>(j, &mut rng),
    20 => hashed::<i64>(j, &rng),
    _ => return run::<i64>(j),
  };
  (out, rng.draws)
}
fn run_f64(j: &Job) -> (String, u64) {
  let mut rng = j.rng.clone();
  let out = match j.alg {
    18 => format!("{} {:?}", show(rng.gen::<PolygonConvex<isize>>().polygon()), rng.gen::<Point<f64, 2>>()),
    19 => sample::<f64>(j, &mut rng),
    20 => hashed::<f64>(j, &rng),
    _ => return run::<f64>(j),
  };
  (out, rng.draws)
}
fn run_i8(j: &Job) -> (String, u64) {
  let mut rng = j.rng.clone();
  let out = match j.alg {
    18 => show(PolygonConvex::<i8>::random(j.n, &mut rng).polygon()),
    19 => sample::<i8>(j, &mut rng),
    20 => hashed::<i8>(j, &rng),
    _ => return run::<i8>(j),
  };
  (out, rng.draws)
}
fn run_isize(j: &Job) -> (String, u64) {
  let mut rng = j.rng.clone();
  let out = match j.alg {
    18 => convex::<isize>(j, &mut rng),
    19 => sample::<isize>(j, &mut rng),
    20 => return run::<isize>(&Job { alg: 7, ..j.clone() }),
    _ => return run::<isize>(j),
  };
  (out, rng.draws)
}
fn convex<T: Sc + Bounded + SampleUniform>(j: &Job, rng: &mut Rg) -> String {
  show(PolygonConvex::<T>::random(j.n, rng).polygon())
}
fn sample<T: Sc + SampleUniform>(_j: &Job, rng: &mut Rg) -> String {
  let t = [pt::<T>([0, 0], &Emb::ID), pt([20, 3], &Emb::ID), pt([4, 17], &Emb::ID)];
  let view = TriangleView::new_ccw([&t[0], &t[1], &t[2]]);
  let r: Vec<_> = (0..4).map(|_| view.rejection_sampling(rng)).collect();
  format!("{r:?}")
}
fn hashed<T: Sc + ZHashable>(j: &Job, rng: &Rg) -> String {
  let p = shapes::polygon::<T>(&j.p, &j.e, j.store);
  let l: Vec<Point<T>> = p.iter().cloned().collect();
  let a: Vec<_> = earclip::earclip_hashed(&p).collect();
  let b: Vec<_> = earclip::triangulate_list_hashed(&l, p.boundary_slice(), rng.clone()).collect();
  format!("{a:?} {b:?}")
}
fn any<T: Sc>(j: &Job) -> (String, u64) {
  // the remaining calls need bounded or hashable types
  if j.alg >= 18 {
    return run::<T>(&Job { alg: if j.alg == 20 { 7 } else { 8 }, ..j.clone() });
  }
  run::<T>(j)
}

type Call = fn(&Job) -> (String, u64);
fn make<T: Sc>(s: &mut Src, thorough: bool) -> Option<Job> {
  let alg = s.below(ALGS.len());
  let nmax = if thorough { 40 } else { 20 };
  let p = if SIMPLE.contains(&alg) {
    gen::simple_polygon(s, nmax, s_range(alg))
  } else {
    let v = gen::points(s, nmax.min(if alg == 8 || alg == 9 { 14 } else { 20 }), alg == 8 || alg == 9);
    if v.len() < 3 {
      return None;
    }
    v
  };
  let o = gen::query_point(s, &p);
  let all: Vec<P> = p.iter().chain([&o]).copied().collect();
  let (lo, hi) = geo::bbox(&all);
  let e = emb::<T>(s, lo, hi)?;
  let store = shapes::store(s);
  let n = s.usize(3, 40);
  let rng = Rg::gen(s).limit(3_000_000);
  Some(Job { alg, p, o, n, store, e, rng })
}
fn s_range(_: usize) -> i64 {
  12
}
fn twice<T: Sc>(s: &mut Src, c: &mut Ctx, call: Call) -> R {
  let t = T::NAME;
  let Some(j) = make::<T>(s, c.thorough) else { return Ok(()) };
  let others: Vec<Job> = (0..s.below(3)).filter_map(|_| make::<T>(s, false)).collect();
  c.case(&(format!("{j:?}"), t, others.len()), || format!("{t}: {} on {:?} at {:?}, {} other calls between", ALGS[j.alg], j.p, j.o, others.len()));
  c.class(ALGS[j.alg]);
  c.class(t);
  let what = || format!("{t}: {} on {:?} at {:?} (stored {}, n {}, {:?})", ALGS[j.alg], j.p, j.o, j.store, j.n, j.e);
  // a panic is an outcome like any other here; other checks forbid it
  let once = |j: &Job| catching(|| call(j)).unwrap_or_else(|_| ("panic".to_string(), 0));
  let a = once(&j);
  c.nontrivial_if(a.0.len() > 40);
  c.class_if(a.1 > 0, "draws");
  let b = once(&j);
  ensure!(a == b, "two calls differ, {}: {a:?} and {b:?}", what());
  for k in &others {
    once(k);
  }
  let d = once(&j);
  ensure!(a == d, "differs after other calls ({:?}), {}: {a:?} and {d:?}", others.iter().map(|k| ALGS[k.alg]).collect::<Vec<_>>(), what());
  if s.chance(1, 8) {
    c.class("other-thread");
    let k = j.clone();
    let far = std::thread::spawn(move || {
      let r = catching(|| call(&k));
      r.unwrap_or_else(|_| ("panic".to_string(), 0))
    })
    .join()
    .map_err(|_| "the other thread died".to_string())?;
    ensure!(a == far, "differs in another thread, {}: {a:?} and {far:?}", what());
  }
  if DRAWS.contains(&j.alg) && a.1 > 0 {
    c.class("draws-by-the-algorithm");
  }
  Ok(())
}
fn calls(s: &mut Src, c: &mut Ctx) -> R {
  match s.weighted(&[6, 4, 2, 2, 1, 1, 1, 1, 1, 1, 1]) {
    0 => twice::<i64>(s, c, run_i64),
    1 => twice::<f64>(s, c, run_f64),
    2 => twice::<i8>(s, c, run_i8),
    3 => twice::<isize>(s, c, run_isize),
    4 => twice::<i16>(s, c, any::<i16>),
    5 => twice::<i32>(s, c, any::<i32>),
    6 => twice::<f32>(s, c, any::<f32>),
    7 => twice::<OrderedFloat<f64>>(s, c, any::<OrderedFloat<f64>>),
    8 => twice::<NotNan<f64>>(s, c, any::<NotNan<f64>>),
    9 => twice::<BigInt>(s, c, any::<BigInt>),
    _ => twice::<rug::Integer>(s, c, any::<rug::Integer>),
  }
}

/// Queries leave their argument as it was, also when they end early.
fn untouched(s: &mut Src, c: &mut Ctx) -> R {
  let p = gen::simple_polygon(s, 16, 12);
  let st = shapes::store(s);
  let poly = shapes::polygon::<i64>(&p, &Emb::ID, st);
  let o = gen::query_point(s, &p);
  let k = s.below(6);
  let before = show(&poly);
  c.case(&(&p, st, o, k), || format!("queries on {p:?} stored {st} at {o:?}, iterators dropped after {k}"));
  c.nontrivial_if(p.len() >= 4);
  let q = Point::new(o);
  let all = |poly: &Polygon<i64>| -> String {
    let t: Vec<_> = poly.triangulate().take(k).collect();
    let u: Vec<_> = earclip::earclip_hashed(poly).take(k).collect();
    let edges: Vec<_> = poly.iter_boundary_edges().take(k).collect();
    let list: Vec<DirectedEdge<'_, i64>> = poly.iter_boundary_edges().collect();
    let x = list.iter().take(k).count();
    format!(
      "{t:?} {u:?} {edges:?} {x} {:?} {:?} {:?} {:?} {:?} {}",
      poly.locate(&q),
      poly.validate(),
      poly.bounding_box(),
      catching(|| get_visibility_polygon(&q, poly).map(|x| show(&x))).ok(),
      poly.signed_area_2x::<BigInt>(),
      show(melkman::convex_hull(poly).polygon())
    )
  };
  let a = all(&poly);
  ensure_eq!(show(&poly), before, "after queries on {p:?}");
  let b = all(&poly);
  ensure_eq!(a, b, "queries on {p:?} at {o:?}");
  // taking a part first and the rest later is taking the whole
  let whole: Vec<_> = poly.triangulate().collect();
  let mut it = poly.triangulate();
  let mut got: Vec<_> = it.by_ref().take(k).collect();
  let mut other = earclip::earclip(&poly);
  other.next();
  got.extend(it);
  ensure_eq!(got, whole, "triangulation of {p:?} in two goes");
  Ok(())
}

static SPEC: Spec = Spec {
  id: "C29",
  rule: "One call of one of 21 algorithms on generated points or simple polygons (any storage order, 11 scalar types) with a random source of chosen first draws; made twice on separately built copies of the argument, again after up to two other calls, and in every eighth case in another thread; results compared to the last id, coordinate and draw. Queries on a polygon, with iterators abandoned part way, compared before and after. Non-trivial: a result with more than a handful of vertices (calls), at least four vertices (queries).",
  assumptions: &["random sources are deterministic and give the same stream when cloned"],
  parts: &[
    Part { name: "calls", quick: 360_000, thorough: 8_000_000, len: 130, run: calls },
    Part { name: "untouched", quick: 180_000, thorough: 2_000_000, len: 90, run: untouched },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
