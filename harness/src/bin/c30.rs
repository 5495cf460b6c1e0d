//! C30: operations cost no more than their growth class.
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::polygonization::*;
use rgeometry::algorithms::segment_intersections;
use rgeometry::algorithms::triangulation::earclip;
use rgeometry::algorithms::visibility::naive::get_visibility_polygon;
use rgeometry::data::*;
use vharness::cnt::{budget, Cnt};
use vharness::*;

/// The growth classes and the constants of the envelope, several times what the
/// operations need on this tree.
fn lg(n: usize) -> u64 {
  (usize::BITS - n.leading_zeros()) as u64 + 1
}
fn env(k: u64, f: u64) -> u64 {
  k * f + 40 * k + 400
}
/// Run under the envelope `k * f(n)`.
fn cost<T>(c: &mut Ctx, what: &'static str, n: usize, lim: u64, f: impl FnOnce() -> T) -> Result<T, String> {
  match catching(|| budget(lim, f)) {
    Ok((x, used)) => {
      c.class(what);
      if used * 2 > lim {
        c.class("over half of an envelope");
      }
      if std::env::var("C30_SHOW").is_ok() {
        eprintln!("SHOW {what} {n} {:.4}", used as f64 / lim as f64);
      }
      Ok(x)
    }
    Err(e) if e.contains("budget exceeded") => Err(format!("{what} on {n} vertices takes more than {lim} scalar operations")),
    Err(e) => Err(format!("{what} on {n} vertices panicked: {e}")),
  }
}
fn size(s: &mut Src, lo: usize, hi: usize) -> usize {
  // evenly over orders of magnitude
  let mut top = hi;
  for _ in 0..s.below(4) {
    if top / 3 > lo {
      top /= 3;
    }
  }
  s.usize(lo, top)
}

/// A convex polygon with up to 2n vertices: two parabolas.
fn bowl(s: &mut Src, n: usize) -> Vec<P> {
  let e = &mut s.expand();
  let n = n as i64;
  let keep = e.usize(1, 3);
  let mut p: Vec<P> = vec![];
  let both = e.flip();
  for x in -n..=n {
    if x.abs() == n || x == 0 || e.below(keep) == 0 {
      p.push([x, x * x]);
    }
  }
  if both {
    for x in (-n + 1..n).rev() {
      if e.below(keep) == 0 {
        p.push([x, 2 * n * n - x * x]);
      }
    }
  }
  let t = s.below(4);
  for q in p.iter_mut() {
    for _ in 0..t {
      *q = [-q[1], q[0]];
    }
  }
  let k = s.below(p.len());
  p.rotate_left(k);
  p
}

fn convex(s: &mut Src, c: &mut Ctx) -> R {
  let n = size(s, 4, if c.thorough { 60_000 } else { 12_000 });
  let p = bowl(s, n);
  let m = p.len();
  let poly = Polygon::new_unchecked(pts::<Cnt>(&p, &Emb::ID));
  let cv = PolygonConvex::new_unchecked(poly);
  let qs: Vec<P> = (0..12).map(|_| gen::query_point(s, &p)).collect();
  c.case(&(m, &qs), || format!("convex polygon of {m} vertices, queries {qs:?}"));
  c.nontrivial_if(m >= 64);
  let (lo, hi) = geo::bbox(&p);
  for q in &qs {
    let q = pt::<Cnt>(*q, &Emb::ID);
    cost(c, "convex locate", m, env(K_LOC, lg(m)), || cv.locate(&q))?;
  }
  // constant time access
  let ids = cv.boundary_slice().to_vec();
  for _ in 0..4 {
    let i = s.below(m);
    let (x, y) = cost(c, "access by id", m, 60, || {
      let k = cv.cursor(ids[i]);
      let _ = (k.prev().point(), k.next().point(), k.point_id(), cv.point(ids[i]));
      (k.point().array[0].0, k.point().array[1].0)
    })?;
    ensure_eq!([x, y], p[i], "vertex {i}");
  }
  let poly = cv.polygon();
  let a = cost(c, "area", m, env(K_LIN, m as u64), || poly.signed_area_2x::<Cnt>())?;
  ensure_eq!(a.0 as i128, geo::area2(&p), "area");
  cost(c, "orientation", m, env(K_LIN, m as u64), || poly.orientation())?;
  let b = cost(c, "bounding box", m, env(K_LIN, m as u64), || poly.bounding_box())?;
  ensure_eq!([[b.0.array[0].0, b.0.array[1].0], [b.1.array[0].0, b.1.array[1].0]], [lo, hi], "bounding box");
  cost(c, "locate", m, env(K_LIN, m as u64), || poly.locate(&pt::<Cnt>(qs[0], &Emb::ID)))?;
  let i = s.below(m);
  cost(c, "ear test", m, env(K_LIN, m as u64), || poly.cursor(ids[i]).is_ear())?;
  cost(c, "vertex turn", m, 200, || poly.cursor(ids[i]).orientation())?;
  cost(c, "vertex test", m, 200, || poly.cursor(ids[i]).is_colinear())?;
  cost(c, "clone", m, env(K_LIN, m as u64), || poly.clone())?;
  let mut back = Polygon::new_unchecked(pts::<Cnt>(&p.iter().rev().copied().collect::<Vec<_>>(), &Emb::ID));
  let r = cost(c, "ensure_ccw", m, env(K_LIN, m as u64), || back.ensure_ccw())?;
  ensure!(r.is_ok(), "ensure_ccw of a convex polygon: {r:?}");
  let h = cost(c, "melkman", m, env(K_LIN, m as u64), || melkman::convex_hull(poly))?;
  ensure_eq!(h.boundary_slice().len(), m, "hull of a convex polygon");
  cost(c, "monotone test", m, env(K_LIN, m as u64), || poly.is_monotone(&vec2::<Cnt>([0, 1], &Emb::ID)))?;
  Ok(())
}

/// Big point lists of several distributions.
fn cloud(s: &mut Src, n: usize) -> (Vec<P>, &'static str) {
  let fam = s.below(9);
  let e = &mut s.expand();
  let m = n as i64;
  let mut p: Vec<P> = match fam {
    0 | 1 => (0..n).map(|_| [e.sym(1 << 20), e.sym(1 << 20)]).collect(),
    2 => (0..n).map(|_| [e.sym(9), e.sym(9)]).collect(),
    3 => (0..m).map(|i| [i, 3 * i]).collect(),
    4 => (0..m).map(|i| [i - m / 2, (i - m / 2) * (i - m / 2)]).collect(),
    5 => (0..n).map(|_| [e.sym(2), e.sym(1 << 20)]).collect(),
    6 => vec![[3, 4]; n],
    7 => {
      // few angles, many distances
      (0..n).map(|_| { let k = e.range(0, 1 << 12); let d = e.pick(&[[1, 0], [1, 1], [0, 1], [2, 1], [5, 3]]); [d[0] * k, d[1] * k] }).collect()
    }
    _ => (0..m).map(|i| [i * (m - i), i]).collect(),
  };
  if fam == 3 && e.flip() && n > 2 {
    let l = p.len() - 1;
    p[l] = [0, 7];
  }
  match e.below(3) {
    0 => e.shuffle(&mut p),
    1 => p.reverse(),
    _ => {}
  }
  (p, ["spread", "spread", "grid with repeats", "one line", "parabola", "few columns", "one point", "few angles", "arch"][fam])
}
fn hulls(s: &mut Src, c: &mut Ctx) -> R {
  let n = size(s, 3, if c.thorough { 20_000 } else { 4_000 });
  let (p, fam) = cloud(s, n);
  c.case(&p, || format!("{n} points, {fam}, starting {:?}", &p[..n.min(6)]));
  c.class(fam);
  c.nontrivial_if(n >= 64);
  let want = geo::hull(&p);
  let v = pts::<Cnt>(&p, &Emb::ID);
  let r = cost(c, "graham scan", n, env(K_GRAHAM, n as u64 * lg(n)), || graham_scan::convex_hull(v))?;
  let h = r.map(|h| h.boundary_slice().len()).unwrap_or(0);
  ensure_eq!(h, if want.len() >= 3 { want.len() } else { 0 }, "hull of {n} points ({fam})");
  let k = n.min(if want.len() > 100 { 400 } else { 4_000 });
  let p = &p[..k];
  let hn = geo::hull(p).len().max(2);
  let v = pts::<Cnt>(p, &Emb::ID);
  // each hull vertex costs one look at every point
  cost(c, "gift wrapping", k, env(K_GIFT, k as u64 * hn as u64 + k as u64 * lg(k)), || gift_wrapping::convex_hull(v))?.ok();
  Ok(())
}

fn simple(s: &mut Src, c: &mut Ctx) -> R {
  let n = size(s, 12, if c.thorough { 700 } else { 350 });
  let p = if n < 210 { gen::simple_polygon(s, n, 200) } else { gen::huge_polygon(s, n, 200) };
  let st = shapes::store(s);
  let n = p.len();
  let poly = shapes::polygon::<Cnt>(&p, &Emb::ID, st);
  let rng = Rg::gen(s);
  let q = gen::query_point(s, &p);
  c.case(&(&p, st, q), || format!("polygon of {n} vertices starting {:?}, stored {st}, viewed from {q:?}", &p[..n.min(6)]));
  c.nontrivial_if(n >= 32);
  let n2 = (n * n) as u64;
  let v = pts::<Cnt>(&p, &Emb::ID);
  let r = cost(c, "Polygon::new", n, env(K_NEW, n2), || Polygon::new(v))?;
  ensure!(r.is_ok(), "simple polygon {p:?} rejected: {r:?}");
  cost(c, "validate", n, env(K_NEW, n2), || poly.validate())?.map_err(|e| format!("{e:?} for {p:?}"))?;
  let t = cost(c, "earclip", n, env(K_EAR, n2), || earclip::earclip(&poly).count())?;
  ensure_eq!(t, n - 2, "triangles of {p:?}");
  let t = cost(c, "Polygon::triangulate", n, env(K_EAR, n2), || poly.triangulate().count())?;
  ensure_eq!(t, n - 2, "triangles of {p:?}");
  let list: Vec<Point<Cnt>> = poly.iter().cloned().collect();
  let t = cost(c, "triangulate_list", n, env(K_EAR, n2), || earclip::triangulate_list(&list, poly.boundary_slice(), rng.clone()).count())?;
  ensure_eq!(t, n - 2, "triangles of {p:?}");
  let t = cost(c, "earclip_hashed", n, env(K_EAR, n2), || earclip::earclip_hashed(&poly).count())?;
  ensure_eq!(t, n - 2, "triangles of {p:?}");
  let t = cost(c, "triangulate_list_hashed", n, env(K_EAR, n2), || earclip::triangulate_list_hashed(&list, poly.boundary_slice(), rng.clone()).count())?;
  ensure_eq!(t, n - 2, "triangles of {p:?}");
  let q = pt::<Cnt>(q, &Emb::ID);
  cost(c, "locate", n, env(K_LIN, n as u64), || poly.locate(&q))?;
  cost(c, "melkman", n, env(K_LIN, n as u64), || melkman::convex_hull(&poly))?;
  let i = s.below(n);
  cost(c, "ear test", n, env(K_LIN, n as u64), || poly.cursor(poly.boundary_slice()[i]).is_ear())?;
  cost(c, "monotone test", n, env(K_LIN, n as u64), || poly.is_monotone(&vec2::<Cnt>([1, 3], &Emb::ID)))?;
  let edges: Vec<DirectedEdge<'_, Cnt>> = poly.iter_boundary_edges().collect();
  let x = cost(c, "segment intersections", n, env(K_SEG, n2), || segment_intersections(&edges).count())?;
  ensure_eq!(x, 0, "crossings of {p:?}");
  // viewing works on exact numbers; count operations on counted ones only for few vertices
  let o = q;
  let far: Result<_, String> = catching(|| budget(env(K_VIS, n2), || get_visibility_polygon(&o, &poly)));
  match far {
    Err(e) if e.contains("budget exceeded") => return Err(format!("visibility on {n} vertices takes more than {} scalar operations: {p:?}", env(K_VIS, n2))),
    // rounded intersection points may not form a polygon
    Err(_) => c.class("visibility inexact"),
    Ok((_, used)) => {
      c.class("visibility");
      if std::env::var("C30_SHOW").is_ok() {
        eprintln!("SHOW visibility {n} {:.4}", used as f64 / env(K_VIS, n2) as f64);
      }
    }
  }
  let v = pts::<Cnt>(&p, &Emb::ID);
  cost(c, "monotone polygon", n, env(K_NEW, n2), || new_monotone_polygon(v, &vec2::<Cnt>([1, 2], &Emb::ID)))?.ok();
  let v = pts::<Cnt>(&p, &Emb::ID);
  cost(c, "star polygon", n, env(K_NEW, n2), || new_star_polygon(v, &o))?.ok();
  Ok(())
}

fn untangle(s: &mut Src, c: &mut Ctx) -> R {
  let n = size(s, 5, if c.thorough { 60 } else { 36 });
  let e = &mut s.expand();
  let m = s.pick(&[6i64, 20, 1000]);
  let mut p: Vec<P> = vec![];
  while p.len() < n {
    let q = [e.sym(m), e.sym(m)];
    if p.contains(&q) && (p.len() as i64) < m * m {
      continue;
    }
    p.push(q);
  }
  p.sort();
  p.dedup();
  e.shuffle(&mut p);
  let n = p.len();
  if n < 3 {
    return Ok(());
  }
  let mut rng = Rg::gen(s);
  c.case(&(&p, format!("{rng:?}")), || format!("{n} points {p:?}"));
  c.nontrivial_if(n >= 12);
  let n4 = (n as u64).pow(4);
  let v = pts::<Cnt>(&p, &Emb::ID);
  let r = cost(c, "two_opt_moves", n, env(K_TWO, n4), || two_opt_moves(v, &mut rng))?;
  ensure_eq!(r.is_ok(), !geo::all_colinear(&p), "two_opt_moves of {p:?}: {r:?}");
  Ok(())
}

/// Random convex polygons draw a number of values proportional to their size.
fn random(s: &mut Src, c: &mut Ctx) -> R {
  let n = size(s, 3, if c.thorough { 20_000 } else { 3_000 });
  let t = s.below(3);
  let mut rng = Rg::seeded(s.raw64());
  c.case(&(n, t, format!("{rng:?}")), || format!("random convex polygon from {n} vectors"));
  c.nontrivial_if(n >= 64);
  let m = match t {
    0 => PolygonConvex::<i64>::random(n, &mut rng).boundary_slice().len(),
    1 => PolygonConvex::<i32>::random(n, &mut rng).boundary_slice().len(),
    _ => PolygonConvex::<isize>::random(n, &mut rng).boundary_slice().len(),
  };
  c.class("random convex polygon");
  ensure!(m <= n, "{m} vertices from {n} vectors");
  // two lists of n values, shuffled; a colinear or rejected try is repeated
  let lim = 200 * n as u64 + 20_000;
  ensure!(rng.draws <= lim, "a random polygon of {n} vectors drew {} numbers (limit {lim})", rng.draws);
  Ok(())
}
const K_LOC: u64 = 20;
const K_LIN: u64 = 100;
const K_GRAHAM: u64 = 40;
const K_GIFT: u64 = 20;
const K_NEW: u64 = 40;
const K_EAR: u64 = 40;
const K_SEG: u64 = 40;
const K_VIS: u64 = 200;
const K_TWO: u64 = 5;

static SPEC: Spec = Spec {
  id: "C30",
  rule: "Convex polygons of up to 48000 vertices, point lists of up to 4000 (nine distributions), simple polygons of up to 350 in any storage order, tangled lists of up to 36, over integers that count every operation on them; random convex polygons of up to 3000 vectors over a source that counts draws. Each operation runs under an envelope of a constant times its growth class: constant (access by id, turn of a vertex), logarithmic (locating in a convex polygon), linear (area, orientation, bounding box, locate, ear test, copying, ensuring order, monotone test, Melkman), n log n (Graham), n times hull size (gift wrapping), quadratic (construction, validation, ear clipping, segment intersections, visibility, monotone and star polygons), fourth power (two-opt moves). Non-trivial: at least 64 vertices (convex, hulls, random), 32 (simple), 12 (untangle).",
  assumptions: &[
    "a growth class is checked through its envelope, whose constant is about eight times (4 to 60 times) what the operation needs now, at sizes where the next class up exceeds it many times",
    "work that touches no coordinate and draws nothing is not counted",
  ],
  parts: &[
    Part { name: "convex", quick: 15_000, thorough: 120000, len: 90, run: convex },
    Part { name: "hulls", quick: 37_000, thorough: 300000, len: 40, run: hulls },
    Part { name: "simple", quick: 20_000, thorough: 160000, len: 200, run: simple },
    Part { name: "untangle", quick: 100_000, thorough: 800000, len: 60, run: untangle },
    Part { name: "random", quick: 15_000, thorough: 120000, len: 12, run: random },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
