//! C21: polygon navigation, iteration and mapping preserve the boundary cycle.
use num::{BigInt, BigRational};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::*;
use rgeometry::TotalOrd;
use std::collections::VecDeque;
use std::ops::Bound;
use vharness::*;

/// Vertex lists need not be simple for navigation; repeats are allowed.
fn cycle(s: &mut Src, nmax: usize) -> Vec<P> {
  if nmax > 100 {
    let mut e = s.expand();
    if s.flip() {
      return gen::huge_polygon(&mut e, nmax, 1000);
    }
    let n = s.usize(nmax / 2, nmax);
    return (0..n).map(|_| [e.sym(100), e.sym(100)]).collect();
  }
  match s.weighted(&[4, 3, 2]) {
    0 => {
      let n = s.usize(1, nmax);
      let m = s.pick(&[3i64, 1, 20, 100]);
      (0..n).map(|_| [s.sym(m), s.sym(m)]).collect()
    }
    1 => gen::simple_polygon(s, nmax.max(4), 8),
    // periodic: equal up to several rotations
    _ => {
      let k = s.usize(1, 4);
      let b: Vec<P> = (0..k).map(|_| [s.sym(2), s.sym(2)]).collect();
      let r = s.usize(1, (nmax / k).max(1));
      let mut v: Vec<P> = (0..r).flat_map(|_| b.clone()).collect();
      if s.flip() {
        let i = s.below(v.len());
        v[i] = [s.sym(2), s.sym(2)];
      }
      v
    }
  }
}
fn store(s: &mut Src, n: usize) -> u64 {
  if n < 3 {
    0
  } else {
    shapes::store(s)
  }
}
/// The model: ids in boundary order, canonical point of every id.
fn model<T: Sc>(poly: &Polygon<T>, e: &Emb) -> Result<(Vec<PointId>, Vec<P>), String> {
  Ok((poly.boundary_slice().to_vec(), ring(poly, e)?))
}
type Cy<'a, T> = (PointId, &'a Point<T>);
fn see<'a, T>(c: Option<Cursor<'a, T>>) -> Option<Cy<'a, T>> {
  c.map(|c| (c.point_id(), c.point()))
}

/// Any mixture of calls on any range iterator against a deque.
fn iterate<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  iterate_n::<T>(s, c, 14)
}
fn iterate_n<T: Sc>(s: &mut Src, c: &mut Ctx, nmax: usize) -> R {
  let p = cycle(s, nmax);
  let n = p.len();
  let (lo, hi) = geo::bbox(&p);
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let st = store(s, n);
  let poly = shapes::polygon::<T>(&p, &e, st);
  let ids = poly.boundary_slice().to_vec();
  let (a, b) = (s.below(n), s.below(n));
  let kind = s.below(4);
  let (ca, cb) = (poly.cursor(ids[a]), poly.cursor(ids[b]));
  let cyc = |from: usize, k: usize| -> VecDeque<PointId> { (0..k).map(|i| ids[(from + i) % n]).collect() };
  let dist = (b + n - a) % n;
  let (mut it, mut want) = match kind {
    0 => (poly.iter_boundary(), cyc(0, n)),
    1 => (ca.to(Bound::Unbounded), cyc(a, n)),
    2 => (ca.to(Bound::Included(cb)), cyc(a, dist + 1)),
    _ if a == b => (poly.iter_boundary(), cyc(0, n)),
    _ => (ca.to(Bound::Excluded(cb)), cyc(a, dist)),
  };
  let full = want.len();
  let ops: Vec<usize> = (0..s.usize(0, 20)).map(|_| s.weighted(&[5, 5, 2, 1, 1, 1, 1])).collect();
  c.case(&(&p, &e, st, kind, a, b, &ops, T::NAME), || {
    format!("{} ring of {n} stored {ids:?}, range {kind} from {a} to {b}, calls {ops:?}", T::NAME)
  });
  c.class(T::NAME);
  c.class_if(ops.contains(&1), "from-the-back");
  c.class_if(full < n, "sub-range");
  c.nontrivial_if(n >= 3 && ops.len() >= 3);
  let pt_of = |i: PointId| (i, poly.point(i));
  let t = T::NAME;
  let about = || format!("{t}: ring {p:?} stored {ids:?}, range {kind} from {a} to {b}, calls {ops:?}");
  for (k, op) in ops.iter().enumerate() {
    ensure_eq!(it.len(), want.len(), "{}: length before call {k}", about());
    ensure_eq!(it.size_hint(), (want.len(), Some(want.len())), "{}: size hint before call {k}", about());
    match op {
      0 => ensure_eq!(see(it.next()), want.pop_front().map(pt_of), "{}: next, call {k}", about()),
      1 => ensure_eq!(see(it.next_back()), want.pop_back().map(pt_of), "{}: next_back, call {k}", about()),
      2 => {
        let got: Vec<_> = it.clone().map(|x| x.point_id()).collect();
        ensure_eq!(VecDeque::from(got), want, "{}: the rest, call {k}", about());
      }
      3 => {
        let mut got: Vec<_> = it.clone().rev().map(|x| x.point_id()).collect();
        got.reverse();
        ensure_eq!(VecDeque::from(got), want, "{}: the rest in reverse, call {k}", about());
      }
      4 => {
        let j = k % 3;
        let got = see(it.nth(j));
        for _ in 0..j {
          want.pop_front();
        }
        ensure_eq!(got, want.pop_front().map(pt_of), "{}: nth {j}, call {k}", about());
      }
      5 => {
        let j = k % 3;
        let got = see(it.nth_back(j));
        for _ in 0..j {
          want.pop_back();
        }
        ensure_eq!(got, want.pop_back().map(pt_of), "{}: nth_back {j}, call {k}", about());
      }
      // iterators are equal when they yield equal points
      _ => {
        let other = poly.iter_boundary();
        let same = want.len() == n && (0..n).all(|i| poly.point(want[i]) == poly.point(ids[i]));
        ensure_eq!(it == other, same, "{}: equal to the whole boundary, call {k}", about());
        ensure!(it == it.clone(), "{}: not equal to its clone, call {k}", about());
      }
    }
  }
  ensure_eq!(it.len(), want.len(), "{}: length at the end", about());
  let got: Vec<_> = it.take(3 * n + 3).map(|x| x.point_id()).collect();
  ensure_eq!(VecDeque::from(got), want, "{}: what is left", about());
  Ok(())
}

/// Cursors, lookups, edges.
fn lookup<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  lookup_n::<T>(s, c, 14)
}
fn lookup_n<T: Sc>(s: &mut Src, c: &mut Ctx, nmax: usize) -> R {
  let p = cycle(s, nmax);
  let n = p.len();
  let (lo, hi) = geo::bbox(&p);
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let st = store(s, n);
  let mut poly = shapes::polygon::<T>(&p, &e, st);
  let t = T::NAME;
  let flip = geo::is_simple(&p) && s.flip();
  if flip {
    // in-place reversal of the boundary
    let mut r = p.clone();
    r.reverse();
    poly = shapes::polygon::<T>(&r, &e, st);
    if geo::area2(&r) < 0 {
      let before: Vec<Point<T>> = poly.iter().cloned().collect();
      ensure_eq!(poly.ensure_ccw(), Ok(()), "{t}: ensure_ccw of {r:?}");
      let after: Vec<Point<T>> = poly.iter().cloned().collect();
      ensure_eq!(after, before, "{t}: ensure_ccw moves points of {r:?}");
      let now = ring(&poly, &e)?;
      ensure!(geo::cyc_eq(&now, &p), "{t}: ensure_ccw turns {r:?} into {now:?}");
    }
  }
  let (ids, r) = model(&poly, &e)?;
  c.case(&(&p, &e, st, flip, t), || format!("{t} ring {r:?} stored {ids:?}"));
  c.class(t);
  c.class_if(flip, "reversed-in-place");
  c.nontrivial_if(n >= 3);
  let about = || format!("{t}: ring {r:?} stored {ids:?}");
  // ids are the storage slots, each used once
  let mut u: Vec<usize> = ids.iter().map(|i| i.usize()).collect();
  u.sort();
  ensure_eq!(u, (0..n).collect::<Vec<_>>(), "{}: ids", about());
  let stored: Vec<&Point<T>> = poly.iter().collect();
  ensure_eq!(stored.len(), n, "{}: iter", about());
  for (k, id) in ids.iter().enumerate() {
    ensure_eq!(usize::from(*id), id.usize(), "{}: id as usize", about());
    ensure_eq!(stored[id.usize()], poly.point(*id), "{}: iter and point({id:?})", about());
    let cur = poly.cursor(*id);
    ensure_eq!(cur.point_id(), *id, "{}: cursor({id:?})", about());
    ensure_eq!(cur.point(), poly.point(*id), "{}: cursor({id:?})", about());
    ensure_eq!(cur.array, poly.point(*id).array, "{}: coordinates through cursor({id:?})", about());
    ensure_eq!(cur.next().point_id(), ids[(k + 1) % n], "{}: next of {id:?}", about());
    ensure_eq!(cur.prev().point_id(), ids[(k + n - 1) % n], "{}: prev of {id:?}", about());
    ensure!(cur.next().prev() == cur && cur.prev().next() == cur, "{}: next and prev of {id:?}", about());
    let mut m = cur;
    for step in 1..=2 * n {
      if k % 2 == 0 {
        m.move_next();
        ensure_eq!(m.point_id(), ids[(k + step) % n], "{}: {step} steps on from {id:?}", about());
      } else {
        m.move_prev();
        ensure_eq!(m.point_id(), ids[(k + 2 * n - step) % n], "{}: {step} steps back from {id:?}", about());
      }
    }
    for (l, other) in ids.iter().enumerate() {
      let o = poly.cursor(*other);
      ensure_eq!(cur == o, k == l, "{}: cursors {id:?} and {other:?} equal", about());
      ensure_eq!(cur.total_cmp(&o), r[k].cmp(&r[l]), "{}: order of cursors {id:?} and {other:?}", about());
    }
    if n >= 3 {
      let nx = ids[(k + 1) % n];
      for edge in [IndexEdge::new(*id, nx), IndexEdge::new(nx, *id)] {
        ensure_eq!((edge.min, edge.max), (*id.min(&nx), *id.max(&nx)), "{}: edge {id:?}-{nx:?}", about());
        let d = poly.direct(edge);
        ensure_eq!((d.src, d.dst), (*id, nx), "{}: direction of edge {id:?}-{nx:?}", about());
        ensure!(IndexEdge::from(d) == edge, "{}: undirected edge of {d:?}", about());
      }
    }
  }
  if n >= 4 {
    let k = s.below(n);
    let l = (k + 2 + s.below(n - 3)) % n;
    let edge = IndexEdge::new(ids[k], ids[l]);
    ensure!(catching(|| poly.direct(edge)).is_err(), "{}: {edge:?} is not an edge", about());
  }
  let edges: Vec<[P; 2]> = poly
    .iter_boundary_edges()
    .take(3 * n)
    .map(|x| Ok([back(x.src, &e).ok_or("edge of unknown points")?, back(x.dst, &e).ok_or("edge of unknown points")?]))
    .collect::<Result<_, String>>()?;
  let want: Vec<[P; 2]> = (0..n).map(|k| [r[k], r[(k + 1) % n]]).collect();
  ensure_eq!(edges, want, "{}: edges", about());
  Ok(())
}

/// Every lookup by id agrees with the boundary order `ids`.
fn lookups<T: Sc>(poly: &Polygon<T>, ids: &[PointId], what: &str) -> R {
  let n = ids.len();
  ensure_eq!(poly.boundary_slice(), ids, "{what}: ids");
  for (k, id) in ids.iter().enumerate() {
    let cur = poly.cursor(*id);
    let (nx, pv) = (ids[(k + 1) % n], ids[(k + n - 1) % n]);
    ensure_eq!(cur.point_id(), *id, "{what}: cursor({id:?})");
    ensure_eq!(cur.point(), poly.point(*id), "{what}: point of cursor({id:?})");
    ensure_eq!((cur.prev().point_id(), cur.next().point_id()), (pv, nx), "{what}: neighbours of {id:?}");
    if n >= 3 {
      let d = poly.direct(IndexEdge::new(*id, nx));
      ensure_eq!((d.src, d.dst), (*id, nx), "{what}: direction of edge {id:?}-{nx:?}");
    }
    let around: Vec<PointId> = cur.to(std::ops::Bound::Unbounded).take(2 * n).map(|x| x.point_id()).collect();
    let want: Vec<PointId> = (0..n).map(|j| ids[(k + j) % n]).collect();
    ensure_eq!(around, want, "{what}: around from {id:?}");
  }
  Ok(())
}

/// Clones, maps and casts keep ids, order and everything else.
fn mapping<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  mapping_n::<T>(s, c, 14)
}
fn mapping_n<T: Sc>(s: &mut Src, c: &mut Ctx, nmax: usize) -> R {
  let p = cycle(s, nmax);
  let n = p.len();
  let (lo, hi) = geo::bbox(&p);
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let st = store(s, n);
  let poly = shapes::polygon::<T>(&p, &e, st);
  let (ids, r) = model(&poly, &e)?;
  let t = T::NAME;
  c.case(&(&p, &e, st, t), || format!("{t} ring {r:?} stored {ids:?}, mapped"));
  c.class(t);
  c.nontrivial_if(n >= 3);
  let about = || format!("{t}: ring {r:?} stored {ids:?}");
  let z = poly.clone();
  ensure_eq!(model(&z, &e)?, (ids.clone(), r.clone()), "{}: clone", about());
  ensure!(z.equals(&poly), "{}: clone not equal", about());
  lookups(&z, &ids, &format!("{}: clone", about()))?;
  // to plain numbers, and further
  let q: Polygon<i64> = poly.clone().map(|x| x.int(&e).map(|v| ((v as u128) % 1_000_003) as i64).unwrap_or(-1));
  ensure_eq!(q.boundary_slice().to_vec(), ids, "{}: ids after map", about());
  for (k, id) in ids.iter().enumerate() {
    let f = |a: usize| {
      let v = r[k][a] as i128 * e.mul + e.add[a];
      ((v as u128) % 1_000_003) as i64
    };
    ensure_eq!(q.point(*id).array, [f(0), f(1)], "{}: map at {id:?}", about());
    ensure_eq!(q.cursor(*id).next().point_id(), ids[(k + 1) % n], "{}: next of {id:?} after map", about());
  }
  lookups(&q, &ids, &format!("{}: map", about()))?;
  // swapping the coordinates of every point, by value and in place
  let w = poly.clone().map_points(|x| {
    let [a, b] = x.array;
    Point::new([b, a])
  });
  let mut v = poly.clone();
  let mut count = 0;
  for x in v.iter_mut() {
    x.array.swap(0, 1);
    count += 1;
  }
  ensure_eq!(count, n, "{}: iter_mut", about());
  for m in [&w, &v] {
    lookups(m, &ids, &format!("{}: swapping coordinates", about()))?;
    for id in &ids {
      let [a, b] = poly.point(*id).array.clone();
      ensure_eq!(m.point(*id).array, [b, a], "{}: point {id:?} after swapping coordinates", about());
    }
  }
  // casts
  let small: Polygon<i8> = q.clone().map(|x| (x % 128) as i8);
  let want = |f: &dyn Fn(i8) -> f64| -> Vec<[f64; 2]> {
    ids.iter().map(|i| small.point(*i).array.map(|x| f(x))).collect()
  };
  let plain = want(&|x| x as f64);
  macro_rules! cast {
    ($($u:ty, $un:expr;)*) => { $( {
      let u: Polygon<$u> = small.clone().cast();
      let got: Vec<[f64; 2]> = u.iter_boundary().map(|k| k.point().array.clone().map($un)).collect();
      ensure_eq!(got, plain, "{}: cast to {}", about(), stringify!($u));
      lookups(&u, &ids, &format!("{}: cast to {}", about(), stringify!($u)))?;
    } )* };
  }
  cast! {
    i64, |x| x as f64;
    f64, |x| x;
    f32, |x| x as f64;
    OrderedFloat<f64>, |x| x.into_inner();
    NotNan<f32>, |x| x.into_inner() as f64;
    BigInt, |x| num::ToPrimitive::to_f64(&x).unwrap();
  }
  let fl = small.clone().float();
  let got: Vec<[f64; 2]> = fl.iter_boundary().map(|k| k.point().array.map(|x| x.into_inner())).collect();
  ensure_eq!(got, plain, "{}: float", about());
  lookups(&fl, &ids, &format!("{}: float", about()))?;
  let cv = PolygonConvex::new_unchecked(small.clone());
  ensure_eq!(cv.boundary_slice().to_vec(), ids, "{}: as convex polygon", about());
  ensure_eq!(cv.polygon().boundary_slice().to_vec(), ids, "{}: as convex polygon", about());
  ensure!(Polygon::from(cv.clone()).equals(&small) && cv.polygon().equals(&small), "{}: as convex polygon", about());
  lookups(cv.polygon(), &ids, &format!("{}: convex", about()))?;
  let cf = cv.float();
  lookups(cf.polygon(), &ids, &format!("{}: float of convex", about()))?;
  let got: Vec<[f64; 2]> = cf.iter_boundary().map(|k| k.point().array.map(|x| x.into_inner())).collect();
  ensure_eq!(got, plain, "{}: float of the convex polygon", about());
  Ok(())
}

/// Equality is equality of cyclic vertex sequences.
fn equality<T: Sc>(s: &mut Src, c: &mut Ctx) -> R {
  equality_n::<T>(s, c, 12)
}
fn equality_n<T: Sc>(s: &mut Src, c: &mut Ctx, nmax: usize) -> R {
  let p = cycle(s, nmax);
  let n = p.len();
  let mut q = p.clone();
  let k = s.below(n);
  q.rotate_left(k);
  let how = s.below(6);
  match how {
    0 | 1 => {}
    2 => q.reverse(),
    3 => {
      let i = s.below(n);
      q[i] = [q[i][0] + s.sym(1), q[i][1] + s.sym(1)];
    }
    4 => {
      let (i, j) = (s.below(n), s.below(n));
      q.swap(i, j);
    }
    _ => {
      let i = s.below(n);
      if s.flip() && n > 1 {
        q.remove(i);
      } else {
        q.insert(i, q[i]);
      }
    }
  }
  let all: Vec<P> = p.iter().chain(&q).copied().collect();
  let (lo, hi) = geo::bbox(&all);
  let Some(e) = emb::<T>(s, lo, hi) else { return Ok(()) };
  let (s1, s2) = (store(s, n), store(s, q.len()));
  let a = shapes::polygon::<T>(&p, &e, s1);
  let mut b = shapes::polygon::<T>(&q, &e, s2);
  if s2 == 0 {
    let mut v = pts::<T>(&q, &e);
    if shapes::negative_zeros(s, &mut v) {
      b = Polygon::new_unchecked(v);
    }
  }
  let want = geo::cyc_eq(&p, &q);
  c.case(&(&p, &q, &e, s1, s2, T::NAME), || format!("{} {p:?} equals {q:?}? (stored {s1}, {s2})", T::NAME));
  c.class(T::NAME);
  c.class(if want { "equal" } else { "different" });
  c.nontrivial_if(n >= 3);
  ensure_eq!(a.equals(&b), want, "{}: {p:?} equals {q:?}", T::NAME);
  ensure_eq!(b.equals(&a), want, "{}: {q:?} equals {p:?}", T::NAME);
  let (x, y) = (a.iter_boundary(), b.iter_boundary());
  let seq = ring(&a, &e)? == ring(&b, &e)?;
  ensure_eq!(x == y, seq, "{}: boundary iterators of {p:?} and {q:?}", T::NAME);
  Ok(())
}
macro_rules! dispatch {
  ($name:ident, $f:ident) => {
    fn $name(s: &mut Src, c: &mut Ctx) -> R {
      let f = [
        $f::<i64>,
        $f::<i8>,
        $f::<f64>,
        $f::<i16>,
        $f::<i32>,
        $f::<isize>,
        $f::<f32>,
        $f::<OrderedFloat<f64>>,
        $f::<OrderedFloat<f32>>,
        $f::<NotNan<f64>>,
        $f::<NotNan<f32>>,
        $f::<BigInt>,
        $f::<BigRational>,
        $f::<rug::Integer>,
      ];
      f[s.weighted(&[6, 4, 6, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2])](s, c)
    }
  };
}
dispatch!(iterate_types, iterate);
dispatch!(lookup_types, lookup);
dispatch!(mapping_types, mapping);
dispatch!(equality_types, equality);

/// Every ring size up to 7, every range, every sequence of six calls from front or back.
fn ranges(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let n = 1 + (i % 7) as usize;
  i /= 7;
  let (a, b) = ((i % 7) as usize % n, (i / 7 % 7) as usize % n);
  i /= 49;
  let calls = i % 256;
  let p: Vec<P> = (0..n as i64).map(|k| [k, k * k]).collect();
  let poly = shapes::polygon::<i64>(&p, &Emb::ID, if n >= 3 { 2 + i % 3 } else { 0 });
  let ids = poly.boundary_slice().to_vec();
  c.case(&(n, a, b, calls), || format!("ring of {n}, from {a} to {b}, ends {calls:08b}"));
  c.nontrivial_if(n >= 3);
  let (ca, cb) = (poly.cursor(ids[a]), poly.cursor(ids[b]));
  let k = (b + n - a) % n;
  for (what, mut it, len) in [
    ("included", ca.to(Bound::Included(cb)), k + 1),
    ("unbounded", ca.to(Bound::Unbounded), n),
    ("excluded", ca.to(Bound::Excluded(cb)), if k == 0 { usize::MAX } else { k }),
  ] {
    if len == usize::MAX {
      continue;
    }
    let mut want: VecDeque<PointId> = (0..len).map(|j| ids[(a + j) % n]).collect();
    for j in 0..8 {
      ensure_eq!(it.len(), want.len(), "ring of {n}, {what} {a} to {b}, ends {calls:08b}: length before call {j}");
      let (got, exp) = if calls >> j & 1 == 0 {
        (it.next(), want.pop_front())
      } else {
        (it.next_back(), want.pop_back())
      };
      ensure_eq!(got.map(|x| x.point_id()), exp, "ring of {n}, {what} {a} to {b}, ends {calls:08b}: call {j}");
    }
  }
  Ok(())
}

/// Hundreds of vertices.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  match s.weighted(&[3, 1, 1, 3]) {
    0 => iterate_n::<i64>(s, c, 600),
    1 => lookup_n::<i64>(s, c, 300),
    2 => mapping_n::<i64>(s, c, 300),
    _ => equality_n::<i64>(s, c, 600),
  }
}

/// Tens of thousands of vertices.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let (p, text) = giant::polygon(s, 70_000);
  let n = p.len();
  let mut poly = shapes::polygon::<i64>(&p, &Emb::ID, s.below(2) as u64);
  if s.flip() {
    // A clockwise list, turned around in place.
    let mut r = p.clone();
    r.reverse();
    poly = Polygon::new_unchecked(pts::<i64>(&r, &Emb::ID));
    ensure_eq!(poly.ensure_ccw(), Ok(()), "ensure_ccw of the reversed {text}");
  }
  let ids = poly.boundary_slice().to_vec();
  c.case(&(&text, ids[0].usize()), || format!("iterate the {text}"));
  c.nontrivial();
  ensure_eq!(ids.len(), n, "ids of the {text}");
  let mut seen = vec![false; n];
  for i in &ids {
    ensure!(i.usize() < n && !std::mem::replace(&mut seen[i.usize()], true), "id {i:?} twice, {text}");
  }
  ensure!(geo::cyc_eq(&ring(&poly, &Emb::ID)?, &p), "boundary of the {text}");
  ensure!(poly.iter_boundary().map(|x| x.point_id()).eq(ids.iter().copied()), "forward iteration of the {text}");
  ensure!(poly.iter_boundary().rev().map(|x| x.point_id()).eq(ids.iter().rev().copied()), "backward iteration of the {text}");
  for k in 0..n {
    let x = poly.cursor(ids[k]);
    ensure_eq!(x.point_id(), ids[k], "cursor of {:?}, {text}", ids[k]);
    ensure_eq!(x.next().point_id(), ids[(k + 1) % n], "after {:?}, {text}", ids[k]);
    ensure_eq!(x.prev().point_id(), ids[(k + n - 1) % n], "before {:?}, {text}", ids[k]);
  }
  let edges = poly.iter_boundary_edges().zip(0usize..).all(|(e, k)| e.src == poly.point(ids[k]) && e.dst == poly.point(ids[(k + 1) % n]));
  ensure!(edges, "edges of the {text}");
  ensure_eq!(poly.iter_boundary().len(), n, "length of the {text}");
  ensure_eq!(poly.iter_boundary_edges().count(), n, "number of edges of the {text}");
  for _ in 0..4 {
    let a = s.below(n);
    // often nearly all the way round
    let b = if s.flip() { (a + n - 1 - s.below(n.min(40))) % n } else { s.below(n) };
    let full = (b + n - a) % n + 1;
    let mut it = poly.cursor(ids[a]).to(Bound::Included(poly.cursor(ids[b])));
    ensure_eq!(it.len(), full, "length of the range {a}..={b} of the {text}");
    let (mut i, mut j) = (0, full);
    while i < j {
      ensure_eq!(it.next().map(|x| x.point_id()), Some(ids[(a + i) % n]), "item {i} of the range {a}..={b} of the {text}");
      i += 1;
      if i < j && s.raw() % 2 == 1 {
        j -= 1;
        ensure_eq!(it.next_back().map(|x| x.point_id()), Some(ids[(a + j) % n]), "item {j} of the range {a}..={b} of the {text}");
      }
      ensure_eq!(it.size_hint(), (j - i, Some(j - i)), "length left of the range {a}..={b} of the {text}");
    }
    ensure!(it.next().is_none() && it.next_back().is_none(), "end of the range {a}..={b} of the {text}");
  }
  // the same ring started elsewhere
  let mut q = p.clone();
  q.rotate_left(s.below(n));
  let other = Polygon::new_unchecked(pts::<i64>(&q, &Emb::ID));
  ensure!(poly.equals(&other) && other.equals(&poly), "the {text} equals itself started elsewhere");
  let k = s.below(n);
  q[k][0] += 1;
  let other = Polygon::new_unchecked(pts::<i64>(&q, &Emb::ID));
  ensure!(!poly.equals(&other), "the {text} with another vertex {k} is equal");
  Ok(())
}

static SPEC: Spec = Spec {
  id: "C21",
  rule: "Vertex cycles of 1 to 14 points, and of hundreds, (any lists, simple polygons, periodic lists; repeats allowed) stored in boundary order, reversed or scrambled, in 14 scalar types; call sequences of up to 20 calls (next, next_back, nth, nth_back, len, size_hint, clone, rev, equality) on whole boundaries and sub-ranges; pairs of cycles that are rotations, reversals or small changes of each other; every ring of up to seven vertices with every range and every sequence of eight ends. Simple polygons of up to 70,000 vertices. Non-trivial: at least three vertices (iteration: and three calls).",
  assumptions: &["the range from a cursor to itself excluded is not specified", "polygons without vertices and polygons with holes are excluded"],
  parts: &[
    Part { name: "iterate", quick: 1_600_000, thorough: 40_000_000, len: 110, run: iterate_types },
    Part { name: "lookup", quick: 400_000, thorough: 8_000_000, len: 90, run: lookup_types },
    Part { name: "mapping", quick: 300_000, thorough: 6_000_000, len: 90, run: mapping_types },
    Part { name: "equality", quick: 1_200_000, thorough: 20_000_000, len: 90, run: equality_types },
    Part { name: "ranges", quick: 87_808, thorough: 87_808, len: 0, run: ranges },
    Part { name: "huge", quick: 3_000, thorough: 20_000, len: 90, run: huge },
    Part { name: "giant", quick: 120, thorough: 3000, len: 40, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
