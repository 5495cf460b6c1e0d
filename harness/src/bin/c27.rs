//! C27: coordinates, points, cursors and ids have one consistent total order.
use num::{BigInt, BigRational};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::*;
use rgeometry::TotalOrd;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vharness::*;

/// What a coordinate stands for; None for values that are no number.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Key {
  Low,
  At(BigRational),
  High,
}
trait Val: Coord {
  fn special(s: &mut Src) -> Option<Self>;
  fn key(&self) -> Option<Key>;
  /// Values for the enumeration.
  fn list() -> Vec<Self>;
}
macro_rules! int_val {
  ($($t:ty)*) => { $(
    impl Val for $t {
      fn special(_: &mut Src) -> Option<Self> { None }
      fn key(&self) -> Option<Key> { Some(Key::At(self.rat())) }
      fn list() -> Vec<Self> {
        let mut v: Vec<$t> = vec![0, 1, -1, 2, -2, 100, -100, <$t>::MAX, <$t>::MIN, <$t>::MAX - 1, <$t>::MIN + 1, <$t>::MAX / 2, <$t>::MAX / 2 + 1, <$t>::MIN / 2];
        v.sort_by_key(|x| x.unsigned_abs());
        v
      }
    }
  )* };
}
int_val!(i8 i16 i32 i64 isize);
macro_rules! float_val {
  ($($t:ty, $f:ident, $nan:literal, |$c:ident| $mk:expr, |$v:ident| $un:expr;)*) => { $(
    impl Val for $t {
      fn special(s: &mut Src) -> Option<Self> {
        let $c = s.pick(&[0.0 as $f, -0.0, $f::INFINITY, $f::NEG_INFINITY, $f::MAX, $f::MIN, $f::MIN_POSITIVE, -$f::MIN_POSITIVE, $f::from_bits(1), -$f::from_bits(1), if $nan { $f::NAN } else { 1.0 }, if $nan { -$f::NAN } else { -1.0 }]);
        Some($mk)
      }
      fn key(&self) -> Option<Key> {
        let $v = *self;
        let x: $f = $un;
        if x.is_nan() { None }
        else if x == $f::INFINITY { Some(Key::High) }
        else if x == $f::NEG_INFINITY { Some(Key::Low) }
        else { Some(Key::At(BigRational::from_float(x).unwrap())) }
      }
      fn list() -> Vec<Self> {
        let mut v = vec![0.0 as $f, -0.0, 1.0, -1.0, 0.1, 1.0 + $f::EPSILON, 1.0 - $f::EPSILON / 2.0, $f::MAX, $f::MIN, $f::INFINITY, $f::NEG_INFINITY, $f::MIN_POSITIVE, -$f::MIN_POSITIVE, $f::from_bits(1), -$f::from_bits(1)];
        if $nan { v.push($f::NAN); v.push(-$f::NAN); }
        v.into_iter().map(|$c| $mk).collect()
      }
    }
  )* };
}
float_val! {
  f64, f64, true, |c| c, |v| v;
  f32, f32, true, |c| c, |v| v;
  OrderedFloat<f64>, f64, true, |c| OrderedFloat(c), |v| v.into_inner();
  OrderedFloat<f32>, f32, true, |c| OrderedFloat(c), |v| v.into_inner();
  NotNan<f64>, f64, false, |c| NotNan::new(c).unwrap(), |v| v.into_inner();
  NotNan<f32>, f32, false, |c| NotNan::new(c).unwrap(), |v| v.into_inner();
}
macro_rules! big_val {
  ($($t:ty)*) => { $(
    impl Val for $t {
      fn special(_: &mut Src) -> Option<Self> { None }
      fn key(&self) -> Option<Key> { Some(Key::At(self.rat())) }
      fn list() -> Vec<Self> {
        let mut v: Vec<$t> = vec![];
        for b in [0i128, 1, 2, 1 << 31, 1 << 63, (1 << 64) - 1, 1 << 64, 1 << 100] {
          v.push(<$t as Sc>::of(b, &Emb::ID));
          v.push(<$t as Sc>::of(-b, &Emb::ID));
        }
        if <$t as Sc>::RATIONAL {
          for (a, b) in [(1i128, 2), (1, 3), (2, 3), (-1, 3), (333_333, 999_999)] {
            v.push(<$t as Sc>::of(a, &Emb { den: b, ..Emb::ID }));
          }
        }
        v
      }
    }
  )* };
}
big_val!(BigInt BigRational rug::Integer);

fn hash<X: Hash>(x: &X) -> u64 {
  let mut h = DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}
fn val<T: Val>(s: &mut Src, special: bool) -> T {
  if special && s.chance(1, 3) {
    if let Some(x) = T::special(s) {
      return x;
    }
  }
  let m = s.below(5);
  T::coord(s, m)
}
/// A list of arrays with many shared prefixes.
fn arrays<T: Val, const N: usize>(s: &mut Src) -> Vec<[T; N]> {
  let special = s.flip();
  let pool: Vec<T> = (0..s.usize(1, 4)).map(|_| val(s, special)).collect();
  let n = s.usize(2, 6);
  let mut v: Vec<[T; N]> = vec![];
  for _ in 0..n {
    let mut a: [T; N] = std::array::from_fn(|_| if s.chance(1, 5) { val(s, special) } else { s.pick(&pool) });
    if !v.is_empty() && s.flip() {
      // agrees with an earlier one up to some coordinate
      let o = s.pick(&v);
      let k = s.below(N + 1);
      a[..k].clone_from_slice(&o[..k]);
      if k < N && s.flip() {
        if let Some(Key::At(_)) = o[k].key() {
          a[k] = o[k].nudge(s);
        }
      }
    }
    v.push(a);
  }
  v
}

/// The order `cmp` on `v` agrees with the keys where all are known, and is a total preorder.
fn laws<X: std::fmt::Debug>(v: &[X], cmp: &dyn Fn(&X, &X) -> Ordering, want: &dyn Fn(usize, usize) -> Option<Ordering>, what: &str) -> R {
  let n = v.len();
  let mut m = vec![vec![Ordering::Equal; n]; n];
  for i in 0..n {
    for j in 0..n {
      m[i][j] = cmp(&v[i], &v[j]);
      if let Some(w) = want(i, j) {
        ensure_eq!(m[i][j], w, "{what}: {:?} against {:?}", v[i], v[j]);
      }
    }
  }
  for i in 0..n {
    ensure_eq!(m[i][i], Ordering::Equal, "{what}: {:?} against itself", v[i]);
    for j in 0..n {
      ensure_eq!(m[i][j], m[j][i].reverse(), "{what}: {:?} against {:?} and back", v[i], v[j]);
      for k in 0..n {
        if m[i][j].is_le() && m[j][k].is_le() {
          let w = if m[i][j].is_eq() && m[j][k].is_eq() { Ordering::Equal } else { Ordering::Less };
          ensure_eq!(m[i][k], w, "{what}: {:?}, {:?}, {:?} are ordered in a cycle", v[i], v[j], v[k]);
        }
      }
    }
  }
  Ok(())
}
fn seq(a: &[Option<Key>], b: &[Option<Key>]) -> Option<Ordering> {
  for (x, y) in a.iter().zip(b) {
    match (x, y) {
      (Some(x), Some(y)) if x != y => return Some(x.cmp(y)),
      (Some(_), Some(_)) => {}
      _ => return None,
    }
  }
  Some(Ordering::Equal)
}
/// All the ways of comparing, on a list of arrays.
fn all_ways<T: Val, const N: usize>(v: &[[T; N]], idx: &[u32]) -> R
where
  Point<T, N>: Clone,
{
  let t = T::NAME;
  let keys: Vec<Vec<Option<Key>>> = v.iter().map(|a| a.iter().map(|x| x.key()).collect()).collect();
  let want = |i: usize, j: usize| seq(&keys[i], &keys[j]);
  let p: Vec<Point<T, N>> = v.iter().cloned().map(Point::new).collect();
  laws(&p, &|a, b| a.total_cmp(b), &want, &format!("{t}: total_cmp of points"))?;
  laws(&p, &|a, b| (&a).total_cmp(&b), &want, &format!("{t}: total_cmp of references"))?;
  laws(&p, &|a, b| a.cmp(b), &want, &format!("{t}: cmp of points"))?;
  for a in &p {
    for b in &p {
      let o = a.total_cmp(b);
      ensure_eq!(a.cmp(b), o, "{t}: cmp and total_cmp of {a:?} and {b:?}");
      ensure_eq!(a.partial_cmp(b), Some(o), "{t}: partial_cmp of {a:?} and {b:?}");
      ensure_eq!((a == b, a != b), (o.is_eq(), o.is_ne()), "{t}: equality of {a:?} and {b:?}");
      ensure_eq!((a < b, a <= b, a > b, a >= b), (o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()), "{t}: comparing {a:?} and {b:?}");
      let (mn, mx) = (a.clone().total_min(b.clone()), a.clone().total_max(b.clone()));
      let (lo, hi) = if o.is_le() { (a, b) } else { (b, a) };
      ensure!(mn == *lo && mx == *hi, "{t}: total_min {mn:?} and total_max {mx:?} of {a:?} and {b:?}");
      let (mn, mx) = ((&a).total_min(&b), (&a).total_max(&b));
      ensure!(*mn == lo && *mx == hi, "{t}: total_min {mn:?} and total_max {mx:?} of references to {a:?} and {b:?}");
    }
  }
  // single coordinates
  let xs: Vec<T> = v.iter().flatten().take(10).cloned().collect();
  let xk: Vec<Option<Key>> = xs.iter().map(|x| x.key()).collect();
  laws(&xs, &|a, b| a.total_cmp(b), &|i, j| seq(&xk[i..=i], &xk[j..=j]), &format!("{t}: coordinates"))?;
  for a in &xs {
    for b in &xs {
      let o = a.total_cmp(b);
      let (mn, mx) = (a.clone().total_min(b.clone()), a.clone().total_max(b.clone()));
      let (lo, hi) = if o.is_le() { (a, b) } else { (b, a) };
      ensure!(mn.total_cmp(lo).is_eq() && mx.total_cmp(hi).is_eq(), "{t}: total_min {mn:?} and total_max {mx:?} of {a:?} and {b:?}");
    }
  }
  // pairs: first component first
  if N > 0 {
    let w: Vec<(u32, &Point<T, N>)> = p.iter().enumerate().map(|(i, p)| (idx[i], p)).collect();
    laws(&w, &|a, b| a.total_cmp(b), &|i, j| match idx[i].cmp(&idx[j]) {
      Ordering::Equal => want(i, j),
      o => Some(o),
    }, &format!("{t}: pairs of index and point"))?;
    let w: Vec<(T, u32)> = v.iter().enumerate().map(|(i, a)| (a[0].clone(), idx[i])).collect();
    laws(&w, &|a, b| a.total_cmp(b), &|i, j| match seq(&keys[i][..1], &keys[j][..1]) {
      Some(Ordering::Equal) => Some(idx[i].cmp(&idx[j])),
      o => o,
    }, &format!("{t}: pairs of coordinate and index"))?;
    let l = N - 1;
    let w: Vec<((&T, &T), u32)> = v.iter().enumerate().map(|(i, a)| ((&a[l], &a[0]), idx[i])).collect();
    laws(&w, &|a, b| a.total_cmp(b), &|i, j| {
      let k = |i: usize| [keys[i][l].clone(), keys[i][0].clone()];
      match seq(&k(i), &k(j)) {
        Some(Ordering::Equal) => Some(idx[i].cmp(&idx[j])),
        o => o,
      }
    }, &format!("{t}: nested pairs"))?;
  }
  // sorting
  let mut sorted = p.clone();
  sorted.sort_by(TotalOrd::total_cmp);
  ensure!(sorted.windows(2).all(|w| w[0] <= w[1]), "{t}: {p:?} sorts to {sorted:?}");
  let count = |l: &[Point<T, N>], x: &Point<T, N>| l.iter().filter(|y| *y == x).count();
  ensure!(p.iter().all(|x| count(&p, x) == count(&sorted, x)), "{t}: {p:?} sorts to {sorted:?}");
  for x in &p {
    ensure!(sorted.binary_search(x).is_ok(), "{t}: {x:?} not found in {sorted:?}");
  }
  Ok(())
}
fn points<T: Val, const N: usize>(s: &mut Src, c: &mut Ctx) -> R {
  let v = arrays::<T, N>(s);
  let m = s.pick(&[1i64, 3, u32::MAX as i64]);
  let idx: Vec<u32> = v.iter().map(|_| s.range(0, m) as u32).collect();
  c.case(&(format!("{v:?}"), &idx, T::NAME), || format!("{} in {N} dimensions: {v:?}, indices {idx:?}", T::NAME));
  c.class(T::NAME);
  c.class(["0d", "1d", "2d", "3d", "4d"][N]);
  let keys: Vec<Vec<Option<Key>>> = v.iter().map(|a| a.iter().map(|x| x.key()).collect()).collect();
  c.class_if(keys.iter().flatten().any(|k| k.is_none()), "nan");
  c.class_if(keys.iter().flatten().any(|k| matches!(k, Some(Key::Low | Key::High))), "infinite");
  c.class_if((0..v.len()).any(|i| (0..i).any(|j| keys[i] == keys[j])), "repeat");
  c.nontrivial_if(N >= 2 && (0..v.len()).any(|i| (0..i).any(|j| keys[i] != keys[j] && keys[i][0] == keys[j][0])));
  all_ways(&v, &idx)
}
macro_rules! types {
  ($f:ident, $($n:literal)*) => { [$(
    $f::<i64, $n> as fn(&mut Src, &mut Ctx) -> R, $f::<i8, $n>, $f::<f64, $n>, $f::<i16, $n>, $f::<i32, $n>, $f::<isize, $n>, $f::<f32, $n>,
    $f::<OrderedFloat<f64>, $n>, $f::<OrderedFloat<f32>, $n>, $f::<NotNan<f64>, $n>, $f::<NotNan<f32>, $n>,
    $f::<BigInt, $n>, $f::<BigRational, $n>, $f::<rug::Integer, $n>
  ),*] };
}
fn point_types(s: &mut Src, c: &mut Ctx) -> R {
  let f = types!(points, 2 2 3 1 4 0);
  f[s.below(f.len())](s, c)
}

/// Equal points hash alike, so hashed collections and sorted ones agree.
fn hashes<T: Val + Hash + Eq>(s: &mut Src, c: &mut Ctx) -> R {
  let v = arrays::<T, 2>(s);
  c.case(&(format!("{v:?}"), T::NAME), || format!("{} hashing {v:?}", T::NAME));
  c.class(T::NAME);
  let p: Vec<Point<T>> = v.into_iter().map(Point::new).collect();
  let mut some = false;
  for (i, a) in p.iter().enumerate() {
    for b in &p[..i] {
      if a == b {
        some = true;
        ensure_eq!(hash(a), hash(b), "{}: hashes of the equal {a:?} and {b:?}", T::NAME);
      }
    }
  }
  c.nontrivial_if(some);
  let mut sorted = p.clone();
  sorted.sort();
  sorted.dedup();
  let set: std::collections::HashSet<&Point<T>> = p.iter().collect();
  let tree: std::collections::BTreeSet<&Point<T>> = p.iter().collect();
  ensure_eq!((set.len(), tree.len()), (sorted.len(), sorted.len()), "{}: distinct points of {p:?}", T::NAME);
  Ok(())
}
fn hash_types(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    hashes::<i64> as fn(&mut Src, &mut Ctx) -> R,
    hashes::<OrderedFloat<f64>>,
    hashes::<NotNan<f64>>,
    hashes::<BigRational>,
    hashes::<OrderedFloat<f32>>,
    hashes::<NotNan<f32>>,
    hashes::<i8>,
    hashes::<i16>,
    hashes::<i32>,
    hashes::<isize>,
    hashes::<BigInt>,
    hashes::<rug::Integer>,
  ];
  f[s.below(f.len())](s, c)
}

/// Segment ends, segments, cursors, ids.
fn ends<T: Val>(s: &mut Src, c: &mut Ctx) -> R {
  let t = T::NAME;
  let v = arrays::<T, 2>(s);
  let open: Vec<bool> = v.iter().map(|_| s.flip()).collect();
  c.case(&(format!("{v:?}"), &open, t), || format!("{t} ends {v:?} exclusive {open:?}"));
  c.class(t);
  let p: Vec<Point<T>> = v.iter().cloned().map(Point::new).collect();
  let n = p.len();
  let end = |i: usize| if open[i] { EndPoint::Exclusive(&p[i]) } else { EndPoint::Inclusive(&p[i]) };
  for i in 0..n {
    let e = end(i);
    ensure!(std::ptr::eq(*e.inner(), &p[i]) && std::ptr::eq(e.take(), &p[i]), "{t}: point of {e:?}");
    ensure_eq!((e.is_exclusive(), e.is_inclusive()), (open[i], !open[i]), "{t}: openness of {e:?}");
    let o = if open[i] { EndPoint::Exclusive(p[i].clone()) } else { EndPoint::Inclusive(p[i].clone()) };
    ensure!(o.as_ref() == e && *o.inner() == p[i] && o.take() == p[i], "{t}: owned {e:?}");
    for j in 0..n {
      let f = end(j);
      ensure_eq!(e == f, open[i] == open[j] && p[i] == p[j], "{t}: {e:?} == {f:?}");
      // the smaller and the larger end; at one point an exclusive end wins
      let (l, r) = (e.leftmost(f), e.rightmost(f));
      let (wl, wr, wo) = match p[i].total_cmp(&p[j]) {
        Ordering::Less => (e, f, false),
        Ordering::Greater => (f, e, false),
        Ordering::Equal => (e, f, true),
      };
      if wo {
        c.nontrivial_if(open[i] != open[j]);
        for x in [l, r] {
          ensure!(**x.inner() == p[i] && x.is_exclusive() == (open[i] || open[j]), "{t}: ends {e:?} and {f:?} give {x:?}");
        }
      } else {
        ensure!(l == wl && r == wr, "{t}: leftmost {l:?} and rightmost {r:?} of {e:?} and {f:?}");
      }
      // a segment keeps its ends, the smaller one as its minimum
      let view = LineSegmentView::new(e, f);
      ensure!(view.min.inner() <= view.max.inner(), "{t}: ends of {view:?} out of order");
      let own = |x: EndPoint<&Point<T>>| match x {
        EndPoint::Exclusive(q) => EndPoint::Exclusive(q.clone()),
        EndPoint::Inclusive(q) => EndPoint::Inclusive(q.clone()),
      };
      let seg = LineSegment::new(own(e), own(f));
      if wo {
        let both = (view.min == e && view.max == f) || (view.min == f && view.max == e);
        ensure!(both, "{t}: segment of {e:?} and {f:?} has ends {:?} and {:?}", view.min, view.max);
        ensure!(seg.as_ref() == view || (seg.min.as_ref() == view.max && seg.max.as_ref() == view.min), "{t}: owned segment of {e:?} and {f:?}");
      } else {
        ensure!(view.min == wl && view.max == wr, "{t}: segment of {e:?} and {f:?} has ends {:?} and {:?}", view.min, view.max);
        ensure!(seg.as_ref() == view && LineSegmentView::from(&seg) == view, "{t}: owned segment of {e:?} and {f:?}");
      }
      let range = &p[i]..&p[j];
      let a = LineSegmentView::from(range);
      let b = LineSegment::from(p[i].clone()..p[j].clone());
      let d = LineSegment::from(p[i].clone()..=p[j].clone());
      ensure!(wo || a == LineSegmentView::new(EndPoint::Inclusive(&p[i]), EndPoint::Exclusive(&p[j])), "{t}: range {:?}", a);
      ensure!(wo || b.as_ref() == a, "{t}: owned range {b:?}");
      ensure!(wo || d.as_ref() == LineSegmentView::new(EndPoint::Inclusive(&p[i]), EndPoint::Inclusive(&p[j])), "{t}: inclusive range {d:?}");
      // an edge includes where it starts and excludes where it ends
      let edge = DirectedEdge { src: &p[i], dst: &p[j] };
      let owned = DirectedEdge_ { src: p[i].clone(), dst: p[j].clone() };
      let o2 = LineSegment::from(owned.clone());
      let made: [LineSegmentView<'_, T>; 4] = [edge.into(), (&edge).into(), (&owned).into(), o2.as_ref()];
      for m in made {
        ensure!(wo || m == a, "{t}: segment {m:?} of the edge {:?} to {:?}", p[i], p[j]);
        ensure!(m.min.is_inclusive() != m.max.is_inclusive() && *m.min.inner() <= *m.max.inner(), "{t}: segment {m:?} of the edge {:?} to {:?}", p[i], p[j]);
      }
    }
  }
  // cursors compare by their points, ids by number, edges by smaller then larger id
  let poly = Polygon::new_unchecked(p.clone());
  let ids = poly.boundary_slice().to_vec();
  let keys: Vec<Vec<Option<Key>>> = v.iter().map(|a| a.iter().map(|x| x.key()).collect()).collect();
  let cur: Vec<usize> = (0..n).collect();
  laws(&cur, &|i, j| poly.cursor(ids[*i]).total_cmp(&poly.cursor(ids[*j])), &|i, j| seq(&keys[i], &keys[j]), &format!("{t}: cursors of {p:?}"))?;
  for i in 0..n {
    for j in 0..n {
      ensure_eq!(ids[i].cmp(&ids[j]), ids[i].usize().cmp(&ids[j].usize()), "{t}: ids {:?} {:?}", ids[i], ids[j]);
      ensure_eq!(ids[i] == ids[j], i == j, "{t}: ids {:?} {:?}", ids[i], ids[j]);
      let (a, b) = (IndexEdge::new(ids[i], ids[j]), IndexEdge::new(ids[j], ids[i]));
      ensure!(a == b && a.min <= a.max && (a.min == ids[i] || a.max == ids[i]) && (a.min == ids[j] || a.max == ids[j]), "{t}: edge {a:?}");
      let k = s.below(n);
      let o = IndexEdge::new(ids[i], ids[k]);
      let w = |e: &IndexEdge| (e.min.usize(), e.max.usize());
      ensure_eq!(a.cmp(&o), w(&a).cmp(&w(&o)), "{t}: edges {a:?} {o:?}");
    }
  }
  Ok(())
}
fn end_types(s: &mut Src, c: &mut Ctx) -> R {
  let f = [
    ends::<i64> as fn(&mut Src, &mut Ctx) -> R,
    ends::<i8>,
    ends::<f64>,
    ends::<i16>,
    ends::<i32>,
    ends::<isize>,
    ends::<f32>,
    ends::<OrderedFloat<f64>>,
    ends::<OrderedFloat<f32>>,
    ends::<NotNan<f64>>,
    ends::<NotNan<f32>>,
    ends::<BigInt>,
    ends::<BigRational>,
    ends::<rug::Integer>,
  ];
  f[s.below(f.len())](s, c)
}

/// All triples of the special values of every type.
fn triples(s: &mut Src, c: &mut Ctx) -> R {
  fn go<T: Val, const N: usize>(s: &mut Src, c: &mut Ctx) -> R {
    let l = T::list();
    let n = l.len();
    let i = s.raw64() as usize;
    let (a, b, d) = (i % n, i / n % n, i / n / n);
    if d >= n {
      return Ok(());
    }
    let x = |i: usize| l[i].clone();
    let v = [[x(a), x(b)], [x(a), x(d)], [x(d), x(b)], [x(b), x(a)]];
    c.case(&(T::NAME, a, b, d), || format!("{} {v:?}", T::NAME));
    c.class(T::NAME);
    c.nontrivial_if(a != b && b != d && a != d);
    all_ways(&v, &[1, 0, 1, u32::MAX])
  }
  let i = s.raw64();
  let f = types!(go, 2);
  let mut rest = [0u32; 2];
  let j = i / f.len() as u64;
  rest[0] = (j >> 32) as u32;
  rest[1] = j as u32;
  let mut t = Src::new(&rest);
  f[(i % f.len() as u64) as usize](&mut t, c)
}

static SPEC: Spec = Spec {
  id: "C27",
  rule: "Lists of two to six points of zero to four dimensions in 14 scalar types, drawn from a few values each so that points share prefixes or repeat, with neighbouring values, extremes and, for floats, both zeros, subnormals, infinities and NaN; compared in every way offered (total_cmp, cmp, partial_cmp, operators, references, pairs, minimum and maximum, sorting, hashing) as points, coordinates, pairs with an index, segment ends, segments, cursors, ids and edges; all triples of 14 to 21 special values of every type. Oracle: order of the exact values, first to last; order laws over every triple. Non-trivial: two different points with the same first coordinate (hashing: two equal points; ends: two ends at one point of different openness).",
  assumptions: &["where NaN stands among the numbers is not specified, only that the order is total", "which of two equal values is returned as the minimum is not specified"],
  parts: &[
    Part { name: "points", quick: 600_000, thorough: 5_000_000, len: 80, run: point_types },
    Part { name: "hashes", quick: 750_000, thorough: 5_000_000, len: 60, run: hash_types },
    Part { name: "ends", quick: 500_000, thorough: 4_000_000, len: 90, run: end_types },
    Part { name: "triples", quick: 14 * 21 * 21 * 21, thorough: 14 * 21 * 21 * 21, len: 0, run: triples },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
