//! Structured generators of integer point sets and simple polygons.
use crate::geo::*;
use crate::src::Src;

/// A list of points: grids, clusters, colinear runs, duplicates, circles.
/// `distinct` removes repeats (keeping the first).
pub fn points(s: &mut Src, nmax: usize, distinct: bool) -> Vec<P> {
  let kind = s.weighted(&[6, 3, 2, 2, 2, 2, 2]);
  let n = s.usize(0, nmax);
  let m = s.pick(&[2i64, 1, 3, 5, 10, 30, 1000, 1_000_000]);
  let mut v: Vec<P> = vec![];
  match kind {
    // square grid around the origin
    0 => {
      for _ in 0..n {
        v.push([s.sym(m), s.sym(m)]);
      }
    }
    // non-negative box, different extents
    1 => {
      let m2 = s.pick(&[1i64, 2, 3, 50, 100_000]);
      for _ in 0..n {
        v.push([s.range(0, m), s.range(0, m2)]);
      }
    }
    // few lines
    2 => {
      let lines = s.usize(1, 3);
      let ls: Vec<(P, P)> =
        (0..lines).map(|_| ([s.sym(m), s.sym(m)], [s.sym(3), s.sym(3)])).collect();
      for _ in 0..n {
        let (o, d) = s.pick(&ls);
        let t = s.sym(6);
        v.push([o[0] + t * d[0], o[1] + t * d[1]]);
      }
    }
    // few distinct coordinates (many ties)
    3 => {
      let xs: Vec<i64> = (0..s.usize(1, 3)).map(|_| s.sym(m)).collect();
      let ys: Vec<i64> = (0..s.usize(1, 5)).map(|_| s.sym(m)).collect();
      for _ in 0..n {
        v.push([s.pick(&xs), s.pick(&ys)]);
      }
    }
    // points in convex position plus a few inside
    4 => {
      let h = convex(s, n.max(3), m.max(3));
      let extra = s.usize(0, 4);
      v.extend(h.iter().copied());
      for _ in 0..extra {
        let (a, b) = (s.pick(&h), s.pick(&h));
        v.push([(a[0] + b[0]).div_euclid(2), (a[1] + b[1]).div_euclid(2)]);
      }
    }
    // repeats of a small base set
    5 => {
      let base: Vec<P> = (0..s.usize(1, 5)).map(|_| [s.sym(m), s.sym(m)]).collect();
      for _ in 0..n {
        v.push(s.pick(&base));
      }
    }
    // near a line: y = k x + {-1,0,1}
    _ => {
      let k = s.sym(4);
      for _ in 0..n {
        let x = s.sym(m);
        v.push([x, k * x + s.sym(1)]);
      }
    }
  }
  v.truncate(nmax);
  if s.chance(1, 3) {
    s.shuffle(&mut v);
  }
  if distinct {
    let mut seen = std::collections::HashSet::new();
    v.retain(|p| seen.insert(*p));
  }
  v
}

/// Strictly convex counter-clockwise lattice polygon with at most `n` vertices (>= 3).
pub fn convex(s: &mut Src, n: usize, m: i64) -> Vec<P> {
  // edge vectors with distinct directions, summing to zero after closing
  let m = m.clamp(1, 1 << 40);
  let k = n.max(3);
  let pts: Vec<P> = match s.below(3) {
    0 => (0..k).map(|_| [s.sym(m), s.sym(m)]).collect(),
    // parabola arc and its reflection: every point extreme
    1 => {
      let a = s.range(1, 3);
      let h = (k / 2).max(2) as i64;
      let mut v: Vec<P> = (0..h).map(|i| [i, a * i * i]).collect();
      let top = a * (h - 1) * (h - 1) + s.range(1, 5);
      v.extend((0..(k as i64 - h)).map(|i| [i, top + a * (h * h) - a * (h - 1 - i) * (h - 1 - i)]));
      v
    }
    // sum of sorted edge vectors
    _ => {
      let mm = m.min(if k > 50 { k as i64 } else { 20 });
      let mut es: Vec<P> = vec![];
      for _ in 0..k / 2 {
        let d = [s.sym(mm), s.sym(mm)];
        if d != [0, 0] {
          es.push(d);
          es.push([-d[0], -d[1]]);
        }
      }
      es.sort_by(|a, b| {
        cmp_angle([a[0] as i128, a[1] as i128], [b[0] as i128, b[1] as i128])
      });
      let mut q = [0, 0];
      es.iter()
        .map(|e| {
          q = [q[0] + e[0], q[1] + e[1]];
          q
        })
        .collect()
    }
  };
  let h = hull(&pts);
  let h = if h.len() > n.max(3) { hull(&h[..n.max(3)]) } else { h };
  if h.len() >= 3 {
    h
  } else {
    vec![[0, 0], [1 + s.range(0, m.min(9)), 0], [0, 1 + s.range(0, m.min(9))]]
  }
}

/// Insert `q` into edge i of the simple polygon `p` if the result stays simple.
fn try_insert(p: &mut Vec<P>, i: usize, q: P) -> bool {
  let n = p.len();
  let (a, b) = (p[i], p[(i + 1) % n]);
  if p.contains(&q) {
    return false;
  }
  if on_seg(a, b, q) {
    p.insert(i + 1, q);
    return true;
  }
  let prev = p[(i + n - 1) % n];
  let next = p[(i + 2) % n];
  for j in 0..n {
    if j == i {
      continue;
    }
    let (c, d) = (p[j], p[(j + 1) % n]);
    // new edge a-q
    if d == a {
      if on_seg(c, d, q) || on_seg(a, q, c) {
        return false;
      }
    } else if segs_touch(a, q, c, d) {
      return false;
    }
    // new edge q-b
    if c == b {
      if on_seg(c, d, q) || on_seg(q, b, d) {
        return false;
      }
    } else if segs_touch(q, b, c, d) {
      return false;
    }
  }
  let _ = (prev, next);
  // a-q and q-b only share q
  if on_seg(a, q, b) || on_seg(q, b, a) {
    return false;
  }
  p.insert(i + 1, q);
  true
}

/// Grow a polygon by inserting random grid points into random edges.
fn grown(s: &mut Src, nmax: usize, m: i64) -> Vec<P> {
  let mut p: Vec<P> = vec![];
  for _ in 0..6 {
    let t = [[s.range(0, m), s.range(0, m)], [s.range(0, m), s.range(0, m)], [s.range(0, m), s.range(0, m)]];
    if orient(t[0], t[1], t[2]) != 0 {
      p = t.to_vec();
      break;
    }
  }
  if p.is_empty() {
    p = vec![[0, 0], [m, 0], [0, m]];
  }
  let tries = s.usize(0, nmax * 2);
  for _ in 0..tries {
    if p.len() >= nmax || s.exhausted() {
      break;
    }
    let q = [s.range(0, m), s.range(0, m)];
    let i = s.below(p.len());
    // a few edges starting at a random one
    for k in 0..p.len().min(4) {
      let e = (i + k) % p.len();
      if try_insert(&mut p, e, q) {
        break;
      }
    }
  }
  p
}

fn star(s: &mut Src, nmax: usize, m: i64) -> Vec<P> {
  let n = s.usize(3, nmax.max(3));
  let mut v: Vec<P> = (0..n).map(|_| [s.sym(m), s.sym(m)]).filter(|p| *p != [0, 0]).collect();
  v.sort_by(|a, b| {
    cmp_angle([a[0] as i128, a[1] as i128], [b[0] as i128, b[1] as i128])
      .then_with(|| dist2([0, 0], *a).cmp(&dist2([0, 0], *b)))
  });
  // one point per direction
  v.dedup_by(|a, b| {
    cmp_angle([a[0] as i128, a[1] as i128], [b[0] as i128, b[1] as i128]) == std::cmp::Ordering::Equal
  });
  v
}

fn monotone(s: &mut Src, nmax: usize, m: i64) -> Vec<P> {
  let n = s.usize(3, nmax.max(3));
  let (mut lo, mut hi): (Vec<P>, Vec<P>) = (vec![], vec![]);
  let mut x = 0;
  for _ in 1..n.saturating_sub(1) {
    x += s.range(0, 2);
    let up = s.flip();
    let c = if up { &mut hi } else { &mut lo };
    if c.last().map(|q| q[0] == x).unwrap_or(x == 0) {
      x += 1;
    }
    let y = s.range(1, m);
    c.push([x, if up { y } else { -y }]);
  }
  hi.reverse();
  let mut v = vec![[0, 0]];
  v.extend(lo);
  v.push([x + 1, 0]);
  v.extend(hi);
  v
}

/// Rectilinear comb: teeth of varying depth.
fn comb(s: &mut Src, nmax: usize, m: i64) -> Vec<P> {
  let cap = nmax / 4;
  let teeth = if nmax > 200 { s.usize(cap / 2, cap - 1) } else { s.usize(1, cap.clamp(1, 12)) };
  // all gaps reach down to the same level, so that one line crosses every tooth
  let deep = nmax > 200 && s.flip();
  let base = -1;
  let mut v = vec![];
  let mut x = 0;
  for _ in 0..teeth {
    let h = s.range(1, m);
    let w = s.range(1, 3);
    v.push([x, h]);
    v.push([x + w, h]);
    x += w;
    let g = s.range(1, 2);
    let d = if deep { 0 } else { s.range(0, h - 1) };
    v.push([x, d]);
    v.push([x + g, d]);
    x += g;
  }
  v.push([x, base]);
  v.push([0, base]);
  v.reverse();
  v
}

/// Rectangular spiral corridor with `turns` arms.
fn spiral(s: &mut Src, nmax: usize) -> Vec<P> {
  let turns = s.usize(2, (nmax / 2 - 1).clamp(2, if nmax > 200 { 300 } else { 14 }));
  let w = s.range(1, 2);
  let gap = s.range(1, 3);
  let step = w + gap;
  // outer path of the corridor centre line, then offset
  let dirs: [P; 4] = [[1, 0], [0, 1], [-1, 0], [0, -1]];
  let mut len = step * (turns as i64 + 1);
  let mut c = [0i64, 0];
  let mut path = vec![c];
  for t in 0..turns {
    let d = dirs[t % 4];
    c = [c[0] + d[0] * len, c[1] + d[1] * len];
    path.push(c);
    if t % 2 == 1 {
      len -= step;
    }
    if len < step {
      break;
    }
  }
  // left and right offsets by w/2 (use doubled coordinates)
  let n = path.len();
  let mut l = vec![];
  let mut r = vec![];
  for i in 0..n {
    let din = if i > 0 { dirs[(i - 1) % 4] } else { dirs[0] };
    let dout = if i + 1 < n { dirs[i % 4] } else { din };
    // left normal of d is (-dy, dx)
    let nl = |d: P| [-d[1], d[0]];
    let (a, b) = (nl(din), nl(dout));
    let off = if i == 0 || i + 1 == n { b } else { [a[0] + b[0], a[1] + b[1]] };
    let off = if i + 1 == n { a } else { off };
    let q = [2 * path[i][0], 2 * path[i][1]];
    l.push([q[0] + off[0] * w, q[1] + off[1] * w]);
    r.push([q[0] - off[0] * w, q[1] - off[1] * w]);
  }
  l.reverse();
  r.extend(l);
  r
}

/// A zig-zag strip with parallel edges.
fn zigzag(s: &mut Src, nmax: usize, m: i64) -> Vec<P> {
  let k = s.usize(2, (nmax / 2).clamp(2, if nmax > 200 { 1000 } else { 20 }));
  let m = m.clamp(1, 1000);
  let t = s.range(1, 3);
  let mut lo = vec![];
  let mut x = 0;
  for i in 0..k {
    lo.push([x, if i % 2 == 0 { 0 } else { s.range(1, m) }]);
    x += s.range(1, 3);
  }
  let mut hi: Vec<P> = lo.iter().map(|p| [p[0], p[1] + t]).collect();
  hi.reverse();
  lo.extend(hi);
  lo
}

/// Subdivide some edges at lattice points (adds colinear vertices).
fn subdivide(s: &mut Src, p: &[P], nmax: usize) -> Vec<P> {
  let mut v = vec![];
  let n = p.len();
  for i in 0..n {
    let (a, b) = (p[i], p[(i + 1) % n]);
    v.push(a);
    if v.len() + (n - i) >= nmax {
      continue;
    }
    let g = num_integer::gcd(b[0] - a[0], b[1] - a[1]);
    if g > 1 && s.flip() {
      let d = [(b[0] - a[0]) / g, (b[1] - a[1]) / g];
      let k = s.range(1, g - 1);
      v.push([a[0] + k * d[0], a[1] + k * d[1]]);
      if k + 1 < g && s.flip() {
        let k2 = s.range(k + 1, g - 1);
        v.push([a[0] + k2 * d[0], a[1] + k2 * d[1]]);
      }
    }
  }
  v
}

/// Grown from points that gather around few far-apart anchors: long thin slivers, vertices
/// that nearly coincide at the scale of the whole.
pub fn clustered(s: &mut Src, nmax: usize, m: i64) -> Vec<P> {
  let a: Vec<i64> = (0..s.usize(1, 3)).map(|_| s.range(0, m)).chain([0, m]).collect();
  let w = s.pick(&[2i64, 1, 10, 300, 2000]).min(m / 8 + 1);
  let point = |s: &mut Src| {
    let c: Vec<i64> = (0..2).map(|_| (s.pick(&a) + s.sym(w)).clamp(0, m)).collect();
    [c[0], c[1]]
  };
  let mut p: Vec<P> = vec![[0, 0], [m, 0], [0, m]];
  for _ in 0..6 {
    let t = [point(s), point(s), point(s)];
    if orient(t[0], t[1], t[2]) != 0 {
      p = t.to_vec();
      break;
    }
  }
  for _ in 0..s.usize(0, nmax * 2) {
    if p.len() >= nmax || s.exhausted() {
      break;
    }
    let q = point(s);
    let i = s.below(p.len());
    for k in 0..p.len() {
      let e = (i + k) % p.len();
      if try_insert(&mut p, e, q) {
        break;
      }
    }
  }
  if area2(&p) < 0 {
    p.reverse();
  }
  let k = s.below(p.len());
  p.rotate_left(k);
  p
}

fn fallback(s: &mut Src) -> Vec<P> {
  let a = s.range(1, 4);
  let b = s.range(1, 4);
  vec![[0, 0], [a, 0], [a, b], [0, b]]
}

/// A simple polygon with 3..=nmax vertices (counter-clockwise), coordinates roughly
/// within +-m (families with their own scale may exceed it), as a vertex cycle starting
/// anywhere. Verified simple by construction or by the reference test.
pub fn simple_polygon(s: &mut Src, nmax: usize, m: i64) -> Vec<P> {
  let fam = s.weighted(&[8, 3, 3, 2, 2, 2, 2, 2]);
  let mut p = match fam {
    0 => grown(s, nmax, m.max(2)),
    1 => star(s, nmax, m.max(2)),
    2 => monotone(s, nmax, m),
    3 => comb(s, nmax, m.max(1)),
    4 => spiral(s, nmax),
    5 => zigzag(s, nmax, m),
    7 => clustered(s, nmax, m.max(16)),
    _ => convex(s, nmax, m.max(2)),
  };
  if s.chance(1, 4) {
    p = subdivide(s, &p, nmax);
  }
  // pins: lattice symmetries, a shear, a scaling
  match s.weighted(&[6, 1, 1, 1, 1]) {
    0 => {}
    1 => p.iter_mut().for_each(|q| *q = [-q[1], q[0]]),
    2 => p.iter_mut().for_each(|q| *q = [q[1], q[0]]),
    3 => {
      let k = s.sym(2);
      p.iter_mut().for_each(|q| *q = [q[0] + k * q[1], q[1]])
    }
    _ => {
      let k = s.range(1, 4);
      p.iter_mut().for_each(|q| *q = [k * q[0], k * q[1]])
    }
  }
  if p.len() > nmax || !is_simple(&p) {
    p = fallback(s);
  }
  if area2(&p) < 0 {
    p.reverse();
  }
  let n = p.len();
  let k = s.below(n);
  p.rotate_left(k);
  p
}

/// A simple polygon with hundreds to `nmax` vertices: the structured families at full size,
/// or a few hundred grown vertices.
pub fn huge_polygon(s: &mut Src, nmax: usize, m: i64) -> Vec<P> {
  let n = s.usize(210.min(nmax), nmax);
  let fam = s.weighted(&[4, 2, 2, 2, 2, 2, 1]);
  let e = &mut s.expand();
  let mut p = match fam {
    0 => comb(e, n, m.max(1)),
    1 => spiral(e, n),
    2 => zigzag(e, n, m),
    3 => convex(e, n, m.max(2)),
    4 => monotone(e, n, m),
    5 => star(e, n, m.max(2)),
    _ => grown(e, n.min(300), m.max(2)),
  };
  match s.below(4) {
    0 => {}
    1 => p.iter_mut().for_each(|q| *q = [-q[1], q[0]]),
    2 => p.iter_mut().for_each(|q| *q = [-q[0], -q[1]]),
    _ => p.iter_mut().for_each(|q| *q = [q[0] + q[1], q[1]]),
  }
  if p.len() > nmax || !is_simple(&p) {
    p = fallback(s);
  }
  if area2(&p) < 0 {
    p.reverse();
  }
  let k = s.below(p.len());
  p.rotate_left(k);
  p
}

/// A query point correlated with the polygon: vertices, edge points, level with a
/// vertex, diagonal points, random.
pub fn query_point(s: &mut Src, p: &[P]) -> P {
  let n = p.len();
  let (lo, hi) = bbox(p);
  let i = s.below(n);
  let j = s.below(n);
  match s.weighted(&[4, 3, 2, 3, 3, 2, 1]) {
    0 => [s.range(lo[0] - 1, hi[0] + 1), s.range(lo[1] - 1, hi[1] + 1)],
    1 => [s.range(lo[0] - 1, hi[0] + 1), p[i][1]],
    2 => [p[i][0], s.range(lo[1] - 1, hi[1] + 1)],
    // lattice point of an edge or diagonal
    3 | 4 => {
      let (a, b) = if s.flip() { (p[i], p[(i + 1) % n]) } else { (p[i], p[j]) };
      let g = num_integer::gcd(b[0] - a[0], b[1] - a[1]).max(1);
      let k = s.range(0, g);
      [a[0] + (b[0] - a[0]) / g * k, a[1] + (b[1] - a[1]) / g * k]
    }
    5 => {
      let q = p[i];
      [q[0] + s.sym(1), q[1] + s.sym(1)]
    }
    _ => p[i],
  }
}
