//! Inputs of thousands to tens of thousands of vertices, simple by construction: they reach
//! narrow counters and indices, and code that is chosen by size.
use crate::*;

/// Sizes around the limits of counters, up to `nmax`.
pub fn size(s: &mut Src, nmax: usize) -> usize {
  let mut all = vec![];
  for b in [10u32, 11, 12, 13, 14, 15, 16] {
    for d in -2i64..=2 {
      all.push(((1i64 << b) + d) as usize);
    }
  }
  all.retain(|n| *n <= nmax);
  match s.weighted(&[3, 2]) {
    0 if !all.is_empty() => {
      let k = s.below(all.len());
      // the largest ones first
      all[all.len() - 1 - k]
    }
    _ => s.usize(nmax * 3 / 4, nmax),
  }
}

/// A simple counter-clockwise polygon with about `n` vertices, and what it is.
pub fn polygon(s: &mut Src, nmax: usize) -> (Vec<P>, String) {
  let n = size(s, nmax);
  let fam = s.below(5);
  let e = &mut s.expand();
  let m = e.pick(&[5i64, 1, 1000]);
  let k = n as i64;
  let mut p: Vec<P> = match fam {
    // strictly convex
    0 => (0..k).map(|i| [i, i * i]).collect(),
    // a comb over a straight bottom
    1 => {
      let mut p = vec![[0, -1], [k - 3, -1]];
      p.extend((0..k - 2).rev().map(|x| [x, if x % 2 == 0 { e.range(0, m) } else { 0 }]));
      p
    }
    // two chains
    2 => {
      let h = k / 2;
      let mut p: Vec<P> = (0..h).map(|x| [x, -1 - e.range(0, m)]).collect();
      p.extend((0..k - h).rev().map(|x| [x, e.range(0, m)]));
      p
    }
    // a staircase corridor
    3 => {
      let h = k / 4 * 2; // even: the last step is level
      let low = |i: i64| [(i + 1) / 2, i / 2];
      let mut p: Vec<P> = (0..h).map(low).collect();
      p.extend((0..h).rev().map(low).map(|q| [q[0], q[1] + 2]));
      p
    }
    // a saw: every other vertex on one of two lines, going back on a line further down
    _ => {
      let h = k - 2;
      let mut p: Vec<P> = vec![[0, -2 * h - 5], [h - 1, -2 * h - 5]];
      p.extend((0..h).rev().map(|x| if x % 2 == 0 { [x, x] } else { [x, -x] }));
      p
    }
  };
  match s.below(4) {
    0 => {}
    1 => p.iter_mut().for_each(|q| *q = [-q[1], q[0]]),
    2 => p.iter_mut().for_each(|q| *q = [-q[0], -q[1]]),
    _ => p.iter_mut().for_each(|q| *q = [q[0] + q[1], q[1]]),
  }
  let r = s.below(p.len());
  p.rotate_left(r);
  let name = ["parabola", "comb", "two chains", "staircase", "saw"][fam];
  let text = format!("{name} of {} vertices, height {m}, started at vertex {r}", p.len());
  (p, text)
}
