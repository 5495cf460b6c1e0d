//! C22: the intersection set behaves as a set of edge pairs over every history.
use rgeometry::data::*;
use std::collections::BTreeSet;
use vharness::*;

type Ed = (usize, usize);
type Pair = (Ed, Ed);

struct Both {
  set: IndexIntersectionSet,
  model: BTreeSet<Pair>,
  ids: Vec<PointId>,
  edges: Vec<Ed>,
}
fn ed(e: &IndexEdge) -> Ed {
  (e.min.usize(), e.max.usize())
}
fn pair(x: &IndexIntersection) -> Pair {
  (ed(&x.min), ed(&x.max))
}
impl Both {
  fn new(n: usize) -> Both {
    let p = Polygon::new_unchecked((0..n as i64).map(|k| Point::new([k, k * k])).collect());
    let edges = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
    Both {
      set: IndexIntersectionSet::new(n),
      model: BTreeSet::new(),
      ids: p.boundary_slice().to_vec(),
      edges,
    }
  }
  fn edge(&self, e: Ed, swap: bool) -> IndexEdge {
    let (a, b) = (self.ids[e.0], self.ids[e.1]);
    if swap {
      IndexEdge::new(b, a)
    } else {
      IndexEdge::new(a, b)
    }
  }
  fn push(&mut self, a: Ed, b: Ed, swap: bool) -> R {
    let x = IndexIntersection::new(self.edge(a, swap), self.edge(b, !swap));
    ensure_eq!(pair(&x), (a.min(b), a.max(b)), "pair of {a:?} and {b:?}");
    self.set.push(x);
    self.model.insert((a.min(b), a.max(b)));
    Ok(())
  }
  fn remove(&mut self, e: Ed, directed: bool, swap: bool) {
    if directed {
      let (a, b) = (self.ids[e.0], self.ids[e.1]);
      let d = if swap { DirectedIndexEdge { src: b, dst: a } } else { DirectedIndexEdge { src: a, dst: b } };
      self.set.remove_all(d);
    } else {
      let x = self.edge(e, swap);
      self.set.remove_all(x);
    }
    self.model.retain(|p| p.0 != e && p.1 != e);
  }
  /// Iteration and per-edge emptiness.
  fn same(&self, at: &dyn Fn() -> String) -> R {
    let mut got: Vec<Pair> = vec![];
    for x in self.set.iter().take(self.model.len() + 10) {
      ensure!(x.min.min < x.min.max && x.max.min < x.max.max && x.min < x.max, "{x:?} is not in canonical order {}", at());
      got.push(pair(&x));
    }
    got.sort();
    let want: Vec<Pair> = self.model.iter().copied().collect();
    ensure_eq!(got, want, "contents {}", at());
    for e in &self.edges {
      let any = self.model.iter().any(|p| p.0 == *e || p.1 == *e);
      ensure_eq!(self.set[self.edge(*e, false)].is_some(), any, "pairs with edge {e:?} {}", at());
    }
    Ok(())
  }
  fn draw(&mut self, rng: &mut Rg, at: &dyn Fn() -> String) -> Result<Option<Pair>, String> {
    let got = self.set.random(rng).map(|x| pair(&x));
    match &got {
      None => ensure!(self.model.is_empty(), "nothing drawn from {:?} {}", self.model, at()),
      Some(p) => ensure!(self.model.contains(p), "drew {p:?}, which is not in {:?} {}", self.model, at()),
    }
    Ok(got)
  }
  /// Every contained pair can be drawn.
  fn all_drawn(&mut self, rng: &mut Rg, at: &dyn Fn() -> String) -> R {
    let mut left = self.model.clone();
    let tries = 80 * (left.len() + 1);
    for _ in 0..tries {
      match self.draw(rng, at)? {
        Some(p) => left.remove(&p),
        None => break,
      };
      if left.is_empty() {
        break;
      }
    }
    ensure!(left.is_empty(), "{left:?} never drawn in {tries} draws from {:?} {}", self.model, at());
    Ok(())
  }
}
fn run(s: &mut Src, c: &mut Ctx, nmax: usize, kmax: usize, full: bool) -> R {
  let n = s.usize(2, nmax);
  let mut b = Both::new(n);
  // a pool of edges: few edges make long lists
  let most = if s.flip() { 6 } else { 40 };
  let k = s.usize(1, b.edges.len().min(most));
  let mut pool: Vec<Ed> = b.edges.clone();
  s.shuffle(&mut pool);
  pool.truncate(k);
  let seed = s.raw64();
  let mut rng = if s.chance(1, 3) { Rg::gen(s) } else { Rg::seeded(seed) };
  let mut log: Vec<String> = vec![];
  let steps = s.usize(1, kmax);
  let (mut removed, mut refilled, mut peak) = (0usize, false, 0usize);
  let w = s.pick(&[[6u32, 1, 1, 1, 1], [3, 1, 1, 1, 1], [12, 1, 2, 0, 1], [2, 1, 1, 2, 1]]);
  for step in 0..steps {
    if s.exhausted() {
      break;
    }
    let before = b.model.len();
    match s.weighted(&w) {
      0 => {
        let (x, y) = (s.pick(&pool), s.pick(&pool));
        if x == y || b.model.contains(&(x.min(y), x.max(y))) {
          continue;
        }
        log.push(format!("+{x:?}{y:?}"));
        b.push(x, y, s.flip())?;
        refilled |= removed > 0;
      }
      1 => {
        let e = s.pick(&pool);
        log.push(format!("-{e:?}"));
        b.remove(e, s.flip(), s.flip());
      }
      2 => {
        log.push("draw".into());
        let at = || format!("after {log:?}");
        b.draw(&mut rng, &at)?;
      }
      // as untangling does: draw a pair, remove both its edges
      3 => {
        let at = || format!("after {log:?}");
        if let Some(p) = b.draw(&mut rng, &at)? {
          log.push(format!("draw -{:?} -{:?}", p.0, p.1));
          b.remove(p.0, false, false);
          b.remove(p.1, true, false);
        }
      }
      _ => {
        log.push("draw all".into());
        if full {
          let at = || format!("after {log:?}");
          b.all_drawn(&mut rng, &at)?;
        }
      }
    }
    removed += before.saturating_sub(b.model.len());
    peak = peak.max(b.model.len());
    if full || step % 16 == 0 {
      let at = || format!("after {log:?}");
      b.same(&at)?;
    }
  }
  c.case(&(n, &log), || format!("{n} vertices: {}", log.join(" ")));
  c.class_if(removed > 0, "pairs-removed");
  c.class_if(refilled, "inserted-after-removing");
  c.class_if(removed > 0 && b.model.is_empty(), "emptied");
  c.class_if(peak >= 10, "ten-pairs-at-once");
  c.nontrivial_if(removed > 0 && refilled);
  let at = || format!("after {log:?}");
  b.same(&at)?;
  b.all_drawn(&mut rng, &at)
}
fn history(s: &mut Src, c: &mut Ctx) -> R {
  run(s, c, 8, 60, true)
}
fn long(s: &mut Src, c: &mut Ctx) -> R {
  run(s, c, 14, 1200, false)
}
/// Hundreds of pairs at once.
fn huge(s: &mut Src, c: &mut Ctx) -> R {
  let mut e = s.expand();
  run(&mut e, c, 40, 3000, false)
}
/// Every history of seven insertions and removals over three edges (four edges: a
/// spread sample).
fn short(s: &mut Src, c: &mut Ctx) -> R {
  let mut i = s.raw64();
  let n6 = 6u64.pow(7);
  let (edges, pairs): (&[Ed], &[(usize, usize)]) = if i < n6 {
    (&[(0, 1), (0, 2), (1, 2)], &[(0, 1), (0, 2), (1, 2)])
  } else {
    i = (i - n6).wrapping_mul(48271) % 10u64.pow(8);
    (&[(0, 1), (2, 3), (0, 2), (1, 3)], &[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)])
  };
  let len = if edges.len() == 3 { 7 } else { 8 };
  let base = (edges.len() + pairs.len()) as u64;
  let mut b = Both::new(if edges.len() == 3 { 3 } else { 4 });
  let mut log = vec![];
  let mut rng = Rg::seeded(i);
  let code = i;
  for _ in 0..len {
    let op = (i % base) as usize;
    i /= base;
    if op < pairs.len() {
      let (x, y) = (edges[pairs[op].0], edges[pairs[op].1]);
      if b.model.contains(&(x.min(y), x.max(y))) {
        log.push(format!("(has {x:?}{y:?})"));
      } else {
        log.push(format!("+{x:?}{y:?}"));
        b.push(x, y, op % 2 == 0)?;
      }
    } else {
      let e = edges[op - pairs.len()];
      log.push(format!("-{e:?}"));
      b.remove(e, op % 2 == 0, false);
    }
    let at = || format!("after {log:?}");
    b.same(&at)?;
  }
  c.case(&(edges.len(), code), || log.join(" "));
  c.nontrivial_if(log.iter().filter(|x| x.starts_with('+')).count() >= 3);
  let at = || format!("after {log:?}");
  b.all_drawn(&mut rng, &at)
}

/// Tens of thousands of pairs at once.
fn giant(s: &mut Src, c: &mut Ctx) -> R {
  let n = s.usize(30, 60);
  let mut e = s.expand();
  let mut b = Both::new(n);
  let mut pool: Vec<Ed> = b.edges.clone();
  e.shuffle(&mut pool);
  pool.truncate(s.usize(370, 430));
  let mut all: Vec<Pair> = vec![];
  for i in 0..pool.len() {
    for j in 0..i {
      all.push((pool[i], pool[j]));
    }
  }
  if s.flip() {
    e.shuffle(&mut all);
  }
  for (x, y) in &all {
    b.push(*x, *y, e.flip())?;
  }
  let most = b.model.len();
  let text = format!("{} edges, {most} pairs", pool.len());
  c.case(&(&pool, all.first().copied()), || text.clone());
  c.nontrivial();
  c.class_if(most > 65536, "more-than-65536-pairs");
  let mut rng = Rg::seeded(s.raw64());
  let mut same = |b: &mut Both, at: &str| -> R {
    let mut got: Vec<Pair> = b.set.iter().take(most + 10).map(|x| pair(&x)).collect();
    got.sort();
    ensure!(got.iter().eq(b.model.iter()), "contents {at}, {text}: {} pairs instead of {}", got.len(), b.model.len());
    let x = b.set.random(&mut rng).map(|x| pair(&x));
    ensure!(x.map_or(b.model.is_empty(), |x| b.model.contains(&x)), "drew {x:?} {at}, {text}");
    Ok(())
  };
  same(&mut b, "when full")?;
  e.shuffle(&mut pool);
  for x in pool.iter().take(12) {
    b.remove(*x, e.flip(), e.flip());
  }
  same(&mut b, "after removing twelve edges")?;
  for _ in 0..300 {
    let (x, y) = (e.pick(&pool), e.pick(&pool));
    if x != y && !b.model.contains(&(x.min(y), x.max(y))) {
      b.push(x, y, e.flip())?;
    }
  }
  same(&mut b, "after adding pairs again")?;
  for x in &pool {
    let x = b.edge(*x, false);
    b.set.remove_all(x);
  }
  b.model.clear();
  same(&mut b, "when emptied")
}

static SPEC: Spec = Spec {
  id: "C22",
  rule: "Histories over up to 8 vertices and 60 calls (up to 14 vertices and 1200 calls; up to 40 vertices and 3000 calls), with small edge pools so that lists are long: insert a pair not contained, remove all pairs of an edge (as directed or undirected edge), draw with seeded and chosen random sources, draw then remove both edges, draw until every pair has been seen. Every history of seven insertions and removals over the three edges of three vertices, and a spread sample of eight over four edges of four vertices. Model: an ordered set of pairs. Up to 90,000 pairs at once. Non-trivial: a pair is inserted after pairs have been removed (short: three insertions).",
  assumptions: &[
    "only pairs of two different edges that are not contained already are inserted",
    "drawing every pair of k is expected within 80(k+1) draws of a seeded source",
  ],
  parts: &[
    Part { name: "history", quick: 600_000, thorough: 5_000_000, len: 260, run: history },
    Part { name: "long", quick: 2_000, thorough: 100_000, len: 5000, run: long },
    Part { name: "huge", quick: 3_000, thorough: 10_000, len: 2, run: huge },
    Part { name: "short", quick: 480_000, thorough: 20_000_000, len: 0, run: short },
    Part { name: "giant", quick: 16, thorough: 300, len: 8, run: giant },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
