//! C23: z-order hashing is an order-compatible bijection.
use rgeometry::algorithms::zhash::*;
use rgeometry::data::Point;
use std::fmt::Debug;
use vharness::*;

fn interleave(a: u32, b: u32) -> u64 {
  let mut w = 0u64;
  for i in 0..32 {
    w |= ((a >> i & 1) as u64) << (2 * i);
    w |= ((b >> i & 1) as u64) << (2 * i + 1);
  }
  w
}
fn word(s: &mut Src) -> u32 {
  match s.below(5) {
    0 => s.raw(),
    1 => 1u32 << s.below(32),
    2 => !(1u32 << s.below(32)),
    3 => s.pick(&[0u32, u32::MAX, 0x5555_5555, 0xAAAA_AAAA, 0x0000_FFFF, 0xFFFF_0000]),
    _ => s.raw() & s.raw() & s.raw(),
  }
}
fn words(a: u32, b: u32) -> R {
  let w = zhash_pair(a, b);
  ensure_eq!(w, interleave(a, b), "zhash_pair({a:#x}, {b:#x})");
  ensure_eq!(zunhash_pair(w), (a, b), "zunhash_pair({w:#x})");
  Ok(())
}
fn pairs(s: &mut Src, c: &mut Ctx) -> R {
  let (a, b) = (word(s), word(s));
  c.case(&(a, b), || format!("words {a:#x} {b:#x}"));
  c.nontrivial_if(a.count_ones() > 1 && b.count_ones() > 1);
  words(a, b)?;
  // and the other way round for any word
  let w = interleave(word(s), word(s)) ^ s.raw64();
  let (x, y) = zunhash_pair(w);
  ensure_eq!(zhash_pair(x, y), w, "zhash_pair of zunhash_pair({w:#x}) = ({x:#x}, {y:#x})");
  Ok(())
}
/// Every pair of words with one or two bits set, and every pair of bytes at every offset.
fn bits(s: &mut Src, c: &mut Ctx) -> R {
  let i = s.raw64();
  let (a, b) = if i < 1 << 18 {
    let f = |k: u64| (1u32 << (k & 31)) | (1u32 << (k >> 5 & 31));
    (f(i), f(i >> 10 & 0xff | (i >> 8 & 0x300)))
  } else {
    let j = i - (1 << 18);
    let sh = (j >> 16) % 25;
    (((j & 255) as u32) << sh, ((j >> 8 & 255) as u32) << sh)
  };
  c.case(&(a, b), || format!("bits {a:#x} {b:#x}"));
  c.nontrivial_if(a.count_ones() > 1 && b.count_ones() > 1);
  words(a, b)
}

fn key<T: ZHashable>(lo: &[T; 2], hi: &[T; 2]) -> T::ZHashKey {
  T::zhash_key(ZHashBox { min_x: &lo[0], max_x: &hi[0], min_y: &lo[1], max_y: &hi[1] })
}
fn ge(a: (u32, u32), b: (u32, u32)) -> bool {
  a.0 >= b.0 && a.1 >= b.1
}
/// All points in the box, each at most the next in both coordinates; `gap(k, a, b)`: do a
/// and b differ enough on axis k to get different keys?
fn chain<T>(lo: [T; 2], hi: [T; 2], v: &[[T; 2]], gap: &dyn Fn(usize, &T, &T) -> bool) -> R
where
  T: ZHashable + Clone + PartialOrd + Debug,
  T::ZHashKey: Debug,
{
  let k = key(&lo, &hi);
  let h = |p: &[T; 2]| T::zhash_fn(k, &Point::new(p.clone()));
  let (bot, top) = (h(&lo), h(&hi));
  for (i, p) in v.iter().enumerate() {
    let x = h(p);
    ensure!(bot <= x && x <= top, "key {x:#x} of {p:?} not between {bot:#x} and {top:#x}, box {lo:?} to {hi:?}");
    for q in &v[i + 1..] {
      let y = h(q);
      let le = p[0] <= q[0] && p[1] <= q[1];
      let near = q[0] <= p[0] && q[1] <= p[1];
      if le {
        ensure!(x <= y, "key {x:#x} of {p:?} above {y:#x} of {q:?}, box {lo:?} to {hi:?}");
        // each coordinate's share of the key is monotone too
        ensure!(ge(zunhash_pair(y), zunhash_pair(x)), "parts of the keys of {p:?} and {q:?}, box {lo:?} to {hi:?}");
      }
      if le && near {
        ensure_eq!(x, y, "keys of equal points {p:?}");
      }
      for a in 0..2 {
        if gap(a, &p[a], &q[a]) {
          ensure!(x != y, "same key {x:#x} for {p:?} and {q:?}, box {lo:?} to {hi:?}");
        }
      }
    }
  }
  Ok(())
}
fn between(s: &mut Src, lo: i128, hi: i128) -> i128 {
  let w = (hi - lo) as u128;
  let off = match s.below(4) {
    0 => s.pick(&[0u128, 1, w / 2, w / 2 + 1]).min(w),
    1 => w - s.pick(&[0u128, 1, 2]).min(w),
    2 => (1u128 << s.below(64)).min(w),
    _ => {
      let r = s.raw64() as u128;
      (r * (w + 1)) >> 64
    }
  };
  lo + off as i128
}
macro_rules! int_box {
  ($name:ident, $t:ty) => {
    fn $name(s: &mut Src, c: &mut Ctx) -> R {
      let (mn, mx) = (<$t>::MIN as i128, <$t>::MAX as i128);
      let mut lo = [0i128; 2];
      let mut hi = [0i128; 2];
      for k in 0..2 {
        let (a, b) = match s.below(4) {
          0 => (mn, mx),
          1 => {
            let w = s.pick(&[0i128, 1, 2, 100, (1 << 32) - 1, 1 << 32, (1 << 31) + 5, 1 << 62]).min(mx - mn);
            let a = between(s, mn, mx - w);
            (a, a + w)
          }
          2 => {
            let w = (1i128 << s.below(64)).min(mx - mn);
            let a = between(s, mn, mx - w);
            (a, a + w)
          }
          _ => (between(s, mn, mx), between(s, mn, mx)),
        };
        lo[k] = a.min(b);
        hi[k] = a.max(b);
      }
      let base = s.usize(2, 5);
      let mut v: Vec<[i128; 2]> = (0..base).map(|_| [between(s, lo[0], hi[0]), between(s, lo[1], hi[1])]).collect();
      // a neighbour of some point, and a common upper bound
      let p = v[0];
      v.push([(p[0] + 1).min(hi[0]), (p[1] + s.range(0, 1) as i128).min(hi[1])]);
      let q = v[1];
      v.push([p[0].max(q[0]), p[1].max(q[1])]);
      let f = |p: [i128; 2]| p.map(|x| x as $t);
      let t = stringify!($t);
      c.case(&(lo, hi, &v, t), || format!("{t} box {lo:?} to {hi:?}, points {v:?}"));
      c.class(t);
      c.class_if((0..2).any(|k| hi[k] - lo[k] >= 1 << 32), "wider-than-32-bits");
      c.class_if((0..2).any(|k| hi[k] == lo[k]), "flat-box");
      c.nontrivial_if((0..2).all(|k| hi[k] - lo[k] >= 4));
      let w = [hi[0] - lo[0], hi[1] - lo[1]];
      let gap = |k: usize, a: &$t, b: &$t| {
        let d = (*a as i128 - *b as i128).abs();
        d > 0 && (w[k] < 1 << 32 || d > w[k] >> 30)
      };
      let v: Vec<[$t; 2]> = v.into_iter().map(f).collect();
      chain::<$t>(f(lo), f(hi), &v, &gap)
    }
  };
}
int_box!(box_i64, i64);
int_box!(box_u64, u64);
int_box!(box_i8, i8);
int_box!(box_u32, u32);

fn box_f64(s: &mut Src, c: &mut Ctx) -> R {
  let e = if s.flip() { 0 } else { s.range(-200, 200) as i32 };
  let unit = (2f64).powi(e);
  let x = |s: &mut Src| match s.below(4) {
    0 => s.sym(5) as f64 * unit,
    1 => s.sym(1 << 50) as f64 * unit,
    2 => (s.sym(1 << 50) as f64) * unit * (2f64).powi(-50),
    _ => s.pick(&[0.0, -0.0, 0.1, 1.0 / 3.0, -7.7, 1e6]) * unit,
  };
  let mut lo = [0.0; 2];
  let mut hi = [0.0; 2];
  for k in 0..2 {
    let (a, b) = (x(s), x(s));
    lo[k] = a.min(b);
    hi[k] = a.max(b);
  }
  let at = |s: &mut Src, k: usize| {
    let f = match s.below(4) {
      0 => s.pick(&[0.0, 1.0, 0.5, 0.25]),
      1 => s.range(0, 1 << 32) as f64 / (1u64 << 32) as f64,
      _ => s.raw64() as f64 / (2f64).powi(64),
    };
    (lo[k] + (hi[k] - lo[k]) * f).clamp(lo[k], hi[k])
  };
  let base = s.usize(2, 5);
  let mut v: Vec<[f64; 2]> = (0..base).map(|_| [at(s, 0), at(s, 1)]).collect();
  let (p, q) = (v[0], v[1]);
  v.push([p[0].max(q[0]), p[1].max(q[1])]);
  let bits = |p: &[f64; 2]| p.map(|x| x.to_bits());
  c.case(&(bits(&lo), bits(&hi), v.iter().map(bits).collect::<Vec<_>>()), || format!("f64 box {lo:?} to {hi:?}, points {v:?}"));
  c.class("f64");
  c.class_if((0..2).any(|k| hi[k] == lo[k]), "flat-box");
  c.nontrivial_if((0..2).all(|k| hi[k] > lo[k]));
  let w = [hi[0] - lo[0], hi[1] - lo[1]];
  let gap = |k: usize, a: &f64, b: &f64| w[k] > 0.0 && (a - b).abs() / w[k] > (2f64).powi(-30);
  chain::<f64>(lo, hi, &v, &gap)
}
fn boxes(s: &mut Src, c: &mut Ctx) -> R {
  let f = [box_i64, box_f64, box_i8, box_u64, box_u32];
  f[s.weighted(&[4, 4, 2, 2, 2])](s, c)
}
/// One axis of i8: every low corner, every pair of neighbouring values.
fn axis(s: &mut Src, c: &mut Ctx) -> R {
  let i = s.raw64();
  let lo = (i % 256) as i64 - 128;
  let hi = lo + (i / 256 % 256) as i64;
  if hi > 127 {
    return Ok(());
  }
  let other = s.raw() as i8;
  c.case(&(lo, hi), || format!("i8 axis {lo} to {hi}"));
  c.nontrivial_if(hi > lo + 3);
  for flip in [false, true] {
    let f = |x: i64| if flip { [other.min(0), x as i8] } else { [x as i8, other.min(0)] };
    let (a, b) = (f(lo), f(hi));
    let k = key(&a, &b);
    let mut last = None;
    for x in lo..=hi {
      let h = i8::zhash_fn(k, &Point::new(f(x)));
      if let Some(l) = last {
        ensure!(h > l, "i8 keys of {} and {x} in {lo} to {hi} (axis {}): {l:#x}, {h:#x}", x - 1, flip as u8);
      }
      last = Some(h);
    }
  }
  Ok(())
}

static SPEC: Spec = Spec {
  id: "C23",
  rule: "Pairs of words (random, single bits, complements, masks) against bit-by-bit interleaving and back; every pair of words with one or two bits set and bytes at every offset (a spread in the quick tier); boxes in i8, u32, i64, u64 and f64 of every width (flat, narrow, exactly 32 bits, the whole type) with corner, middle, neighbouring and random points; every i8 axis. Non-trivial: both words have several bits; the box is wide on both axes.",
  assumptions: &["points outside the box, and f64 boxes whose extent overflows, are excluded", "keys tell apart different coordinates of integer boxes narrower than 2^32, and coordinates more than 2^-30 of the extent apart in wider and in f64 boxes"],
  parts: &[
    Part { name: "pairs", quick: 15_000_000, thorough: 200_000_000, len: 14, run: pairs },
    Part { name: "bits", quick: 1_900_544, thorough: 1_900_544, len: 0, run: bits },
    Part { name: "boxes", quick: 4_000_000, thorough: 40_000_000, len: 60, run: boxes },
    Part { name: "axis", quick: 65_536, thorough: 65_536, len: 0, run: axis },
  ],
};
fn main() {
  vcore::main(&SPEC)
}
