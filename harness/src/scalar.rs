//! Exact embeddings of canonical integer coordinates into every scalar type.
use crate::{Cnt, Src, P};
use num::{BigInt, BigRational, One, ToPrimitive, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{Point, Polygon, Vector};
use rgeometry::PolygonScalar;

/// Canonical coordinate c on axis k becomes (c * mul + add[k]) * 2^exp / den.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Emb {
  pub mul: i128,
  pub add: [i128; 2],
  pub exp: i32,
  pub den: i64,
}
impl Emb {
  pub const ID: Emb = Emb { mul: 1, add: [0, 0], exp: 0, den: 1 };
}

pub trait Sc: PolygonScalar + 'static {
  const NAME: &'static str;
  /// Inclusive integer range that embeds exactly (before 2^exp / den).
  const RANGE: (i128, i128);
  /// Allowed binary exponents.
  const EXP: (i32, i32);
  const RATIONAL: bool;
  const BOUNDED_INT: bool;
  fn of(c: i128, e: &Emb) -> Self;
  /// Inverse of `of` (before the affine part): value * den / 2^exp as an integer, if it is one.
  fn int(&self, e: &Emb) -> Option<i128>;
  /// Exact value.
  fn rat(&self) -> BigRational;
  fn same(&self, o: &Self) -> bool {
    self == o
  }
}

macro_rules! int_sc {
  ($($t:ident)*) => { $(
    impl Sc for $t {
      const NAME: &'static str = stringify!($t);
      const RANGE: (i128, i128) = ($t::MIN as i128, $t::MAX as i128);
      const EXP: (i32, i32) = (0, 0);
      const RATIONAL: bool = false;
      const BOUNDED_INT: bool = true;
      fn of(c: i128, _: &Emb) -> Self { <$t>::try_from(c).expect("harness: embedding out of range") }
      fn int(&self, _: &Emb) -> Option<i128> { Some(*self as i128) }
      fn rat(&self) -> BigRational { BigRational::from(BigInt::from(*self)) }
    }
  )* };
}
int_sc!(i8 i16 i32 i64 isize);

impl Sc for Cnt {
  const NAME: &'static str = "counting-i64";
  const RANGE: (i128, i128) = (i64::MIN as i128, i64::MAX as i128);
  const EXP: (i32, i32) = (0, 0);
  const RATIONAL: bool = false;
  const BOUNDED_INT: bool = true;
  fn of(c: i128, _: &Emb) -> Self {
    Cnt(c as i64)
  }
  fn int(&self, _: &Emb) -> Option<i128> {
    Some(self.0 as i128)
  }
  fn rat(&self) -> BigRational {
    BigRational::from(BigInt::from(self.0))
  }
}

fn f_of(c: i128, e: &Emb) -> f64 {
  (c as f64) * (2f64).powi(e.exp)
}
fn f_int(v: f64, e: &Emb) -> Option<i128> {
  let x = v * (2f64).powi(-e.exp);
  if x == x.trunc() && x.abs() < 1e30 {
    Some(x as i128)
  } else {
    None
  }
}
macro_rules! float_sc {
  ($($name:literal $t:ty, $f:ty, $mant:literal, $exp:literal, |$c:ident| $mk:expr, |$v:ident| $un:expr;)*) => { $(
    impl Sc for $t {
      const NAME: &'static str = $name;
      const RANGE: (i128, i128) = (-(1i128 << $mant), 1i128 << $mant);
      const EXP: (i32, i32) = (-$exp, $exp);
      const RATIONAL: bool = false;
      const BOUNDED_INT: bool = false;
      fn of(c: i128, e: &Emb) -> Self { let $c = f_of(c, e) as $f; $mk }
      fn int(&self, e: &Emb) -> Option<i128> { let $v = *self; f_int($un as f64, e) }
      fn rat(&self) -> BigRational { let $v = *self; BigRational::from_float($un).unwrap() }
    }
  )* };
}
float_sc! {
  "f64" f64, f64, 53, 150, |c| c, |v| v;
  "f32" f32, f32, 24, 60, |c| c, |v| v;
  "OrderedFloat<f64>" OrderedFloat<f64>, f64, 53, 150, |c| OrderedFloat(c), |v| v.into_inner();
  "OrderedFloat<f32>" OrderedFloat<f32>, f32, 24, 60, |c| OrderedFloat(c), |v| v.into_inner();
  "NotNan<f64>" NotNan<f64>, f64, 53, 150, |c| NotNan::new(c).unwrap(), |v| v.into_inner();
  "NotNan<f32>" NotNan<f32>, f32, 24, 60, |c| NotNan::new(c).unwrap(), |v| v.into_inner();
}

impl Sc for BigInt {
  const NAME: &'static str = "BigInt";
  const RANGE: (i128, i128) = (-(1i128 << 120), 1i128 << 120);
  const EXP: (i32, i32) = (0, 200);
  const RATIONAL: bool = false;
  const BOUNDED_INT: bool = false;
  fn of(c: i128, e: &Emb) -> Self {
    BigInt::from(c) << e.exp
  }
  fn int(&self, e: &Emb) -> Option<i128> {
    let q: BigInt = self >> e.exp;
    if (&q << e.exp) == *self {
      q.to_i128()
    } else {
      None
    }
  }
  fn rat(&self) -> BigRational {
    BigRational::from(self.clone())
  }
}
impl Sc for rug::Integer {
  const NAME: &'static str = "rug::Integer";
  const RANGE: (i128, i128) = (-(1i128 << 120), 1i128 << 120);
  const EXP: (i32, i32) = (0, 200);
  const RATIONAL: bool = false;
  const BOUNDED_INT: bool = false;
  fn of(c: i128, e: &Emb) -> Self {
    rug::Integer::from(c) << e.exp
  }
  fn int(&self, e: &Emb) -> Option<i128> {
    let q = rug::Integer::from(self >> e.exp);
    if rug::Integer::from(&q << e.exp) == *self {
      q.to_i128()
    } else {
      None
    }
  }
  fn rat(&self) -> BigRational {
    BigRational::from(self.to_string().parse::<BigInt>().unwrap())
  }
}
impl Sc for BigRational {
  const NAME: &'static str = "BigRational";
  const RANGE: (i128, i128) = (-(1i128 << 120), 1i128 << 120);
  const EXP: (i32, i32) = (-100, 100);
  const RATIONAL: bool = true;
  const BOUNDED_INT: bool = false;
  fn of(c: i128, e: &Emb) -> Self {
    let r = BigRational::new(BigInt::from(c), BigInt::from(e.den));
    if e.exp >= 0 {
      r * (BigInt::one() << e.exp)
    } else {
      r / (BigInt::one() << -e.exp)
    }
  }
  fn int(&self, e: &Emb) -> Option<i128> {
    let mut r = self * BigInt::from(e.den);
    if e.exp >= 0 {
      r /= BigInt::one() << e.exp
    } else {
      r *= BigInt::one() << -e.exp
    }
    if r.is_integer() {
      r.to_integer().to_i128()
    } else {
      None
    }
  }
  fn rat(&self) -> BigRational {
    self.clone()
  }
}

/// Choose an exact embedding of the canonical box lo..=hi into T, or None if it cannot
/// be embedded (box larger than the type).
pub fn emb<T: Sc>(s: &mut Src, lo: P, hi: P) -> Option<Emb> {
  let (mn, mx) = T::RANGE;
  let (lo, hi) = ([lo[0] as i128, lo[1] as i128], [hi[0] as i128, hi[1] as i128]);
  let ext = (hi[0] - lo[0]).max(hi[1] - lo[1]);
  if ext > mx - mn {
    return None;
  }
  let id_ok = (0..2).all(|k| mn <= lo[k] && hi[k] <= mx);
  let mode = s.weighted(&[5, 1, 1, 2, 2]);
  let max_mul = if ext == 0 { 1 << 40 } else { ((mx - mn) / ext).min(1 << 62) };
  let mut e = Emb::ID;
  // put canonical a at type value t on axis k
  let pin = |mul: i128, a: i128, t: i128| t - a * mul;
  match mode {
    0 if id_ok => {}
    1 => {
      for k in 0..2 {
        e.add[k] = pin(1, lo[k], mn);
      }
    }
    2 => {
      for k in 0..2 {
        e.add[k] = pin(1, hi[k], mx);
      }
    }
    3 => {
      // stretched as far as the type allows
      e.mul = max_mul;
      for k in 0..2 {
        e.add[k] = if s.flip() { pin(e.mul, lo[k], mn) } else { pin(e.mul, hi[k], mx) };
      }
    }
    _ => {
      let m = max_mul.min(1 << 62) as i64;
      e.mul = s.range(1, m.max(1)) as i128;
      for k in 0..2 {
        let room = (mx - mn) - (hi[k] - lo[k]) * e.mul;
        let r = s.range(0, room.min(1 << 62) as i64) as i128;
        e.add[k] = pin(e.mul, lo[k], mn) + r;
      }
    }
  }
  if T::EXP != (0, 0) && s.chance(1, 4) {
    e.exp = s.range(T::EXP.0 as i64, T::EXP.1 as i64) as i32;
  }
  if T::RATIONAL && s.flip() {
    e.den = s.pick(&[2i64, 3, 7, 10, 97, 1_000_003]);
  }
  Some(e)
}

pub fn pt<T: Sc>(p: P, e: &Emb) -> Point<T> {
  Point::new([
    T::of(p[0] as i128 * e.mul + e.add[0], e),
    T::of(p[1] as i128 * e.mul + e.add[1], e),
  ])
}
pub fn pts<T: Sc>(v: &[P], e: &Emb) -> Vec<Point<T>> {
  v.iter().map(|p| pt(*p, e)).collect()
}
/// A direction vector (no translation, no scaling by mul).
pub fn vec2<T: Sc>(d: P, e: &Emb) -> Vector<T, 2> {
  Vector([T::of(d[0] as i128, e), T::of(d[1] as i128, e)])
}
/// Does the canonical vector fit as a direction in T?
pub fn vec_fits<T: Sc>(d: P) -> bool {
  (0..2).all(|k| T::RANGE.0 <= d[k] as i128 && d[k] as i128 <= T::RANGE.1)
}
/// Canonical coordinates of an output point; None if it is not on the canonical lattice.
pub fn back<T: Sc>(p: &Point<T>, e: &Emb) -> Option<P> {
  let mut o = [0i64; 2];
  for k in 0..2 {
    let v = p.array[k].int(e)? - e.add[k];
    if v % e.mul != 0 {
      return None;
    }
    o[k] = i64::try_from(v / e.mul).ok()?;
  }
  Some(o)
}
/// Boundary vertices of a polygon in canonical coordinates.
pub fn ring<T: Sc>(p: &Polygon<T>, e: &Emb) -> Result<Vec<P>, String> {
  p.boundary_slice()
    .iter()
    .map(|id| {
      back(p.point(*id), e).ok_or_else(|| format!("vertex {:?} is not an input point", p.point(*id)))
    })
    .collect()
}
pub fn ring_of<T: Sc>(it: impl Iterator<Item = Point<T>>, e: &Emb) -> Result<Vec<P>, String> {
  it.map(|q| back(&q, e).ok_or_else(|| format!("vertex {q:?} is not an input point"))).collect()
}

pub fn zero_rat() -> BigRational {
  BigRational::zero()
}

/// Generation of single coordinates over the whole type, biased to the interesting
/// places (extremes, tiny values, powers of two, negative zero).
pub trait Coord: Sc {
  fn coord(s: &mut Src, mode: usize) -> Self;
  /// A value next to self (one unit / one ulp away), staying in the type.
  fn nudge(&self, s: &mut Src) -> Self;
  /// Exact conversion if the value is representable.
  fn from_rat(r: &BigRational) -> Option<Self>;
  fn extreme(&self) -> bool;
}
macro_rules! int_coord {
  ($($t:ident)*) => { $(
    impl Coord for $t {
      fn coord(s: &mut Src, mode: usize) -> Self {
        match mode {
          0 => s.sym(3) as $t,
          1 => s.pick(&[0, 1, -1, $t::MAX, $t::MIN, $t::MAX - 1, $t::MIN + 1, $t::MAX / 2, $t::MIN / 2, $t::MAX / 2 + 1, 2, -2]),
          2 => s.range($t::MIN as i64, $t::MAX as i64) as $t,
          3 => {
            let b = s.below($t::BITS as usize);
            let v = (1 as $t).wrapping_shl(b as u32).wrapping_add(s.sym(2) as $t);
            if s.flip() { v.wrapping_neg() } else { v }
          }
          _ => if s.flip() { $t::MAX.wrapping_sub(s.range(0, 3) as $t) } else { $t::MIN.wrapping_add(s.range(0, 3) as $t) },
        }
      }
      fn nudge(&self, s: &mut Src) -> Self { self.saturating_add(s.sym(1) as $t) }
      fn from_rat(r: &BigRational) -> Option<Self> {
        if !r.is_integer() { return None; }
        let v = r.to_integer().to_i128()?;
        <$t>::try_from(v).ok()
      }
      fn extreme(&self) -> bool {
        let q = $t::MAX / 8 * 7;
        *self > q || *self < -q
      }
    }
  )* };
}
int_coord!(i8 i16 i32 i64 isize);

macro_rules! float_coord {
  ($($t:ty, $f:ident, $mant:literal, $exp:literal, $top:literal, |$c:ident| $mk:expr, |$v:ident| $un:expr;)*) => { $(
    impl Coord for $t {
      fn coord(s: &mut Src, mode: usize) -> Self {
        let $c: $f = match mode {
          0 => s.sym(3) as $f,
          1 => s.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 0.2, 0.3, -0.7, 1.5, 1e9, 1e-9, 12.0, 24.0]),
          2 => s.sym(1 << $mant) as $f,
          3 => {
            let m = s.sym(1 << $mant) as $f;
            let e = s.range(-$exp, $exp) as i32;
            m * (2.0 as $f).powi(e)
          }
          // nearby values with many bits: orientation needs the exact tail
          _ => {
            let base = s.pick(&[0.5 as $f, 12.0, 1.0, 100.1]);
            $f::from_bits(base.to_bits() + s.range(0, 300) as <$f as FBits>::B)
          }
        };
        $mk
      }
      fn nudge(&self, s: &mut Src) -> Self {
        let $v = *self;
        let x: $f = $un;
        let $c: $f = if x == 0.0 { x } else { $f::from_bits((x.to_bits() as i64 + s.sym(1)) as <$f as FBits>::B) };
        $mk
      }
      fn from_rat(r: &BigRational) -> Option<Self> {
        let x = r.to_f64()? as $f;
        if !x.is_finite() || (x != 0.0 && (x.abs() > (2.0 as $f).powi($top) || x.abs() < (2.0 as $f).powi(-$top))) { return None; }
        if BigRational::from_float(x)? == *r { let $c = x; Some($mk) } else { None }
      }
      fn extreme(&self) -> bool { false }
    }
  )* };
}
pub trait FBits {
  type B;
}
impl FBits for f64 {
  type B = u64;
}
impl FBits for f32 {
  type B = u32;
}
float_coord! {
  f64, f64, 53, 150, 240, |c| c, |v| v;
  f32, f32, 24, 60, 100, |c| c, |v| v;
  OrderedFloat<f64>, f64, 53, 150, 240, |c| OrderedFloat(c), |v| v.into_inner();
  OrderedFloat<f32>, f32, 24, 60, 100, |c| OrderedFloat(c), |v| v.into_inner();
  NotNan<f64>, f64, 53, 150, 240, |c| NotNan::new(c).unwrap(), |v| v.into_inner();
  NotNan<f32>, f32, 24, 60, 100, |c| NotNan::new(c).unwrap(), |v| v.into_inner();
}
fn big(s: &mut Src, mode: usize) -> BigInt {
  match mode {
    0 => BigInt::from(s.sym(3)),
    1 => BigInt::from(s.pick(&[0i64, 1, -1, i64::MAX, i64::MIN, u32::MAX as i64])),
    2 => BigInt::from(s.raw64() as i64),
    3 => {
      let b = s.below(300);
      let v = (BigInt::one() << b) + BigInt::from(s.sym(2));
      if s.flip() {
        -v
      } else {
        v
      }
    }
    _ => (BigInt::from(s.raw64() as i64) << 64) + BigInt::from(s.raw64()),
  }
}
impl Coord for BigInt {
  fn coord(s: &mut Src, mode: usize) -> Self {
    big(s, mode)
  }
  fn nudge(&self, s: &mut Src) -> Self {
    self + BigInt::from(s.sym(1))
  }
  fn from_rat(r: &BigRational) -> Option<Self> {
    r.is_integer().then(|| r.to_integer())
  }
  fn extreme(&self) -> bool {
    self.bits() > 64
  }
}
impl Coord for rug::Integer {
  fn coord(s: &mut Src, mode: usize) -> Self {
    big(s, mode).to_string().parse().unwrap()
  }
  fn nudge(&self, s: &mut Src) -> Self {
    rug::Integer::from(self + s.sym(1))
  }
  fn from_rat(r: &BigRational) -> Option<Self> {
    r.is_integer().then(|| r.to_integer().to_string().parse().unwrap())
  }
  fn extreme(&self) -> bool {
    self.significant_bits() > 64
  }
}
impl Coord for BigRational {
  fn coord(s: &mut Src, mode: usize) -> Self {
    let d = match s.below(4) {
      0 => 1,
      1 => s.range(1, 10),
      2 => s.range(1, 1_000_000),
      _ => i64::MAX - s.range(0, 50),
    };
    BigRational::new(big(s, mode), BigInt::from(d))
  }
  fn nudge(&self, s: &mut Src) -> Self {
    self + BigRational::new(BigInt::from(s.sym(1)), BigInt::from(s.range(1, 1000)))
  }
  fn from_rat(r: &BigRational) -> Option<Self> {
    Some(r.clone())
  }
  fn extreme(&self) -> bool {
    self.numer().bits() > 64
  }
}

/// k points over T with exact degeneracies: later points repeat, continue a line,
/// or sit one unit/ulp off a line.
pub fn degenerate_points<T: Coord>(s: &mut Src, k: usize) -> Vec<[T; 2]> {
  let mode = s.below(5);
  let mixed = s.chance(1, 4);
  let mut v: Vec<[T; 2]> = vec![];
  for i in 0..k {
    let fresh = |s: &mut Src| {
      let m1 = if mixed { s.below(5) } else { mode };
      let m2 = if mixed { s.below(5) } else { mode };
      [T::coord(s, m1), T::coord(s, m2)]
    };
    let q = match if i == 0 { 0 } else { s.weighted(&[4, 1, 1, 4, 3]) } {
      0 => fresh(s),
      1 => s.pick(&v),
      2 => {
        // share one coordinate
        let o = s.pick(&v);
        let f = fresh(s);
        if s.flip() {
          [o[0].clone(), f[1].clone()]
        } else {
          [f[0].clone(), o[1].clone()]
        }
      }
      c => {
        // p + t (q - p), exactly representable or rejected; possibly nudged
        let a = s.pick(&v);
        let b = s.pick(&v);
        let t = BigRational::new(BigInt::from(s.sym(4)), BigInt::from(s.pick(&[1i64, 2, 1, 3, 4])));
        let mut o = vec![];
        for k in 0..2 {
          let (x, y) = (a[k].rat(), b[k].rat());
          if let Some(z) = T::from_rat(&(&x + (&y - &x) * &t)) {
            o.push(z);
          }
        }
        if o.len() == 2 {
          let (mut x, mut y) = (o[0].clone(), o[1].clone());
          if c == 4 {
            x = x.nudge(s);
            y = y.nudge(s);
          }
          [x, y]
        } else {
          fresh(s)
        }
      }
    };
    v.push(q);
  }
  v
}
/// Such points in the order of a simple counter-clockwise polygon (untangled in rationals).
pub fn degenerate_polygon<T: Coord>(s: &mut Src, all: &[[T; 2]]) -> Option<Vec<[T; 2]>> {
  let mut seen: Vec<Point<BigRational>> = vec![];
  let mut keep = vec![];
  for a in all {
    let q = Point::new([a[0].rat(), a[1].rat()]);
    if !seen.contains(&q) {
      seen.push(q);
      keep.push(a.clone());
    }
  }
  let mut rng = crate::Rg::gen(s).limit(1_000_000);
  let q = rgeometry::algorithms::polygonization::two_opt_moves(seen.clone(), &mut rng).ok()?;
  Some(q.iter_boundary().map(|v| keep[seen.iter().position(|x| x == v.point()).unwrap()].clone()).collect())
}
/// A direction vector correlated with the points.
pub fn degenerate_vector<T: Coord>(s: &mut Src, v: &[[T; 2]]) -> [T; 2] {
  let m = s.below(5);
  if s.flip() {
    return [T::coord(s, m), T::coord(s, m)];
  }
  // a difference of two points, possibly scaled, rotated or negated
  let (a, b) = (s.pick(v), s.pick(v));
  let t = BigRational::new(BigInt::from(s.pick(&[1i64, -1, 2, -2, 3])), BigInt::from(s.pick(&[1i64, 2, 1])));
  let d = [(b[0].rat() - a[0].rat()) * &t, (b[1].rat() - a[1].rat()) * &t];
  let d = if s.flip() { [-d[1].clone(), d[0].clone()] } else { d };
  match (T::from_rat(&d[0]), T::from_rat(&d[1])) {
    (Some(x), Some(y)) => [x, y],
    _ => [T::coord(s, m), T::coord(s, m)],
  }
}
pub fn r2<T: Sc>(p: &[T; 2]) -> [BigRational; 2] {
  [p[0].rat(), p[1].rat()]
}
pub type Q = BigRational;
pub fn rsub(a: &[Q; 2], b: &[Q; 2]) -> [Q; 2] {
  [&a[0] - &b[0], &a[1] - &b[1]]
}
pub fn rcross(a: &[Q; 2], b: &[Q; 2]) -> Q {
  &a[0] * &b[1] - &a[1] * &b[0]
}
pub fn rdot(a: &[Q; 2], b: &[Q; 2]) -> Q {
  &a[0] * &b[0] + &a[1] * &b[1]
}
