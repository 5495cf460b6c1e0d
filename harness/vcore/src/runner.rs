use crate::alloc;
use crate::src::Src;
use crate::util::{jstr, splitmix, Fnv};
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{
  Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

/// One generator + oracle pair of a check.
pub struct Part {
  pub name: &'static str,
  /// Cases generated in the quick tier / thorough tier.
  pub quick: u64,
  pub thorough: u64,
  /// Length of the generated choice sequence. 0: `quick`/`thorough` cases are the
  /// indices 0..n of an enumeration (decoded with `raw64`).
  pub len: usize,
  pub run: fn(&mut Src, &mut Ctx) -> Result<(), String>,
}

pub struct Spec {
  pub id: &'static str,
  pub rule: &'static str,
  pub assumptions: &'static [&'static str],
  pub parts: &'static [Part],
}

/// Collected by a case while it runs.
pub struct Ctx {
  pub record: bool,
  pub thorough: bool,
  desc: Option<String>,
  key: u64,
  has_key: bool,
  nontrivial: bool,
  classes: Vec<&'static str>,
}

impl Ctx {
  fn new(record: bool, thorough: bool) -> Ctx {
    Ctx { record, thorough, desc: None, key: 0, has_key: false, nontrivial: false, classes: vec![] }
  }
  /// Identify the decoded case (for counting distinct ones) and describe it.
  pub fn case<K: Hash + ?Sized>(&mut self, key: &K, desc: impl FnOnce() -> String) {
    let mut h = Fnv(0xcbf29ce484222325 ^ self.key);
    key.hash(&mut h);
    self.key = h.finish();
    self.has_key = true;
    if self.record {
      let d = desc();
      match &mut self.desc {
        None => self.desc = Some(d),
        Some(old) => {
          old.push_str("; ");
          old.push_str(&d)
        }
      }
    }
  }
  pub fn note(&mut self, desc: impl FnOnce() -> String) {
    if self.record {
      let d = desc();
      let s = self.desc.get_or_insert_with(String::new);
      s.push_str("; ");
      s.push_str(&d);
    }
  }
  pub fn nontrivial(&mut self) {
    self.nontrivial = true
  }
  pub fn nontrivial_if(&mut self, b: bool) {
    self.nontrivial |= b
  }
  pub fn class(&mut self, c: &'static str) {
    self.classes.push(c)
  }
  pub fn class_if(&mut self, b: bool, c: &'static str) {
    if b {
      self.classes.push(c)
    }
  }
}

#[macro_export]
macro_rules! ensure {
  ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
  ($a:expr, $b:expr, $($t:tt)*) => {{
    let (a, b) = (&$a, &$b);
    if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
  }};
}

// ---------------------------------------------------------------------------
// proptest strategy over choice sequences

#[derive(Debug)]
struct Choices {
  len: usize,
}

thread_local! {
  static LAST_USED: Cell<usize> = const { Cell::new(0) };
  static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
  static QUIET: Cell<bool> = const { Cell::new(false) };
  static CURRENT: RefCell<(usize, Vec<u32>)> = const { RefCell::new((0, Vec::new())) };
}

#[derive(Clone, Copy)]
enum Phase {
  Start,
  Delete { size: usize, pos: usize, tried: bool },
  Zero { size: usize, pos: usize },
  Min { pos: usize, lo: u32, steps: u32 },
  Done,
}

/// Shrinks by deleting blocks, zeroing blocks and bisecting single choices.
pub struct ChoiceTree {
  best: Vec<u32>,
  cur: Vec<u32>,
  phase: Phase,
  improved: bool,
  rounds: u32,
}

impl ChoiceTree {
  /// Produce the next candidate; `success` says whether the previous candidate (now
  /// `best` if so) still failed the check.
  fn advance(&mut self, success: bool) -> bool {
    let mut last = success;
    loop {
      let s = std::mem::replace(&mut last, false);
      let n = self.best.len();
      match self.phase {
        Phase::Start => {
          self.rounds += 1;
          let used = LAST_USED.with(|u| u.get());
          if self.rounds == 1 && used < n {
            self.best.truncate(used);
          }
          let n = self.best.len();
          self.improved = false;
          self.phase = Phase::Delete { size: (n / 2).max(1), pos: 0, tried: false };
        }
        Phase::Delete { size, mut pos, tried } => {
          if tried {
            if s {
              self.improved = true;
            } else {
              pos += size;
            }
          }
          if pos >= n {
            self.phase = if size <= 1 {
              Phase::Zero { size: (n / 4).clamp(1, 64), pos: 0 }
            } else {
              Phase::Delete { size: size / 2, pos: 0, tried: false }
            };
            continue;
          }
          let mut c = self.best.clone();
          c.drain(pos..(pos + size).min(n));
          self.cur = c;
          self.phase = Phase::Delete { size, pos, tried: true };
          return true;
        }
        Phase::Zero { size, pos } => {
          self.improved |= s;
          if pos >= n {
            self.phase = if size <= 1 {
              Phase::Min { pos: 0, lo: 0, steps: 0 }
            } else {
              Phase::Zero { size: size / 2, pos: 0 }
            };
            continue;
          }
          let (a, b) = (pos, (pos + size).min(n));
          self.phase = Phase::Zero { size, pos: b };
          if self.best[a..b].iter().all(|x| *x == 0) {
            continue;
          }
          let mut c = self.best.clone();
          c[a..b].iter_mut().for_each(|x| *x = 0);
          self.cur = c;
          return true;
        }
        Phase::Min { pos, mut lo, steps } => {
          if pos >= n {
            if self.improved && self.rounds < 4 {
              self.phase = Phase::Start;
            } else {
              self.phase = Phase::Done;
            }
            continue;
          }
          if steps > 0 {
            if s {
              self.improved = true;
            } else {
              lo = self.cur[pos].saturating_add(1);
            }
          }
          let hi = self.best[pos];
          if lo >= hi || steps > 18 {
            self.phase = Phase::Min { pos: pos + 1, lo: 0, steps: 0 };
            continue;
          }
          let mid = lo + (hi - lo) / 2;
          let mut c = self.best.clone();
          c[pos] = mid;
          self.cur = c;
          self.phase = Phase::Min { pos, lo, steps: steps + 1 };
          return true;
        }
        Phase::Done => {
          self.cur = self.best.clone();
          return false;
        }
      }
    }
  }
}

impl ValueTree for ChoiceTree {
  type Value = Vec<u32>;
  fn current(&self) -> Vec<u32> {
    self.cur.clone()
  }
  fn simplify(&mut self) -> bool {
    self.best = self.cur.clone();
    self.advance(true)
  }
  fn complicate(&mut self) -> bool {
    self.advance(false)
  }
}

impl Strategy for Choices {
  type Tree = ChoiceTree;
  type Value = Vec<u32>;
  fn new_tree(&self, r: &mut TestRunner) -> NewTree<Self> {
    use proptest::prelude::RngCore;
    let rng = r.rng();
    let style = rng.next_u32() % 8;
    let n = self.len;
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
      let x = rng.next_u32();
      v.push(match style {
        // a share of minimal choices
        0 if x % 3 == 0 => 0,
        // a share of repeats of an earlier choice
        1 if i > 0 && x % 3 == 0 => v[(x / 3) as usize % i],
        // a share of minimal and maximal choices
        2 if x % 4 == 0 => {
          if x % 8 == 0 {
            0
          } else {
            u32::MAX
          }
        }
        _ => x,
      });
    }
    Ok(ChoiceTree { best: v.clone(), cur: v, phase: Phase::Start, improved: false, rounds: 0 })
  }
}

// ---------------------------------------------------------------------------
// running

struct Global {
  spec: &'static Spec,
  seed: u64,
  thorough: bool,
  root: String,
  start: Instant,
  known: Vec<(String, String)>,
}
static GLOBAL: OnceLock<Global> = OnceLock::new();

fn g() -> &'static Global {
  GLOBAL.get().unwrap()
}

#[derive(Default)]
struct Counts {
  evaluations: u64,
  keys: HashSet<u64>,
  classes: BTreeMap<&'static str, u64>,
  samples: Vec<String>,
  known_hits: BTreeMap<String, u64>,
}

struct Failure {
  part: usize,
  choices: Vec<u32>,
  why: String,
}

static STOP: AtomicBool = AtomicBool::new(false);
/// What each worker is running, for the watchdog: a count of started cases (0 when idle),
/// the worker's CPU clock, and the case.
struct Slot {
  seq: AtomicU64,
  clock: AtomicU64,
  case: Mutex<(usize, Vec<u32>)>,
}
static SLOTS: [Slot; 64] = [const {
  Slot { seq: AtomicU64::new(0), clock: AtomicU64::new(0), case: Mutex::new((0, Vec::new())) }
}; 64];
thread_local! {
  static SLOT: Cell<usize> = const { Cell::new(63) };
  static SEQ: Cell<u64> = const { Cell::new(0) };
}
/// CPU seconds (of the worker itself, not of the machine) after which a case counts as
/// not terminating. Cases normally take well under a second.
const HANG_CPU_S: f64 = 100.0;

fn enter_slot(i: usize) {
  SLOT.with(|s| s.set(i));
  let mut id: libc::clockid_t = 0;
  if unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) } == 0 {
    SLOTS[i].clock.store(id as u32 as u64 | 1 << 32, Ordering::SeqCst);
  }
}
fn leave_slot(i: usize) {
  SLOTS[i].seq.store(0, Ordering::SeqCst);
  SLOTS[i].clock.store(0, Ordering::SeqCst);
}
fn cpu(i: usize) -> Option<f64> {
  let id = SLOTS[i].clock.load(Ordering::SeqCst);
  if id >> 32 == 0 {
    return None;
  }
  let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
  if unsafe { libc::clock_gettime(id as u32 as libc::clockid_t, &mut ts) } != 0 {
    return None;
  }
  Some(ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9)
}
fn watchdog() {
  let mut last = [(0u64, 0f64); 64];
  loop {
    std::thread::sleep(std::time::Duration::from_millis(500));
    for i in 0..64 {
      let seq = SLOTS[i].seq.load(Ordering::SeqCst);
      let Some(now) = (if seq == 0 { None } else { cpu(i) }) else {
        last[i].0 = 0;
        continue;
      };
      if last[i].0 != seq {
        last[i] = (seq, now);
      } else if now - last[i].1 > HANG_CPU_S {
        let Ok(c) = SLOTS[i].case.try_lock() else { continue };
        if SLOTS[i].seq.load(Ordering::SeqCst) != seq {
          continue;
        }
        let why = format!("does not terminate: one case used more than {HANG_CPU_S} s of CPU time");
        let p = write_replay(c.0, &c.1, &why, "");
        println!("part {}: {why}", g().spec.parts[c.0].name);
        println!("VIOLATION property={} replay={p}", g().spec.id);
        write_evidence(&Counts::default(), &[], 1, &[format!("violation: {why}")]);
        std::process::exit(1);
      }
    }
  }
}
const LIVE_BYTES: i64 = 1 << 30;

fn exec(part: usize, choices: &[u32], record: bool) -> (Result<(), String>, Ctx) {
  let gl = g();
  let mut ctx = Ctx::new(record, gl.thorough);
  CURRENT.with(|c| {
    let mut c = c.borrow_mut();
    c.0 = part;
    c.1.clear();
    c.1.extend_from_slice(choices);
  });
  let slot = &SLOTS[SLOT.with(|s| s.get())];
  {
    let mut c = slot.case.lock().unwrap();
    c.0 = part;
    c.1.clear();
    c.1.extend_from_slice(choices);
  }
  let seq = SEQ.with(|s| {
    s.set(s.get() + 1);
    s.get()
  });
  slot.seq.store(seq, Ordering::SeqCst);
  QUIET.with(|q| q.set(true));
  LAST_PANIC.with(|p| *p.borrow_mut() = None);
  alloc::arm(LIVE_BYTES);
  let mut used = 0;
  let r = {
    let ctx = &mut ctx;
    let used = &mut used;
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
      let mut src = Src::new(choices);
      let r = (gl.spec.parts[part].run)(&mut src, ctx);
      *used = src.used();
      r
    }))
  };
  alloc::disarm();
  slot.seq.store(0, Ordering::SeqCst);
  QUIET.with(|q| q.set(false));
  let r = match r {
    Ok(r) => {
      LAST_USED.with(|u| u.set(used));
      r
    }
    Err(_) => {
      LAST_USED.with(|u| u.set(usize::MAX));
      let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
      Err(format!("panicked: {m}"))
    }
  };
  (r, ctx)
}

/// Run `f`, turning a panic into Err(message).
pub fn catching<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
    Ok(r) => Ok(r),
    Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
  }
}

fn known_sig(why: &str) -> Option<&'static str> {
  g().known.iter().find(|(sig, _)| why.starts_with(&format!("[{sig}]"))).map(|(s, _)| s.as_str())
}

fn record(c: &mut Counts, part: &Part, ctx: Ctx) {
  c.evaluations += 1;
  if ctx.nontrivial && ctx.has_key {
    let mut h = Fnv::default();
    part.name.hash(&mut h);
    ctx.key.hash(&mut h);
    c.keys.insert(h.finish());
  }
  for k in ctx.classes {
    *c.classes.entry(k).or_insert(0) += 1;
  }
  if ctx.nontrivial {
    if let Some(d) = ctx.desc {
      if c.samples.len() < 3 {
        let mut d = format!("{}: {}", part.name, d);
        if d.len() > 700 {
          let mut cut = 700;
          while !d.is_char_boundary(cut) {
            cut -= 1;
          }
          d.truncate(cut);
          d.push_str("...");
        }
        c.samples.push(d);
      }
    }
  }
}

fn shard(part_i: usize, sh: u64, shards: u64, cases: u64) -> (Counts, Option<Failure>) {
  let gl = g();
  let part = &gl.spec.parts[part_i];
  let mut counts = Counts::default();
  let mut n = 0u64;
  if part.len == 0 {
    let mut i = sh;
    while i < cases && !STOP.load(Ordering::Relaxed) {
      let choices = [(i >> 32) as u32, i as u32];
      let rec = sh == 0 && counts.samples.len() < 3;
      let (r, ctx) = exec(part_i, &choices, rec);
      record(&mut counts, part, ctx);
      if let Err(why) = r {
        if let Some(k) = known_sig(&why) {
          *counts.known_hits.entry(k.to_string()).or_insert(0) += 1;
        } else {
          STOP.store(true, Ordering::Relaxed);
          return (counts, Some(Failure { part: part_i, choices: choices.to_vec(), why }));
        }
      }
      i += shards;
    }
    return (counts, None);
  }
  let my = cases / shards + if sh < cases % shards { 1 } else { 0 };
  if my == 0 {
    return (counts, None);
  }
  let mut st = gl.seed ^ (0x5851F42D4C957F2D_u64.wrapping_mul(part_i as u64 + 1)) ^ (sh << 40);
  let mut seed = [0u8; 32];
  for c in seed.chunks_mut(8) {
    c.copy_from_slice(&splitmix(&mut st).to_le_bytes());
  }
  let config = Config {
    cases: my as u32,
    failure_persistence: None,
    source_file: None,
    max_shrink_iters: 20_000,
    max_shrink_time: 60_000,
    verbose: 0,
    ..Config::default()
  };
  let mut runner =
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
  let cell = RefCell::new((&mut counts, &mut n, false));
  let res = runner.run(&Choices { len: part.len }, |choices| {
    let mut st = cell.borrow_mut();
    let (counts, n, failed) = &mut *st;
    if !*failed && STOP.load(Ordering::Relaxed) {
      return Ok(());
    }
    // describe a few cases spread over the run
    let rec = sh == 0 && counts.samples.len() < 3 && **n >= my / 50;
    **n += 1;
    let (r, ctx) = exec(part_i, &choices, rec);
    if !*failed {
      record(counts, part, ctx);
    }
    match r {
      Ok(()) => Ok(()),
      Err(why) => {
        if let Some(k) = known_sig(&why) {
          if !*failed {
            *counts.known_hits.entry(k.to_string()).or_insert(0) += 1;
          }
          return Ok(());
        }
        *failed = true;
        STOP.store(true, Ordering::Relaxed);
        Err(TestCaseError::fail(why))
      }
    }
  });
  let f = match res {
    Ok(()) => None,
    Err(TestError::Fail(why, choices)) => {
      Some(Failure { part: part_i, choices, why: why.to_string() })
    }
    Err(TestError::Abort(why)) => {
      println!("ERROR: proptest aborted: {why}");
      std::process::exit(2)
    }
  };
  (counts, f)
}

fn replay_path() -> String {
  let gl = g();
  let dir = format!("{}/replays", gl.root);
  let _ = std::fs::create_dir_all(&dir);
  format!("{dir}/{}-seed{}.json", gl.spec.id, gl.seed)
}

fn write_replay(part: usize, choices: &[u32], why: &str, desc: &str) -> String {
  let gl = g();
  let p = replay_path();
  let cs: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
  let s = format!(
    "{{\n \"property\": {},\n \"part\": {},\n \"why\": {},\n \"case\": {},\n \"replay_with\": {},\n \"choices\": [{}]\n}}\n",
    jstr(gl.spec.id),
    jstr(gl.spec.parts[part].name),
    jstr(why),
    jstr(desc),
    jstr(&format!("./run.sh {} --replay {}", gl.spec.id, p)),
    cs.join(",")
  );
  let _ = std::fs::write(&p, s);
  p
}

fn exceeded() -> ! {
  // The budget is disarmed. Report the (unshrunk) case and stop.
  let (part, choices) =
    CURRENT.with(|c| c.try_borrow().map(|c| c.clone()).unwrap_or((0, vec![])));
  let why = format!("the case holds more than {LIVE_BYTES} bytes of live memory (deterministic budget)");
  let p = write_replay(part, &choices, &why, "not decoded: see choices");
  println!("{why}");
  println!("VIOLATION property={} replay={}", g().spec.id, p);
  write_evidence(&Counts::default(), &[], 1, &[]);
  std::process::exit(1)
}

fn write_evidence(c: &Counts, parts: &[(String, u64, f64)], violations: u32, extra: &[String]) {
  let gl = g();
  let mut s = String::new();
  s.push_str("{\n");
  s.push_str(&format!(" \"property\": {},\n", jstr(gl.spec.id)));
  s.push_str(&format!(" \"tier\": {},\n", jstr(if gl.thorough { "thorough" } else { "quick" })));
  s.push_str(&format!(" \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n", gl.seed));
  s.push_str(&format!("  \"evaluations\": {},\n", c.evaluations));
  s.push_str(&format!("  \"distinct_nontrivial\": {},\n", c.keys.len()));
  s.push_str(&format!("  \"rule\": {},\n", jstr(gl.spec.rule)));
  let cl: Vec<String> = c.classes.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
  s.push_str(&format!("  \"classes\": {{{}}},\n", cl.join(", ")));
  let ps: Vec<String> = parts
    .iter()
    .map(|(n, k, t)| format!("{}: {{\"cases\": {}, \"wall_s\": {:.2}}}", jstr(n), k, t))
    .collect();
  s.push_str(&format!("  \"parts\": {{{}}},\n", ps.join(", ")));
  let mut notes = extra.to_vec();
  for (k, v) in &c.known_hits {
    notes.push(format!("known finding {k}: {v} cases excluded"));
  }
  let nn: Vec<String> = notes.iter().map(|x| jstr(x)).collect();
  s.push_str(&format!("  \"notes\": [{}],\n", nn.join(", ")));
  let ss: Vec<String> = c.samples.iter().map(|x| jstr(x)).collect();
  s.push_str(&format!("  \"samples\": [{}]\n }},\n", ss.join(",\n   ")));
  let aa: Vec<String> = gl.spec.assumptions.iter().map(|x| jstr(x)).collect();
  s.push_str(&format!(" \"assumptions\": [{}],\n", aa.join(", ")));
  s.push_str(&format!(" \"wall_s\": {:.2},\n", gl.start.elapsed().as_secs_f64()));
  s.push_str(&format!(" \"violations\": {violations}\n}}\n"));
  let dir = format!("{}/evidence", gl.root);
  let _ = std::fs::create_dir_all(&dir);
  if let Err(e) = std::fs::write(format!("{dir}/{}.json", gl.spec.id), s) {
    println!("ERROR: cannot write evidence: {e}");
    std::process::exit(2);
  }
}

fn parse_replay(path: &str) -> (usize, Vec<u32>) {
  let t = std::fs::read_to_string(path).unwrap_or_else(|e| {
    println!("ERROR: cannot read {path}: {e}");
    std::process::exit(2)
  });
  let field = |k: &str| {
    let i = t.find(&format!("\"{k}\":")).expect("replay field") + k.len() + 3;
    t[i..].trim_start()
  };
  let pn = field("part").split('"').nth(1).unwrap().to_string();
  let part = g().spec.parts.iter().position(|p| p.name == pn).expect("unknown part");
  let cs = field("choices");
  let cs = &cs[1..cs.find(']').unwrap()];
  let choices = cs.split(',').filter_map(|x| x.trim().parse().ok()).collect();
  (part, choices)
}

fn load_known(root: &str, id: &str) -> Vec<(String, String)> {
  // lines: known: property=<id> sig=<sig> <what fails>
  let mut out = vec![];
  if let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
    for l in t.lines() {
      if let Some(r) = l.strip_prefix("known: ") {
        let mut it = r.splitn(3, ' ');
        let (p, s, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        if p == format!("property={id}") {
          out.push((s.trim_start_matches("sig=").to_string(), d.to_string()));
        }
      }
    }
  }
  out
}

pub fn main(spec: &'static Spec) {
  let env = |k: &str| std::env::var(k).ok();
  let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1u64);
  let thorough = env("VERIF_TIER").as_deref() == Some("thorough");
  let root = env("VERIF_ROOT").unwrap_or_else(|| ".".into());
  let known = load_known(&root, spec.id);
  let _ = GLOBAL.set(Global { spec, seed, thorough, root, start: Instant::now(), known });
  unsafe { alloc::ON_EXCEED = Some(exceeded) };
  let prev = std::panic::take_hook();
  std::panic::set_hook(Box::new(move |info| {
    if QUIET.with(|q| q.get()) {
      let m = info
        .payload()
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
      let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
      LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} at {loc}")));
    } else {
      prev(info)
    }
  }));

  std::thread::spawn(watchdog);
  let args: Vec<String> = std::env::args().collect();
  if args.get(1).map(|s| s == "--replay").unwrap_or(false) {
    let (part, choices) = parse_replay(&args[2]);
    enter_slot(0);
    let (r, ctx) = exec(part, &choices, true);
    println!("case: {}", ctx.desc.unwrap_or_default());
    match r {
      Ok(()) => {
        println!("replay: property {} held on this case", spec.id);
        std::process::exit(0)
      }
      Err(why) => {
        println!("replay: {why}");
        println!("VIOLATION property={} replay={}", spec.id, args[2]);
        std::process::exit(1)
      }
    }
  }

  let shards = env("VERIF_THREADS").and_then(|s| s.parse().ok()).unwrap_or(8u64).clamp(1, 32);
  let mult: f64 = env("VERIF_CASES").and_then(|s| s.parse().ok()).unwrap_or(1.0);
  let only = env("VERIF_PART");
  let total = Mutex::new(Counts::default());
  let failure: Mutex<Option<Failure>> = Mutex::new(None);
  let mut parts_out = vec![];
  for (pi, part) in spec.parts.iter().enumerate() {
    if only.as_ref().map(|o| o != part.name).unwrap_or(false) {
      continue;
    }
    let t0 = Instant::now();
    let cases = if thorough { part.thorough } else { part.quick };
    let cases = if part.len == 0 { cases } else { ((cases as f64) * mult).ceil() as u64 };
    let done = AtomicU64::new(0);
    std::thread::scope(|s| {
      for sh in 0..shards {
        let (total, failure, done) = (&total, &failure, &done);
        std::thread::Builder::new()
          .stack_size(256 << 20)
          .spawn_scoped(s, move || {
            enter_slot(sh as usize);
            let (c, f) = shard(pi, sh, shards, cases);
            leave_slot(sh as usize);
            done.fetch_add(c.evaluations, Ordering::Relaxed);
            let mut t = total.lock().unwrap();
            t.evaluations += c.evaluations;
            t.keys.extend(c.keys);
            for (k, v) in c.classes {
              *t.classes.entry(k).or_insert(0) += v;
            }
            for (k, v) in c.known_hits {
              *t.known_hits.entry(k).or_insert(0) += v;
            }
            t.samples.extend(c.samples);
            if let Some(f) = f {
              failure.lock().unwrap().get_or_insert(f);
            }
          })
          .unwrap();
      }
    });
    parts_out.push((part.name.to_string(), done.load(Ordering::Relaxed), t0.elapsed().as_secs_f64()));
    if failure.lock().unwrap().is_some() {
      break;
    }
  }
  let total = total.into_inner().unwrap();
  let fail = failure.into_inner().unwrap();
  for (sig, d) in &g().known {
    println!("KNOWN-FINDING: property={} [{}] {}", spec.id, sig, d);
  }
  for (n, k, t) in &parts_out {
    println!("  {n}: {k} cases in {t:.1} s");
  }
  let cl: Vec<String> = total.classes.iter().map(|(k, v)| format!("{k}={v}")).collect();
  println!("  classes: {}", cl.join(" "));
  println!(
    "{}: {} cases, {} distinct non-trivial, {:.1} s",
    spec.id,
    total.evaluations,
    total.keys.len(),
    g().start.elapsed().as_secs_f64()
  );
  match fail {
    None => {
      write_evidence(&total, &parts_out, 0, &[]);
      if total.keys.len() < 2 && only.is_none() {
        println!("ERROR: the generators produced no non-trivial case");
        std::process::exit(2);
      }
      std::process::exit(0)
    }
    Some(f) => {
      let (r, ctx) = exec(f.part, &f.choices, true);
      let why = match r {
        Err(w) => w,
        Ok(()) => format!("{} (did not reproduce when replayed)", f.why),
      };
      let desc = ctx.desc.unwrap_or_default();
      let p = write_replay(f.part, &f.choices, &why, &desc);
      println!("part {}: {}\ncase: {}", spec.parts[f.part].name, why, desc);
      println!("VIOLATION property={} replay={}", spec.id, p);
      write_evidence(&total, &parts_out, 1, &[format!("violation: {why}; case: {desc}")]);
      std::process::exit(1)
    }
  }
}
