//! mcx: a small stateless model checker for sequential Rust code.
//!
//! A *space* is a closure that builds one execution: it asks the explorer for every nondeterministic
//! decision (`Ch::pick`) - which operation comes next, which argument, which environment answer - and
//! drives the real implementation and a reference model in lock step, comparing them. The explorer
//! enumerates **every** sequence of decisions (depth-first, by replaying prefixes), so a space that
//! finishes uncapped is a complete enumeration of its bounded choice tree.
//!
//! - decisions are replayed with their arity checked: a divergence is a hard error of the machinery;
//! - panics, hangs, runaway memory, aborts and stack overflows of the implementation are attributed
//!   to the execution that caused them (the decision trail of each worker lives in a shared mapping);
//! - a violation is re-executed before it is reported and written out as a replayable file.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

/// Fails the current execution with a message.
#[macro_export]
macro_rules! bail {
  ($($t:tt)*) => { return Err(format!($($t)*)) };
}

/// Fails the current execution unless the condition holds.
#[macro_export]
macro_rules! ensure {
  ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// Fails the current execution unless both are equal.
#[macro_export]
macro_rules! ensure_eq {
  ($got:expr, $want:expr, $($t:tt)*) => {{
    let (g, w) = (&$got, &$want);
    if g != w { return Err(format!("{}: got {:?}, the reference says {:?}", format!($($t)*), g, w)); }
  }};
}

// ---------------------------------------------------------------------------------------------
// hashing of model states

/// A simple deterministic 64-bit hasher.
#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
  fn finish(&self) -> u64 {
    let mut z = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
  fn write(&mut self, bytes: &[u8]) {
    for &b in bytes {
      self.write_u64(u64::from(b) + 0x100);
    }
  }
  fn write_u8(&mut self, i: u8) {
    self.write_u64(u64::from(i))
  }
  fn write_u32(&mut self, i: u32) {
    self.write_u64(u64::from(i))
  }
  fn write_u64(&mut self, i: u64) {
    self.0 = (self.0.rotate_left(23) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95).wrapping_add(0x9E37);
  }
  fn write_usize(&mut self, i: usize) {
    self.write_u64(i as u64)
  }
}
pub type FxBuild = BuildHasherDefault<Fx>;
type FxSet = HashSet<u64, FxBuild>;

pub fn fx<T: Hash + ?Sized>(t: &T) -> u64 {
  let mut h = Fx::default();
  t.hash(&mut h);
  h.finish()
}

// ---------------------------------------------------------------------------------------------
// panics

thread_local! {
  static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Prefix of panics that mean the harness itself is wrong.
const MACHINERY: &str = "MACHINERY: ";

/// Report an error of the harness itself (never a verdict about the code under check).
pub fn machinery(msg: &str) -> ! {
  panic!("{MACHINERY}{msg}")
}

fn install_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      (*s).to_owned()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "panic with a non-string payload".to_owned()
    };
    LAST_PANIC.with(|p| {
      if let Ok(mut p) = p.try_borrow_mut() {
        p.clear();
        let _ = write!(p, "{msg}");
        if let Some(l) = info.location() {
          // the location is for the reader only
          let _ = write!(p, " (at {}:{})", l.file(), l.line());
        }
      }
    });
  }));
}

/// Runs `f`; a panic becomes `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  match catch_unwind(AssertUnwindSafe(f)) {
    Ok(x) => Ok(x),
    Err(_) => {
      let m = LAST_PANIC.with(|p| p.borrow().clone());
      if m.starts_with(MACHINERY) {
        std::panic::resume_unwind(Box::new(m));
      }
      Err(m)
    }
  }
}

// ---------------------------------------------------------------------------------------------
// shared trails (survive a crash of the process)

const TRAIL_CAP: usize = 8192;
const REC: usize = TRAIL_CAP + 2;

unsafe extern "C" {
  fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
  fn _exit(code: i32) -> !;
}

#[derive(Clone, Copy)]
struct Slot(*mut u32);
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}

impl Slot {
  fn set_active(self, on: bool) {
    unsafe { self.0.write_volatile(u32::from(on)) }
  }
  fn set(self, i: usize, v: u32) {
    if i < TRAIL_CAP {
      unsafe {
        self.0.add(2 + i).write_volatile(v);
      }
    }
  }
  fn set_len(self, n: usize) {
    unsafe { self.0.add(1).write_volatile(n.min(TRAIL_CAP) as u32) }
  }
  fn get(self) -> Option<Vec<u32>> {
    unsafe {
      if self.0.read_volatile() == 0 {
        return None;
      }
      let n = self.0.add(1).read_volatile() as usize;
      Some((0..n).map(|i| self.0.add(2 + i).read_volatile()).collect())
    }
  }
}

fn map_trails(path: &str, n: usize) -> Vec<Slot> {
  use std::os::fd::AsRawFd;
  let f = std::fs::OpenOptions::new()
    .read(true)
    .write(true)
    .create(true)
    .truncate(false)
    .open(path)
    .expect("trail file");
  let len = n * REC * 4;
  f.set_len(len as u64).expect("trail len");
  let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
  assert!(p as isize != -1, "mmap");
  (0..n).map(|i| Slot(unsafe { p.cast::<u32>().add(i * REC) })).collect()
}

// ---------------------------------------------------------------------------------------------
// choices

/// The source of all nondeterminism of one execution.
pub struct Ch<'a> {
  trail: &'a mut Vec<(u32, u32)>,
  pos: usize,
  fresh_from: usize,
  slot: Option<Slot>,
  tracing: bool,
  pub trace: Vec<String>,
  stats: &'a mut Stats,
  tick: Option<&'a AtomicU64>,
}

impl Ch<'_> {
  /// Picks one of `n` alternatives; every one of them is explored.
  #[inline]
  pub fn pick(&mut self, n: usize) -> usize {
    if n <= 1 {
      if n == 0 {
        machinery("pick(0)");
      }
      return 0;
    }
    let n = n as u32;
    let v = if self.pos < self.trail.len() {
      let (v, m) = self.trail[self.pos];
      if m != n && m != u32::MAX {
        machinery(&format!("divergence while replaying choice {}: arity {n}, recorded {m}", self.pos));
      }
      if v >= n {
        machinery(&format!("choice {v} out of range {n} at {}", self.pos));
      }
      self.trail[self.pos].1 = n;
      v
    } else {
      self.trail.push((0, n));
      0
    };
    if let Some(s) = self.slot {
      s.set(self.pos, v);
      s.set_len(self.pos + 1);
    }
    self.pos += 1;
    v as usize
  }

  pub fn flag(&mut self) -> bool {
    self.pick(2) == 1
  }

  /// Picks a reference out of a slice.
  pub fn of<'x, T>(&mut self, xs: &'x [T]) -> &'x T {
    &xs[self.pick(xs.len())]
  }

  /// Default answer 0; another one of `n` costs one unit of the deviation budget.
  pub fn deviate(&mut self, budget: &mut usize, n: usize) -> usize {
    if *budget == 0 {
      return 0;
    }
    let v = self.pick(n);
    if v != 0 {
      *budget -= 1;
    }
    v
  }

  /// Whether the current point of the execution has not been passed by an earlier execution with
  /// the same decisions (oracles evaluated at non-fresh points would only repeat themselves).
  #[inline]
  pub fn fresh(&self) -> bool {
    self.pos >= self.fresh_from
  }

  /// Records the reference model's state.
  #[inline]
  pub fn state<T: Hash>(&mut self, t: &T) {
    if self.fresh() {
      let h = fx(t);
      if self.stats.states.len() < STATES_CAP {
        self.stats.states.insert(h);
      } else {
        self.stats.states_capped = true;
      }
    }
  }

  /// Counts one oracle evaluation class.
  #[inline]
  pub fn checks(&mut self, n: u64) {
    self.stats.checks += n;
  }

  /// Signals progress from inside one long execution, so that it is not taken for a hang.
  #[inline]
  pub fn progress(&mut self) {
    if let Some(t) = self.tick {
      t.fetch_add(2, Relaxed);
    }
  }

  /// Counts an observed outcome.
  #[inline]
  pub fn outcome(&mut self, name: &'static str) {
    *self.stats.outcomes.entry(name).or_insert(0) += 1;
  }

  /// Adds a line to the trace, if there is one.
  #[inline]
  pub fn log(&mut self, f: impl FnOnce() -> String) {
    if self.tracing && self.trace.len() < 4000 {
      self.trace.push(f());
    }
  }

  pub fn tracing(&self) -> bool {
    self.tracing
  }
}

const STATES_CAP: usize = 3_000_000;

#[derive(Default)]
struct Stats {
  executions: u64,
  edges: u64,
  checks: u64,
  max_depth: usize,
  states: FxSet,
  states_capped: bool,
  outcomes: BTreeMap<&'static str, u64>,
}

impl Stats {
  fn merge(&mut self, o: Stats) {
    self.executions += o.executions;
    self.edges += o.edges;
    self.checks += o.checks;
    self.max_depth = self.max_depth.max(o.max_depth);
    self.states_capped |= o.states_capped;
    if self.states.is_empty() {
      self.states = o.states;
    } else {
      self.states.extend(o.states);
    }
    for (k, v) in o.outcomes {
      *self.outcomes.entry(k).or_insert(0) += v;
    }
  }
}

/// What one space covered.
struct SpaceReport {
  name: String,
  bound: String,
  stats: Stats,
  capped: Option<String>,
  wall: f64,
  samples: Vec<(Vec<u32>, Vec<String>)>,
}

/// A violation found in a space.
struct Violation {
  space: String,
  choices: Vec<u32>,
  error: String,
  trace: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
  Quick,
  Thorough,
}

enum Mode {
  Explore,
  /// Execute a single trail of one space, tracing.
  One { space: String, choices: Vec<u32>, found: bool },
}

/// The context in which a property is checked.
pub struct Ctx {
  pub id: &'static str,
  pub tier: Tier,
  /// Whether this is the build with debug assertions.
  pub debug: bool,
  mode: Mode,
  reports: Vec<SpaceReport>,
  violation: Option<Violation>,
  slots: Vec<Slot>,
  deadline: Instant,
  pub notes: Vec<String>,
}

impl Ctx {
  pub fn thorough(&self) -> bool {
    self.tier == Tier::Thorough
  }

  /// Chooses a bound by tier.
  pub fn by<T>(&self, quick: T, thorough: T) -> T {
    if self.thorough() { thorough } else { quick }
  }

  pub fn note(&mut self, s: impl Into<String>) {
    self.notes.push(s.into());
  }

  fn run_body(
    body: &(dyn Fn(&mut Ch<'_>) -> Res + Sync),
    ch: &mut Ch<'_>,
  ) -> Result<(), String> {
    if let Some(s) = ch.slot {
      s.set_len(0);
      s.set_active(true);
    }
    let r = match catch(|| body(ch)) {
      Ok(r) => r,
      Err(p) => Err(format!("panicked: {p}")),
    };
    if let Some(s) = ch.slot {
      s.set_active(false);
    }
    r
  }

  /// Explores a space exhaustively. `bound` says in words what is enumerated.
  pub fn space(
    &mut self,
    name: &str,
    bound: impl Into<String>,
    body: impl Fn(&mut Ch<'_>) -> Res + Sync,
  ) {
    self.space_dyn(name, bound.into(), &body)
  }

  fn space_dyn(&mut self, name: &str, bound: String, body: &(dyn Fn(&mut Ch<'_>) -> Res + Sync)) {
    if let Mode::One { space, choices, found } = &mut self.mode {
      NAMES.with(|n| n.borrow_mut().push(name.to_owned()));
      if space == name {
        *found = true;
        let mut trail: Vec<(u32, u32)> = choices.iter().map(|&v| (v, u32::MAX)).collect();
        let mut stats = Stats::default();
        let mut ch = Ch {
          trail: &mut trail,
          pos: 0,
          fresh_from: 0,
          slot: None,
          tracing: true,
          trace: Vec::new(),
          stats: &mut stats,
          tick: None,
        };
        let r = Self::run_body(body, &mut ch);
        let trace = std::mem::take(&mut ch.trace);
        if let Err(error) = r {
          self.violation =
            Some(Violation { space: name.to_owned(), choices: choices.clone(), error, trace });
        } else {
          for l in trace {
            println!("  {l}");
          }
        }
      }
      return;
    }
    if self.violation.is_some() {
      return;
    }
    let start = Instant::now();
    let threads = self.slots.len();
    // 1. split the choice tree into prefixes
    let mut total = Stats::default();
    let target = 64 * threads;
    let slot0 = self.slots[0];
    let ticks: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let finished = AtomicBool::new(false);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<(Vec<u32>, String)>> = Mutex::new(Vec::new());
    let fatal: Mutex<Option<String>> = Mutex::new(None);
    let mut deadline = self.deadline;
    if let Some(s) = std::env::var("MCX_SPACE_CAP").ok().and_then(|s| s.parse().ok()) {
      // for tuning bounds only
      deadline = deadline.min(start + Duration::from_secs(s));
    }
    let slots = self.slots.clone();
    let queue_pos = AtomicUsize::new(0);
    let queue: Mutex<Vec<Vec<(u32, u32)>>> = Mutex::new(Vec::new());
    let merged: Mutex<(Stats, Vec<Vec<u32>>)> = Mutex::new((Stats::default(), Vec::new()));
    let id = self.id;
    let name_s = name.to_owned();
    let capped = AtomicBool::new(false);
    std::thread::scope(|sc| {
      // watchdog
      {
        let (ticks, finished, slots) = (&ticks, &finished, &slots);
        sc.spawn(move || watchdog(id, &name_s, ticks, finished, slots));
      }
      // splitting happens on a thread of its own
      let splitter = {
        let (fatal, ticks, stop, found) = (&fatal, &ticks, &stop, &found);
        std::thread::Builder::new()
          .stack_size(stack())
          .spawn_scoped(sc, move || {
            let mut edges = 0_u64;
            let mut done: Vec<Vec<(u32, u32)>> = Vec::new();
            let mut frontier: Vec<Vec<(u32, u32)>> = vec![vec![]];
            let mut rounds = 0;
            let r = catch_unwind(AssertUnwindSafe(|| {
              while !frontier.is_empty() && frontier.len() + done.len() < target && rounds < 40 {
                rounds += 1;
                let mut next = Vec::new();
                for p in frontier.drain(..) {
                  let mut trail = p.clone();
                  let mut scratch = Stats::default();
                  ticks[0].fetch_add(1, Relaxed);
                  let mut ch = Ch {
                    trail: &mut trail,
                    pos: 0,
                    fresh_from: 0,
                    slot: Some(slot0),
                    tracing: false,
                    trace: Vec::new(),
                    stats: &mut scratch,
                    tick: Some(&ticks[0]),
                  };
                  let r = Ctx::run_body(body, &mut ch);
                  ticks[0].fetch_add(1, Relaxed);
                  if let Err(e) = r {
                    found.lock().unwrap().push((trail.iter().map(|x| x.0).collect(), e));
                    stop.store(true, Relaxed);
                    return;
                  }
                  match trail.get(p.len()) {
                    None => done.push(p),
                    Some(&(_, n)) => {
                      edges += u64::from(n);
                      for i in 0..n {
                        let mut q = p.clone();
                        q.push((i, n));
                        next.push(q);
                      }
                    }
                  }
                }
                frontier = next;
              }
            }));
            if r.is_err() {
              *fatal.lock().unwrap() = Some(LAST_PANIC.with(|p| p.borrow().clone()));
              stop.store(true, Relaxed);
            }
            done.append(&mut frontier);
            (edges, done)
          })
          .expect("spawn")
      };
      let (edges, all) = splitter.join().expect("splitter");
      total.edges += edges;
      *queue.lock().unwrap() = all;
      let mut hs = Vec::new();
      for w in 0..threads {
        let (ticks, stop, found, fatal, queue, queue_pos, merged, slots, capped) =
          (&ticks, &stop, &found, &fatal, &queue, &queue_pos, &merged, &slots, &capped);
        hs.push(
          std::thread::Builder::new()
            .stack_size(stack())
            .spawn_scoped(sc, move || {
              let mut st = Stats::default();
              let mut leaves: Vec<Vec<u32>> = Vec::new();
              let r = catch_unwind(AssertUnwindSafe(|| {
                loop {
                  if stop.load(Relaxed) {
                    break;
                  }
                  let i = queue_pos.fetch_add(1, Relaxed);
                  let prefix = {
                    let q = queue.lock().unwrap();
                    match q.get(i) {
                      Some(p) => p.clone(),
                      None => break,
                    }
                  };
                  let base = prefix.len();
                  let mut trail = prefix;
                  let mut fresh_from = 0;
                  loop {
                    let before = trail.len();
                    ticks[w].fetch_add(1, Relaxed);
                    let (r, pos) = {
                      let mut ch = Ch {
                        trail: &mut trail,
                        pos: 0,
                        fresh_from,
                        slot: Some(slots[w]),
                        tracing: false,
                        trace: Vec::new(),
                        stats: &mut st,
                        tick: Some(&ticks[w]),
                      };
                      let r = Ctx::run_body(body, &mut ch);
                      (r, ch.pos)
                    };
                    ticks[w].fetch_add(1, Relaxed);
                    if pos < trail.len() && r.is_ok() {
                      machinery("an execution made fewer choices than its replayed prefix");
                    }
                    st.executions += 1;
                    st.max_depth = st.max_depth.max(trail.len());
                    // edges below the split prefixes: the newly made choices, plus the changed one
                    st.edges += (trail.len() - before) as u64
                      + u64::from(fresh_from > 0 && before > base);
                    if let Err(e) = r {
                      found
                        .lock()
                        .unwrap()
                        .push((trail[..pos].iter().map(|x| x.0).collect(), e));
                      stop.store(true, Relaxed);
                      return;
                    }
                    if (st.executions & 0x3ff == 1 || st.executions < 4) && leaves.len() < 64 {
                      leaves.push(trail.iter().map(|x| x.0).collect());
                    }
                    if st.executions & 0xff == 0 || st.max_depth > 200 {
                      if stop.load(Relaxed) {
                        return;
                      }
                      if Instant::now() > deadline {
                        capped.store(true, Relaxed);
                        stop.store(true, Relaxed);
                        return;
                      }
                    }
                    // next
                    while trail.len() > base {
                      let (v, n) = *trail.last().unwrap();
                      if v + 1 < n {
                        break;
                      }
                      trail.pop();
                    }
                    if trail.len() <= base {
                      break;
                    }
                    let l = trail.len();
                    trail[l - 1].0 += 1;
                    fresh_from = l;
                  }
                }
              }));
              if r.is_err() {
                *fatal.lock().unwrap() = Some(LAST_PANIC.with(|p| p.borrow().clone()));
                stop.store(true, Relaxed);
              }
              let mut m = merged.lock().unwrap();
              m.0.merge(st);
              m.1.extend(leaves);
            })
            .expect("spawn"),
        );
      }
      for h in hs {
        let _ = h.join();
      }
      finished.store(true, Release);
    });
    if let Some(m) = fatal.into_inner().unwrap() {
      eprintln!("machinery error in {}/{}: {m}", self.id, name);
      std::process::exit(2);
    }
    let (st, mut leaves) = merged.into_inner().unwrap();
    total.merge(st);
    let mut found = found.into_inner().unwrap();
    let run_one = |choices: &[u32]| -> (Result<(), String>, Vec<String>) {
      let mut trail: Vec<(u32, u32)> = choices.iter().map(|&v| (v, u32::MAX)).collect();
      let mut stats = Stats::default();
      let out: Mutex<(Result<(), String>, Vec<String>)> = Mutex::new((Ok(()), Vec::new()));
      std::thread::scope(|sc| {
        std::thread::Builder::new()
          .stack_size(stack())
          .spawn_scoped(sc, || {
            let mut ch = Ch {
              trail: &mut trail,
              pos: 0,
              fresh_from: 0,
              slot: None,
              tracing: true,
              trace: Vec::new(),
              stats: &mut stats,
              tick: None,
            };
            let r = Ctx::run_body(body, &mut ch);
            *out.lock().unwrap() = (r, std::mem::take(&mut ch.trace));
          })
          .expect("spawn")
          .join()
          .expect("join");
      });
      out.into_inner().unwrap()
    };
    if !found.is_empty() {
      found.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
      for (choices, _) in &found {
        for _ in 0..30 {
          let (r, trace) = run_one(choices);
          if let Err(error) = r {
            self.violation =
              Some(Violation { space: name.to_owned(), choices: choices.clone(), error, trace });
            break;
          }
        }
        if self.violation.is_some() {
          break;
        }
      }
      if self.violation.is_none() {
        eprintln!(
          "machinery error in {}/{}: a failure did not reproduce: {:?}",
          self.id, name, found[0]
        );
        std::process::exit(2);
      }
    }
    // samples: a few of the executed trails, written out
    let mut samples = Vec::new();
    if self.violation.is_none() {
      leaves.sort();
      leaves.dedup();
      let n = leaves.len();
      for i in [n / 2, n.saturating_sub(1)] {
        if let Some(l) = leaves.get(i) {
          if samples.iter().all(|(c, _)| c != l) {
            let (_, mut tr) = run_one(l);
            tr.truncate(24);
            samples.push((l.clone(), tr));
          }
        }
      }
    }
    let capped = capped.load(Relaxed).then(|| "wall-clock cap of this tier reached".to_owned());
    self.reports.push(SpaceReport {
      name: name.to_owned(),
      bound,
      stats: total,
      capped,
      wall: start.elapsed().as_secs_f64(),
      samples,
    });
  }
}

fn rss_bytes() -> u64 {
  let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
  s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}

const RSS_LIMIT: u64 = 14 << 30;
const HANG: Duration = Duration::from_secs(20);

fn watchdog(id: &str, space: &str, ticks: &[AtomicU64], finished: &AtomicBool, slots: &[Slot]) {
  let mut last: Vec<(u64, Instant)> = ticks.iter().map(|t| (t.load(Relaxed), Instant::now())).collect();
  while !finished.load(Acquire) {
    std::thread::sleep(Duration::from_millis(20));
    let rss = rss_bytes();
    let mut stuck = None;
    for (i, t) in ticks.iter().enumerate() {
      let v = t.load(Relaxed);
      if v != last[i].0 {
        last[i] = (v, Instant::now());
      } else if v % 2 == 1 && last[i].1.elapsed() > HANG {
        stuck = Some((i, "did not finish within 20 s (an execution normally takes microseconds)"));
      }
    }
    if stuck.is_none() && rss > RSS_LIMIT {
      // the execution that has been running longest is the one allocating without bound
      let i = (0..ticks.len())
        .filter(|&i| ticks[i].load(Relaxed) % 2 == 1)
        .max_by_key(|&i| last[i].1.elapsed());
      if let Some(i) = i {
        if last[i].1.elapsed() > Duration::from_millis(300) {
          stuck = Some((i, "allocates without bound"));
        }
      }
    }
    if let Some((i, what)) = stuck {
      let choices = slots[i].get().unwrap_or_default();
      let v = Violation {
        space: space.to_owned(),
        choices,
        error: format!("the execution {what}"),
        trace: vec!["(not traced: the execution does not end)".into()],
      };
      let out = std::env::var("MCX_OUT").unwrap_or_default();
      write_violation(id, &v, &out);
      unsafe { _exit(1) }
    }
  }
}

// ---------------------------------------------------------------------------------------------
// reporting

fn jstr(s: &str) -> String {
  let mut r = String::with_capacity(s.len() + 2);
  r.push('"');
  for c in s.chars() {
    match c {
      '"' => r.push_str("\\\""),
      '\\' => r.push_str("\\\\"),
      '\n' => r.push_str("\\n"),
      '\r' => r.push_str("\\r"),
      '\t' => r.push_str("\\t"),
      c if (c as u32) < 0x20 => {
        let _ = write!(r, "\\u{:04x}", c as u32);
      }
      c => r.push(c),
    }
  }
  r.push('"');
  r
}

fn jlist(xs: impl Iterator<Item = String>) -> String {
  format!("[{}]", xs.collect::<Vec<_>>().join(","))
}

fn profile() -> &'static str {
  if cfg!(debug_assertions) { "chk" } else { "rel" }
}

fn exe_name() -> String {
  std::env::current_exe()
    .ok()
    .and_then(|p| p.file_name().map(|s| s.to_string_lossy().into_owned()))
    .unwrap_or_default()
}

fn write_violation(id: &str, v: &Violation, out: &str) {
  let dir = std::env::var("MCX_REPLAYS").unwrap_or_else(|_| ".".into());
  let _ = std::fs::create_dir_all(&dir);
  let h = fx(&(v.space.as_str(), &v.choices));
  let path = format!("{dir}/{id}-{}-{h:016x}.json", profile());
  let json = format!(
    "{{\"property\":{},\"binary\":{},\"profile\":{},\"tier\":{},\"space\":{},\"choices\":{},\"error\":{},\"trace\":{}}}\n",
    jstr(id),
    jstr(&exe_name()),
    jstr(profile()),
    jstr(if tier() == Tier::Thorough { "thorough" } else { "quick" }),
    jstr(&v.space),
    jlist(v.choices.iter().map(u32::to_string)),
    jstr(&v.error),
    jlist(v.trace.iter().map(|s| jstr(s)))
  );
  let _ = std::fs::write(&path, json);
  let mut so = std::io::stdout().lock();
  let _ = writeln!(so, "property {id}, space {}, {} build:", v.space, profile());
  for l in v.trace.iter().take(60) {
    let _ = writeln!(so, "  {l}");
  }
  let _ = writeln!(so, "  => {}", v.error);
  let _ = writeln!(so, "VIOLATION property={id} replay={path}");
  let _ = so.flush();
  if !out.is_empty() {
    let _ = std::fs::write(
      out,
      format!("{{\"violations\":1,\"space\":{},\"error\":{}}}\n", jstr(&v.space), jstr(&v.error)),
    );
  }
}

fn write_report(ctx: &Ctx, out: &str, wall: f64) {
  let spaces = jlist(ctx.reports.iter().map(|r| {
    format!(
      "{{\"name\":{},\"bound\":{},\"executions\":{},\"transitions\":{},\"states\":{},\"states_capped\":{},\"oracle_checks\":{},\"max_depth\":{},\"outcomes\":{{{}}},\"capped\":{},\"wall_s\":{:.3},\"samples\":{}}}",
      jstr(&r.name),
      jstr(&r.bound),
      r.stats.executions,
      r.stats.edges,
      r.stats.states.len(),
      r.stats.states_capped,
      r.stats.checks,
      r.stats.max_depth,
      r.stats.outcomes.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(","),
      r.capped.as_ref().map_or("null".to_owned(), |c| jstr(c)),
      r.wall,
      jlist(r.samples.iter().map(|(c, t)| format!(
        "{{\"choices\":{},\"trace\":{}}}",
        jlist(c.iter().map(u32::to_string)),
        jlist(t.iter().map(|s| jstr(s)))
      )))
    )
  }));
  let s = format!(
    "{{\"violations\":0,\"property\":{},\"profile\":{},\"wall_s\":{wall:.3},\"notes\":{},\"spaces\":{spaces}}}\n",
    jstr(ctx.id),
    jstr(profile()),
    jlist(ctx.notes.iter().map(|s| jstr(s)))
  );
  std::fs::write(out, s).expect("write report");
}

/// One property and the function exploring its spaces.
pub struct Prop {
  pub id: &'static str,
  pub run: fn(&mut Ctx),
}

/// The stack of the threads that run the code under test, in megabytes.
static STACK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(2);

fn stack() -> usize {
  STACK.load(std::sync::atomic::Ordering::Relaxed) << 20
}

/// [`main`] for code under test, or a model of it, that recurses with the depth of its input, and is given inputs
/// deep enough that the 2 megabytes that threads get by default do not do.
pub fn main_with_stack(megabytes: usize, props: &[Prop]) {
  STACK.store(megabytes, std::sync::atomic::Ordering::Relaxed);
  main(props);
}

/// Entry point of a checker binary.
///
/// `bin explore ID` explores (in a supervised child process), `bin one ID SPACE CHOICES` re-executes
/// one trail with a trace. Exit: 0 held, 1 violation, 2 error of the machinery.
pub fn main(props: &[Prop]) {
  install_hook();
  let args: Vec<String> = std::env::args().collect();
  let usage = || -> ! {
    eprintln!("usage: {} explore ID | one ID SPACE CHOICES", args[0]);
    std::process::exit(2)
  };
  let find = |id: &str| props.iter().find(|p| p.id == id);
  match args.get(1).map(String::as_str) {
    Some("explore") => {
      let Some(p) = args.get(2).and_then(|id| find(id)) else { usage() };
      if std::env::var_os("MCX_CHILD").is_some() {
        child(p);
      } else {
        supervise(p);
      }
    }
    Some("one") => {
      let (Some(p), Some(space), Some(ch)) =
        (args.get(2).and_then(|id| find(id)), args.get(3), args.get(4))
      else {
        usage()
      };
      let choices = ch.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("choice")).collect();
      let mut ctx = mk_ctx(p.id, Mode::One { space: space.clone(), choices, found: false }, Vec::new());
      let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
          .stack_size(stack())
          .spawn_scoped(sc, || catch_unwind(AssertUnwindSafe(|| (p.run)(&mut ctx))).is_ok())
          .expect("spawn")
          .join()
          .expect("join")
      });
      if !r {
        eprintln!("machinery error: {}", LAST_PANIC.with(|p| p.borrow().clone()));
        std::process::exit(2);
      }
      if let Mode::One { found: false, .. } = ctx.mode {
        eprintln!("no such space");
        std::process::exit(2);
      }
      if let Some(v) = &ctx.violation {
        for l in &v.trace {
          println!("  {l}");
        }
        println!("  => {}", v.error);
        std::process::exit(1);
      }
      println!("  => held");
    }
    _ => usage(),
  }
}

fn tier() -> Tier {
  match std::env::var("VERIF_TIER").as_deref() {
    Ok("thorough") => Tier::Thorough,
    _ => Tier::Quick,
  }
}

fn mk_ctx(id: &'static str, mode: Mode, slots: Vec<Slot>) -> Ctx {
  let tier = tier();
  let cap: u64 = std::env::var("MCX_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
    Tier::Quick => 150,
    Tier::Thorough => 800,
  });
  Ctx {
    id,
    tier,
    debug: cfg!(debug_assertions),
    mode,
    reports: Vec::new(),
    violation: None,
    slots,
    deadline: Instant::now() + Duration::from_secs(cap),
    notes: Vec::new(),
  }
}

fn threads() -> usize {
  std::env::var("MCX_THREADS")
    .ok()
    .and_then(|s| s.parse().ok())
    .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, usize::from).min(16))
}

fn child(p: &Prop) {
  let out = std::env::var("MCX_OUT").expect("MCX_OUT");
  let trails = std::env::var("MCX_TRAILS").expect("MCX_TRAILS");
  let start = Instant::now();
  let slots = map_trails(&trails, threads());
  let mut ctx = mk_ctx(p.id, Mode::Explore, slots);
  let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut ctx)));
  if r.is_err() {
    eprintln!("machinery error: {}", LAST_PANIC.with(|p| p.borrow().clone()));
    std::process::exit(2);
  }
  if let Some(v) = &ctx.violation {
    write_violation(p.id, v, &out);
    std::process::exit(1);
  }
  write_report(&ctx, &out, start.elapsed().as_secs_f64());
  for r in &ctx.reports {
    println!(
      "{} {} [{}] executions={} transitions={} states={} depth<={} {:.2}s{}",
      p.id,
      r.name,
      profile(),
      r.stats.executions,
      r.stats.edges,
      r.stats.states.len(),
      r.stats.max_depth,
      r.wall,
      if r.capped.is_some() { " CAPPED" } else { "" }
    );
  }
}

/// Runs the exploration in a child process; if the child dies of a signal, finds the execution that
/// killed it by re-running every worker's last trail on its own.
fn supervise(p: &Prop) -> ! {
  use std::os::unix::process::ExitStatusExt;
  let exe = std::env::current_exe().expect("exe");
  let out = std::env::var("MCX_OUT").unwrap_or_else(|_| {
    std::env::temp_dir().join(format!("mcx-{}-{}.json", p.id, std::process::id())).to_string_lossy().into_owned()
  });
  let trails = format!("{out}.trails");
  let _ = std::fs::remove_file(&trails);
  let _ = std::fs::remove_file(&out);
  let status = std::process::Command::new(&exe)
    .args(["explore", p.id])
    .env("MCX_CHILD", "1")
    .env("MCX_OUT", &out)
    .env("MCX_TRAILS", &trails)
    .status()
    .expect("spawn child");
  let code = match status.code() {
    Some(c @ (0 | 1 | 2)) => c,
    _ => {
      eprintln!("the exploration died: {status}; looking for the execution that killed it");
      let n = threads();
      let slots = map_trails(&trails, n);
      let mut code = 2;
      let spaces = list_spaces(p);
      'outer: for s in slots {
        let Some(choices) = s.get() else { continue };
        let arg = choices.iter().map(u32::to_string).collect::<Vec<_>>().join(",");
        // the space that was running is not recorded: try each
        for sp in &spaces {
          let st = std::process::Command::new(&exe)
            .args(["one", p.id, sp, &arg])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .expect("spawn one");
          if let Some(sig) = st.signal() {
            let v = Violation {
              space: sp.clone(),
              choices,
              error: format!("the process was killed by signal {sig} during this execution"),
              trace: vec![],
            };
            write_violation(p.id, &v, &out);
            code = 1;
            break 'outer;
          }
        }
      }
      code
    }
  };
  let _ = std::fs::remove_file(&trails);
  std::process::exit(code);
}

/// Names of the spaces of a property (found by running it without exploring anything).
fn list_spaces(p: &Prop) -> Vec<String> {
  let mode = Mode::One { space: "\u{0}".into(), choices: vec![], found: false };
  let mut ctx = mk_ctx(p.id, mode, Vec::new());
  NAMES.with(|n| n.borrow_mut().clear());
  let _ = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut ctx)));
  NAMES.with(|n| n.borrow().clone())
}

thread_local! {
  static NAMES: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

struct Limited {
  left: usize,
  got: String,
  failed: bool,
  after: usize,
}

impl std::fmt::Write for Limited {
  fn write_str(&mut self, s: &str) -> std::fmt::Result {
    if self.failed {
      // it works again: whoever did not notice the failure writes on
      self.after += s.len();
      return Ok(());
    }
    if s.len() > self.left {
      self.failed = true;
      return Err(std::fmt::Error);
    }
    self.left -= s.len();
    self.got.push_str(s);
    Ok(())
  }
}

/// Whether it displays as that, also in the alternate form; and, with a writer that fails after any number of bytes,
/// fails there and writes no more. (For long texts, after a number of bytes near either end.)
pub fn displays(t: &dyn std::fmt::Display, want: &str) -> Res {
  use std::fmt::Write as _;
  ensure_eq!(t.to_string(), want, "display");
  ensure_eq!(format!("{t:#}"), want, "display in the alternate form");
  let n = want.len();
  for left in (0..=n).filter(|&l| l < 40 || l + 40 > n) {
    let mut w = Limited { left, got: String::new(), failed: false, after: 0 };
    let r = write!(w, "{t}");
    ensure_eq!(r.is_err(), w.failed, "{want:?} with room for {left} bytes: the display fails");
    ensure_eq!(w.failed, left < n, "{want:?} with room for {left} bytes: the writer fails");
    ensure!(want.starts_with(&w.got), "{want:?} with room for {left} bytes: wrote {:?}", w.got);
    ensure_eq!(w.after, 0, "{want:?} with room for {left} bytes: bytes written after the failure");
  }
  Ok(())
}
