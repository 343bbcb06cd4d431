//! P06 when operations overlap. Each of several handles of what was one map has operations of its own; one of them
//! can be interrupted wherever it calls a key or a value, which is wherever the map's code calls its user. There
//! another one's operations are done: within the call, all of them; or by another thread, which can be interrupted
//! in turn (the calls are counted, and at the chosen ones the thread hands over).

use chain_map::ChainMap;
#[cfg(feature = "sync")]
use mcx::ensure;
use mcx::{Ch, Ctx, Res, bail, catch, ensure_eq};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[cfg_attr(not(feature = "sync"), allow(dead_code))]
/// Who may run, and for how many calls.
#[derive(Default)]
struct Baton {
  /// the slices left, the current one first: a thread and the number of calls after which it hands over
  slices: Mutex<(std::collections::VecDeque<(usize, u32)>, [bool; 2])>,
  turn: Condvar,
}

thread_local! {
  static ME: RefCell<Option<(Arc<Baton>, usize, u32)>> = const { RefCell::new(None) };
}

#[cfg_attr(not(feature = "sync"), allow(dead_code))]
impl Baton {
  /// Whose turn it is: when the slices have run out, anyone's.
  fn wait(&self, me: usize) -> u32 {
    let mut g = self.slices.lock().expect("baton");
    loop {
      // a slice of a thread that is done is over
      while g.0.front().is_some_and(|&(t, _)| g.1[t]) {
        g.0.pop_front();
      }
      match g.0.front() {
        Some(&(t, n)) if t == me => return n,
        None if me == 0 || g.1[0] => return u32::MAX,
        _ => {}
      }
      // if the other one waits for this one (a lock in the map), it cannot hand over: go on regardless
      let (h, late) = self.turn.wait_timeout(g, Duration::from_millis(500)).expect("baton");
      if late.timed_out() {
        return u32::MAX;
      }
      g = h;
    }
  }

  fn next(&self) {
    self.slices.lock().expect("baton").0.pop_front();
    self.turn.notify_all();
  }

  fn done(&self, me: usize) {
    self.slices.lock().expect("baton").1[me] = true;
    self.turn.notify_all();
  }
}

fn tick() {
  ME.with(|m| {
    if let Some((baton, me, left)) = &mut *m.borrow_mut() {
      if *left == 0 {
        baton.next();
        *left = baton.wait(*me);
      }
      *left = left.saturating_sub(1);
    }
  });
}

thread_local! {
  static COUNT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

fn call() {
  COUNT.with(|c| c.set(c.get() + 1));
  tick();
  within();
}

#[derive(Debug)]
struct Key(u32);
impl Clone for Key {
  fn clone(&self) -> Self {
    call();
    Key(self.0)
  }
}
impl PartialEq for Key {
  fn eq(&self, o: &Self) -> bool {
    call();
    self.0 == o.0
  }
}
impl Eq for Key {}
impl Hash for Key {
  fn hash<H: Hasher>(&self, h: &mut H) {
    call();
    h.write_u32(self.0);
  }
}

#[derive(Debug)]
struct Val(u32);
impl Clone for Val {
  fn clone(&self) -> Self {
    call();
    Val(self.0)
  }
}
impl Drop for Val {
  fn drop(&mut self) {
    call();
    // whoever looks at it after this sees that it is gone
    self.0 = u32::MAX;
  }
}

type Map = ChainMap<Key, Val>;
type Model = BTreeMap<u32, u32>;

const OPS: [&str; 10] =
  ["insert", "extend", "get_mut", "remove", "iter_mut", "consolidate", "into_iter", "clone", "iter", "drop"];

/// Does one operation on the thread's map and compares what it returns. The values are the thread's own.
fn apply(map: &mut Option<Map>, e: &mut Option<Model>, op: &str, v: u32) -> Res {
  let (Some(m), Some(w)) = (map.as_mut(), e.as_mut()) else { return Ok(()) };
  match op {
    "insert" => ensure_eq!(m.insert(Key(0), Val(v)), w.insert(0, v).is_none(), "insert(0)"),
    "extend" => {
      m.extend([(Key(1), Val(v)), (Key(2), Val(v + 1))]);
      w.extend([(1, v), (2, v + 1)]);
    }
    "get_mut" => {
      let got = m.get_mut(&Key(0));
      ensure_eq!(got.as_ref().map(|x| x.0), w.get(&0).copied(), "get_mut(0)");
      if let Some(x) = got {
        *x = Val(v);
        w.insert(0, v);
      }
    }
    "remove" => ensure_eq!(m.remove(&Key(1)).map(|x| x.0), w.remove(&1), "remove(1)"),
    "iter_mut" => {
      for (k, x) in m.iter_mut() {
        *x = Val(v + k.0);
      }
      w.iter_mut().for_each(|(&k, x)| *x = v + k);
    }
    "consolidate" => m.consolidate(),
    "into_iter" => {
      let m = map.take().expect("map");
      let got: Model = m.into_iter().map(|(k, x)| (k.0, x.0)).collect();
      ensure_eq!(got, *w, "into_iter");
      *e = None;
    }
    "clone" => {
      let c = m.clone();
      // the clone goes on, the original is dropped
      *m = c;
    }
    "iter" => {
      let got: Model = m.iter().map(|(k, x)| (k.0, x.0)).collect();
      ensure_eq!(got, *w, "iter");
    }
    _ => {
      *map = None;
      *e = None;
    }
  }
  Ok(())
}

fn check(map: &Option<Map>, e: &Option<Model>) -> Res {
  if let (Some(m), Some(e)) = (map, e) {
    let got: Model = m.iter().map(|(k, x)| (k.0, x.0)).collect();
    ensure_eq!(got, *e, "its map at the end");
    for k in 0..4 {
      ensure_eq!(m.get(&Key(k)).map(|x| x.0), e.get(&k).copied(), "get({k}) at the end");
    }
  }
  Ok(())
}

/// The map, and its clone.
fn start(base: usize) -> (Map, Map, Model) {
  let mut m = Map::default();
  let mut e = Model::new();
  if base != 1 {
    m.extend([(Key(0), Val(1)), (Key(1), Val(2))]);
    e.extend([(0, 1), (1, 2)]);
  }
  if base != 0 {
    m.insert(Key(3), Val(3));
    m.insert(Key(0), Val(4));
    e.extend([(3, 3), (0, 4)]);
  }
  let c = m.clone();
  (m, c, e)
}

#[cfg(feature = "sync")]
fn run(c: &mut Ch<'_>, bases: &[usize], ops: &[&'static str], slices: usize) -> Res {
  let base = *c.of(bases);
  let plan: [Vec<&str>; 2] = [0, 1].map(|_| vec![*c.of(ops)]);
  // how many calls each makes at most: while the other does nothing, everything is shared
  let mut calls = [0; 2];
  for (t, n) in calls.iter_mut().enumerate() {
    let (a, b, e) = start(base);
    COUNT.with(|c| c.set(0));
    let (mut map, mut model) = (Some(a), Some(e));
    for (i, op) in plan[t].iter().enumerate() {
      apply(&mut map, &mut model, op, 100 * (i as u32 + 1))?;
    }
    check(&map, &model)?;
    drop(map);
    *n = COUNT.with(std::cell::Cell::get);
    drop(b);
  }
  // the schedule: who begins, and after how many of its calls each hands over to the other
  let first = c.pick(2);
  let mut order = vec![];
  for i in 0..slices {
    let t = (first + i) % 2;
    order.push((t, c.pick(calls[t] as usize + 1) as u32));
  }
  c.log(|| format!("from map {base}, thread 0 {:?}, thread 1 {:?}, slices (thread, calls) {order:?}", plan[0], plan[1]));
  let baton = Arc::new(Baton::default());
  baton.slices.lock().expect("baton").0.extend(order);
  let (a, b, e) = start(base);
  let res: [Result<Res, String>; 2] = std::thread::scope(|s| {
    let mut hs = vec![];
    for (t, map) in [a, b].into_iter().enumerate() {
      let (plan, e, baton) = (&plan[t], e.clone(), Arc::clone(&baton));
      hs.push(s.spawn(move || {
        let left = baton.wait(t);
        ME.with(|m| *m.borrow_mut() = Some((Arc::clone(&baton), t, left)));
        let r = catch(|| -> Res {
          let (mut map, mut model) = (Some(map), Some(e));
          for (i, op) in plan.iter().enumerate() {
            apply(&mut map, &mut model, op, 1000 * (t as u32 + 1) + 100 * i as u32)?;
          }
          check(&map, &model)
        });
        ME.with(|m| m.borrow_mut().take());
        baton.done(t);
        r
      }));
    }
    let mut it = hs.into_iter().map(|h| h.join().expect("thread"));
    [it.next().expect("0"), it.next().expect("1")]
  });
  c.checks(2);
  for (t, r) in res.into_iter().enumerate() {
    match r {
      Ok(Ok(())) => {}
      Ok(Err(e)) => bail!("thread {t}: {e}"),
      Err(p) => bail!("thread {t} panicked: {p}"),
    }
  }
  ensure!(Arc::strong_count(&baton) == 1, "a thread is still there");
  Ok(())
}

/// A call within a call: the operations of one handle, done while one of another is under way.
struct Inner {
  at: u32,
  map: Map,
  model: Model,
  plan: Vec<&'static str>,
  v: u32,
  next: Option<Box<Inner>>,
}

thread_local! {
  static INNER: RefCell<Option<Box<Inner>>> = const { RefCell::new(None) };
  static FOUND: RefCell<Res> = const { RefCell::new(Ok(())) };
}

fn within() {
  let now = INNER.with(|i| {
    let mut i = i.borrow_mut();
    match &mut *i {
      Some(x) if x.at == 0 => i.take(),
      Some(x) => {
        x.at -= 1;
        None
      }
      None => None,
    }
  });
  if let Some(x) = now {
    let Inner { map, model, plan, v, next, .. } = *x;
    INNER.with(|i| *i.borrow_mut() = next);
    let r = all(map, model, &plan, v);
    if r.is_err() {
      FOUND.with(|f| *f.borrow_mut() = r);
    }
  }
}

fn all(map: Map, model: Model, plan: &[&str], v: u32) -> Res {
  let (mut map, mut model) = (Some(map), Some(model));
  for (i, op) in plan.iter().enumerate() {
    apply(&mut map, &mut model, op, v + 100 * i as u32)?;
  }
  check(&map, &model)
}

fn nested(c: &mut Ch<'_>, ops: &[usize], names: &[&'static str]) -> Res {
  let base = c.pick(3);
  let plans: Vec<Vec<&str>> = ops.iter().map(|&n| (0..n).map(|_| *c.of(names)).collect()).collect();
  // how many calls each makes at most: while the others do nothing, everything is shared
  let mut calls = vec![];
  for plan in &plans {
    let (a, b, e) = start(base);
    COUNT.with(|c| c.set(0));
    all(a, e, plan, 100)?;
    calls.push(COUNT.with(std::cell::Cell::get));
    drop(b);
  }
  let at: Vec<u32> = (1..ops.len()).map(|i| c.pick(calls[i - 1] as usize + 1) as u32).collect();
  c.log(|| format!("from map {base}, {plans:?}: each of the others begins at the call {at:?} of the one before"));
  let (a, b, e) = start(base);
  let mut inner = None;
  for i in (1..ops.len()).rev() {
    let map = if i == 1 { b.clone() } else { a.clone() };
    inner = Some(Box::new(Inner {
      at: at[i - 1],
      map,
      model: e.clone(),
      plan: plans[i].clone(),
      v: 1000 * (i as u32 + 1),
      next: inner,
    }));
  }
  drop(b);
  INNER.with(|i| *i.borrow_mut() = inner);
  FOUND.with(|f| *f.borrow_mut() = Ok(()));
  let r = catch(|| all(a, e, &plans[0], 1000));
  // what did not begin, as there were fewer calls
  let left = INNER.with(|i| i.borrow_mut().take());
  c.checks(ops.len() as u64);
  c.outcome(if left.is_some() { "not all began" } else { "all began" });
  drop(left);
  match r {
    Ok(r) => r?,
    Err(p) => bail!("panicked: {p}"),
  }
  FOUND.with(|f| std::mem::replace(&mut *f.borrow_mut(), Ok(())))
}

pub fn spaces(x: &mut Ctx) {
  let n = x.by(2, 3);
  x.space(
    "within a call",
    format!("two clones of one map (3 shapes), {n} operations out of {} each and dropping: all of one's done at any call of a key or a value made by the other's", OPS.len()),
    move |c| nested(c, &[n, n], &OPS),
  );
  let n: [usize; 3] = x.by([1, 1, 1], [2, 1, 1]);
  x.space(
    "within a call within a call",
    format!("the same with three handles, the third's in the second's in the first's; {n:?} operations"),
    move |c| nested(c, &n, &OPS),
  );
  #[cfg(feature = "sync")]
  {
    let (bases, ops, slices): (&[usize], &'static [&'static str], usize) =
      x.by((&[1, 2], &["get_mut", "into_iter", "drop"], 2), (&[0, 1, 2], &OPS, 2));
    x.space(
      "schedules",
      format!("two threads, each with a clone of one map ({} shapes), an operation out of {} each and its map dropped: all schedules in which they take turns up to {slices} times before running to the end, preempted at calls of keys and values", bases.len(), ops.len()),
      move |c| run(c, bases, ops, slices),
    );
  }
}
