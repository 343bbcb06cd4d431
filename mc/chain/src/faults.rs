//! P42: a panic in a key, a value or an iterator, at every call of one of them, in every history.

use chain_map::ChainMap;
use mcx::{Ch, Ctx, Res, bail, catch, ensure, ensure_eq};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};

thread_local! {
  /// how many calls there were, and which of them is to panic
  static CALLS: Cell<(u32, u32)> = const { Cell::new((0, u32::MAX)) };
  static LIVE: Cell<i64> = const { Cell::new(0) };
}

fn tick(what: &str) {
  let (n, at) = CALLS.with(|c| {
    let (n, at) = c.get();
    c.set((n + 1, at));
    (n, at)
  });
  assert!(n != at, "injected: {what}");
}

fn live(d: i64) {
  LIVE.with(|l| l.set(l.get() + d));
}

struct Key(u32);
impl Key {
  fn new(n: u32) -> Self {
    live(1);
    Key(n)
  }
}
impl Clone for Key {
  fn clone(&self) -> Self {
    tick("key clone");
    Key::new(self.0)
  }
}
impl PartialEq for Key {
  fn eq(&self, o: &Self) -> bool {
    tick("key eq");
    self.0 == o.0
  }
}
impl Eq for Key {}
impl Hash for Key {
  fn hash<H: Hasher>(&self, h: &mut H) {
    tick("key hash");
    // two of three collide
    h.write_u32(self.0 / 2);
  }
}
impl std::ops::Drop for Key {
  fn drop(&mut self) {
    live(-1);
  }
}

struct Val(u32);
impl Val {
  fn new(n: u32) -> Self {
    live(1);
    Val(n)
  }
}
impl Clone for Val {
  fn clone(&self) -> Self {
    tick("value clone");
    Val::new(self.0)
  }
}
impl std::ops::Drop for Val {
  fn drop(&mut self) {
    live(-1);
  }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op {
  Insert(u32),
  Extend,
  Get(u32),
  Iter,
  Fork,
  Drop,
  GetMut(u32),
  Remove(u32),
  IterMut,
  Drain,
  Consolidate,
  IntoIter,
  Append(usize),
}
use Op::*;

impl Op {
  /// Whether it may fail having lost entries: those that rearrange the whole map.
  fn rearranges(self) -> bool {
    matches!(self, GetMut(_) | Remove(_) | IterMut | Drain | Consolidate | IntoIter)
  }
}

const SLOTS: usize = 2;
const KEYS: u32 = 3;

type Real = [Option<ChainMap<Key, Val>>; SLOTS];
type Model = [Option<BTreeMap<u32, u32>>; SLOTS];

/// Does the operation for real. `v` is the first of the new values.
fn real(w: &mut Real, h: usize, op: Op, v: u32) {
  let mut m = w[h].take().expect("handle");
  // the map stays in its place while the operation may panic
  macro_rules! stay {
    ($e:expr) => {{
      w[h] = Some(m);
      let m = w[h].as_mut().expect("handle");
      #[allow(clippy::redundant_closure_call)]
      ($e)(m);
    }};
  }
  match op {
    Insert(k) => stay!(|m: &mut ChainMap<Key, Val>| {
      m.insert(Key::new(k), Val::new(v));
    }),
    Extend => stay!(|m: &mut ChainMap<Key, Val>| {
      m.extend((0..KEYS).map(|k| {
        tick("iterator");
        (Key::new(k), Val::new(v + k))
      }));
    }),
    Get(k) => stay!(|m: &mut ChainMap<Key, Val>| {
      let k = Key::new(k);
      m.get(&k);
    }),
    Iter => stay!(|m: &mut ChainMap<Key, Val>| {
      m.iter().count();
    }),
    GetMut(k) => stay!(|m: &mut ChainMap<Key, Val>| {
      let k = Key::new(k);
      if let Some(x) = m.get_mut(&k) {
        *x = Val::new(v);
      }
    }),
    Remove(k) => stay!(|m: &mut ChainMap<Key, Val>| {
      let k = Key::new(k);
      m.remove(&k);
    }),
    IterMut => stay!(|m: &mut ChainMap<Key, Val>| {
      for (k, x) in m.iter_mut() {
        *x = Val::new(v + k.0);
      }
    }),
    Drain => stay!(|m: &mut ChainMap<Key, Val>| {
      m.drain().next();
    }),
    Consolidate => stay!(|m: &mut ChainMap<Key, Val>| m.consolidate()),
    IntoIter => {
      // a map that is taken apart is gone, whether that succeeds or not
      w[h] = Some(ChainMap::default());
      m.into_iter().count();
    }
    Fork => {
      w[h] = Some(m);
      let c = w[h].clone();
      w[1 - h] = c;
    }
    Drop => drop(m),
    Append(o) => {
      let mut other = w[o].take().expect("other");
      m.append(&mut other);
      w[h] = Some(m);
      w[o] = Some(other);
    }
  }
}

/// What it does if it succeeds.
fn model(w: &mut Model, h: usize, op: Op, v: u32) {
  let Some(m) = &mut w[h] else { return };
  match op {
    Insert(k) => {
      m.insert(k, v);
    }
    Extend => m.extend((0..KEYS).map(|k| (k, v + k))),
    Get(_) | Iter | Consolidate => {}
    GetMut(k) => {
      if let Some(x) = m.get_mut(&k) {
        *x = v;
      }
    }
    Remove(k) => {
      m.remove(&k);
    }
    IterMut => m.iter_mut().for_each(|(&k, x)| *x = v + k),
    Drain | IntoIter => m.clear(),
    Fork => w[1 - h] = w[h].clone(),
    Drop => w[h] = None,
    Append(o) => {
      let mut other = w[o].take().expect("other");
      w[h].as_mut().expect("handle").append(&mut other);
      w[o] = Some(other);
    }
  }
}

/// What a map holds, with the faults off.
fn look(m: &ChainMap<Key, Val>) -> Result<BTreeMap<u32, u32>, String> {
  CALLS.with(|c| c.set((0, u32::MAX)));
  let mut got = BTreeMap::new();
  for (k, x) in m.iter() {
    ensure!(got.insert(k.0, x.0).is_none(), "iter yields {} twice", k.0);
  }
  for k in 0..KEYS {
    ensure_eq!(m.get(&Key::new(k)).map(|x| x.0), got.get(&k).copied(), "get({k}) and iter");
  }
  if !got.is_empty() {
    ensure!(!m.is_empty(), "is_empty of {got:?}");
  }
  Ok(got)
}

fn history(c: &mut Ch<'_>, depth: usize, rich: bool) -> Res {
  let mut here = [true, false];
  let mut ops = vec![];
  for _ in 0..depth {
    let hs: Vec<usize> = (0..SLOTS).filter(|&h| here[h]).collect();
    if hs.is_empty() {
      break;
    }
    let h = *c.of(&hs);
    let mut all = vec![Insert(0), Insert(1), Extend, GetMut(0), IterMut, Consolidate];
    if rich {
      all.extend([Insert(2), Get(1), Iter, Remove(1), Drain, IntoIter]);
    }
    if here[1 - h] {
      all.push(Append(1 - h));
      all.push(Drop);
    } else {
      all.push(Fork);
    }
    let op = *c.of(&all);
    match op {
      Fork => here = [true, true],
      Drop => here[h] = false,
      _ => {}
    }
    ops.push((h, op));
  }
  c.log(|| format!("{ops:?}"));
  let l0 = LIVE.with(Cell::get);
  // once without a fault, to see how often keys, values and iterators are called by each
  let mut calls = vec![];
  let mut w: Real = [Some(ChainMap::default()), None];
  for (i, &(h, op)) in ops.iter().enumerate() {
    CALLS.with(|c| c.set((0, u32::MAX)));
    let r = catch(|| real(&mut w, h, op, 100 * (i as u32 + 1)));
    ensure!(r.is_ok(), "{op:?} of map {h} panicked: {r:?}");
    calls.push(CALLS.with(Cell::get).0);
  }
  drop(w);
  let total: u32 = calls.iter().sum();
  if total == 0 {
    return Ok(());
  }
  let at = c.pick(total as usize) as u32;
  let mut at_op = 0;
  let mut rest = at;
  while rest >= calls[at_op] {
    rest -= calls[at_op];
    at_op += 1;
  }
  c.log(|| format!("the call {rest} of {:?} panics", ops[at_op]));
  let mut w: Real = [Some(ChainMap::default()), None];
  let mut m: Model = [Some(BTreeMap::new()), None];
  // what was ever put under a key
  let mut ever: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
  for (i, &(h, op)) in ops.iter().enumerate() {
    let v = 100 * (i as u32 + 1);
    let before = m.clone();
    model(&mut m, h, op, v);
    for (&k, &x) in m.iter().flatten().flatten() {
      ever.entry(k).or_default().insert(x);
    }
    CALLS.with(|c| c.set((0, if i == at_op { rest } else { u32::MAX })));
    let r = catch(|| real(&mut w, h, op, v));
    CALLS.with(|c| c.set((0, u32::MAX)));
    c.checks(1);
    match r {
      Ok(()) => {}
      Err(p) if i == at_op && p.contains("injected") => {
        c.outcome(if op.rearranges() { "failed while rearranging" } else { "failed while adding or reading" });
        // the others are what they were; this one holds what it held, or should hold, or (some of) neither
        let Some(r) = &w[h] else { bail!("map {h} is lost") };
        let got = look(r).map_err(|e| format!("after a panic in {op:?} of map {h}: {e}"))?;
        let old = before[h].clone().unwrap_or_default();
        for (k, x) in &got {
          let put = ever.get(k).is_some_and(|s| s.contains(x));
          ensure!(put, "after a panic in {op:?} of map {h}, it holds {k}: {x}, which was never put there");
        }
        if !op.rearranges() {
          let new = m[h].clone().unwrap_or_default();
          for (k, x) in &old {
            let g = got.get(k);
            ensure!(
              g == Some(x) || g.is_some() && g == new.get(k),
              "after a panic in {op:?} of map {h}, {k}: {x} became {g:?}"
            );
          }
        }
        m = before;
        m[h] = Some(got);
      }
      Err(p) => bail!("{op:?} of map {h} panicked: {p}"),
    }
    for (j, (r, e)) in w.iter().zip(&m).enumerate() {
      ensure_eq!(r.is_some(), e.is_some(), "map {j} exists after {op:?} of map {h}");
      if let (Some(r), Some(e)) = (r, e) {
        let got = look(r).map_err(|e| format!("map {j} after {op:?} of map {h}: {e}"))?;
        // how much a drain that is dropped at once leaves is for it to say
        ensure_eq!(got, *e, "map {j} after {op:?} of map {h}");
      }
    }
  }
  drop(w);
  ensure_eq!(LIVE.with(Cell::get) - l0, 0, "keys and values left when every map is gone");
  Ok(())
}

pub fn p42(x: &mut Ctx) {
  let d = x.by(5, 6);
  x.space(
    "faults",
    format!("all histories of {d} operations on a map and its clone (insert, extend, get_mut, iter_mut, consolidate, append, clone, drop), 3 keys of which two collide; a panic at every call of a key's hash, equality or clone, a value's clone or the iterator"),
    move |c| history(c, d, false),
  );
  let d = x.by(4, 5);
  x.space(
    "more faults",
    format!("all histories of {d} operations, also get, iter, remove, drain, into_iter"),
    move |c| history(c, d, true),
  );
}
