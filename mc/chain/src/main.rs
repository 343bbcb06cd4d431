// P05: the chain map is a map. P06: clones are isolated. P39: nothing is copied needlessly.

mod faults;
mod threads;

use chain_map::ChainMap;
use mcx::{Ch, Ctx, Prop, Res, ensure, ensure_eq};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::Hash;

fn main() {
  mcx::main(&[Prop { id: "P05", run: p05 }, Prop { id: "P06", run: p06 }, Prop { id: "P39", run: p39 }, Prop { id: "P42", run: faults::p42 }]);
}

thread_local! {
  static LIVE: Cell<i64> = const { Cell::new(0) };
  /// how many keys and values were copied
  static COPIES: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

/// A value that counts how many of it exist (per thread).
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Val(u32);
impl Val {
  fn new(n: u32) -> Self {
    LIVE.with(|l| l.set(l.get() + 1));
    Val(n)
  }
}
impl Clone for Val {
  fn clone(&self) -> Self {
    COPIES.with(|c| c.set((c.get().0, c.get().1 + 1)));
    Val::new(self.0)
  }
}
impl Drop for Val {
  fn drop(&mut self) {
    LIVE.with(|l| l.set(l.get() - 1));
  }
}

trait Key: Hash + Eq + Ord + Clone + Debug + 'static {
  fn mk(n: usize) -> Self;
  /// a copy that does not count
  fn same(&self) -> Self {
    self.clone()
  }
  fn get<'m>(m: &'m ChainMap<Self, Val>, n: usize) -> Option<&'m Val>;
  fn get_mut<'m>(m: &'m mut ChainMap<Self, Val>, n: usize) -> Option<&'m mut Val>;
  fn remove(m: &mut ChainMap<Self, Val>, n: usize) -> Option<Val>;
}
impl Key for u32 {
  fn mk(n: usize) -> Self {
    n as u32
  }
  fn get<'m>(m: &'m ChainMap<Self, Val>, n: usize) -> Option<&'m Val> {
    m.get(&(n as u32))
  }
  fn get_mut<'m>(m: &'m mut ChainMap<Self, Val>, n: usize) -> Option<&'m mut Val> {
    m.get_mut(&(n as u32))
  }
  fn remove(m: &mut ChainMap<Self, Val>, n: usize) -> Option<Val> {
    m.remove(&(n as u32))
  }
}
/// A key that counts its copies.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Counted(u32);
impl Clone for Counted {
  fn clone(&self) -> Self {
    COPIES.with(|c| c.set((c.get().0 + 1, c.get().1)));
    Counted(self.0)
  }
}
impl Key for Counted {
  fn mk(n: usize) -> Self {
    Counted(n as u32)
  }
  fn same(&self) -> Self {
    Counted(self.0)
  }
  fn get<'m>(m: &'m ChainMap<Self, Val>, n: usize) -> Option<&'m Val> {
    m.get(&Counted(n as u32))
  }
  fn get_mut<'m>(m: &'m mut ChainMap<Self, Val>, n: usize) -> Option<&'m mut Val> {
    m.get_mut(&Counted(n as u32))
  }
  fn remove(m: &mut ChainMap<Self, Val>, n: usize) -> Option<Val> {
    m.remove(&Counted(n as u32))
  }
}
/// Owned keys, borrowed lookups. The empty string is key 0.
impl Key for String {
  fn mk(n: usize) -> Self {
    "k".repeat(n)
  }
  fn get<'m>(m: &'m ChainMap<Self, Val>, n: usize) -> Option<&'m Val> {
    m.get("k".repeat(n).as_str())
  }
  fn get_mut<'m>(m: &'m mut ChainMap<Self, Val>, n: usize) -> Option<&'m mut Val> {
    m.get_mut("k".repeat(n).as_str())
  }
  fn remove(m: &mut ChainMap<Self, Val>, n: usize) -> Option<Val> {
    m.remove("k".repeat(n).as_str())
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
  Insert(usize),
  ExtendNone,
  ExtendOne(usize),
  /// two entries for the same key (the later wins) and one for another
  ExtendDup(usize, usize),
  Append(usize),
  Remove(usize),
  GetMut(usize),
  IterMut,
  Drain,
  DrainOne,
  Consolidate,
  IntoIter,
  IntoIterOne,
  From,
  Fork,
  /// drops the handle
  Discard,
}
use Op::*;

struct World<K> {
  real: Vec<Option<ChainMap<K, Val>>>,
  model: Vec<Option<BTreeMap<usize, u32>>>,
  nkeys: usize,
  next: u32,
}

fn sorted<K: Ord>(it: impl Iterator<Item = (K, u32)>) -> Vec<(K, u32)> {
  let mut v: Vec<_> = it.collect();
  v.sort();
  v
}

impl<K: Key> World<K> {
  fn new(slots: usize, nkeys: usize) -> Self {
    let mut w = World { real: vec![], model: vec![], nkeys, next: 1 };
    for _ in 0..slots {
      w.real.push(None);
      w.model.push(None);
    }
    w
  }

  fn start(&mut self, h: usize) {
    self.real[h] = Some(ChainMap::default());
    self.model[h] = Some(BTreeMap::new());
  }

  fn val(&mut self) -> u32 {
    self.next += 1;
    self.next
  }

  fn want(m: &BTreeMap<usize, u32>) -> Vec<(K, u32)> {
    sorted(m.iter().map(|(&k, &v)| (K::mk(k), v)))
  }

  fn observe(&self, c: &mut Ch<'_>) -> Res {
    if !c.fresh() {
      return Ok(());
    }
    c.state(&self.model);
    for h in 0..self.real.len() {
      let (Some(r), Some(m)) = (&self.real[h], &self.model[h]) else { continue };
      ensure_eq!(r.is_empty(), m.is_empty(), "is_empty of map {h}");
      for k in 0..=self.nkeys {
        ensure_eq!(K::get(r, k).map(|v| v.0), m.get(&k).copied(), "get({k}) of map {h}");
      }
      ensure_eq!(
        sorted(r.iter().map(|(k, v)| (k.same(), v.0))),
        Self::want(m),
        "iteration of map {h}"
      );
      c.checks(self.nkeys as u64 + 3);
    }
    Ok(())
  }

  fn apply(&mut self, c: &mut Ch<'_>, h: usize, op: Op) -> Res {
    c.log(|| format!("map {h}: {op:?}"));
    let v = self.val();
    let v2 = self.val();
    let v3 = self.val();
    let r = self.real[h].as_mut().unwrap();
    let m = self.model[h].as_mut().unwrap();
    match op {
      Insert(k) => {
        let got = r.insert(K::mk(k), Val::new(v));
        ensure_eq!(got, m.insert(k, v).is_none(), "insert({k}) newly inserted");
      }
      ExtendNone => r.extend(std::iter::empty()),
      ExtendOne(k) => {
        r.extend([(K::mk(k), Val::new(v))]);
        m.insert(k, v);
      }
      ExtendDup(k, j) => {
        r.extend([(K::mk(k), Val::new(v)), (K::mk(j), Val::new(v2)), (K::mk(k), Val::new(v3))]);
        m.insert(k, v);
        m.insert(j, v2);
        m.insert(k, v3);
      }
      Append(o) => {
        let mut other = self.real[o].take().unwrap();
        self.real[h].as_mut().unwrap().append(&mut other);
        self.real[o] = Some(other);
        let om = std::mem::take(self.model[o].as_mut().unwrap());
        self.model[h].as_mut().unwrap().extend(om);
      }
      Remove(k) => {
        let got = K::remove(r, k).map(|v| v.0);
        ensure_eq!(got, m.remove(&k), "remove({k})");
      }
      GetMut(k) => {
        let got = K::get_mut(r, k);
        ensure_eq!(got.as_ref().map(|v| v.0), m.get(&k).copied(), "get_mut({k})");
        if let Some(x) = got {
          *x = Val::new(v);
          m.insert(k, v);
        }
      }
      IterMut => {
        let mut got = vec![];
        for (k, x) in r.iter_mut() {
          got.push((k.same(), x.0));
          *x = Val::new(x.0 + 1000);
        }
        got.sort();
        ensure_eq!(got, Self::want(m), "mutable iteration");
        for x in m.values_mut() {
          *x += 1000;
        }
      }
      Drain => {
        let got = sorted(r.drain().map(|(k, v)| (k, v.0)));
        ensure_eq!(got, Self::want(m), "drain");
        m.clear();
      }
      DrainOne => {
        let got = r.drain().next().map(|(k, v)| (k, v.0));
        match got {
          None => ensure!(m.is_empty(), "drain yields nothing for a non-empty map"),
          Some(kv) => ensure!(Self::want(m).contains(&kv), "drain yields {kv:?}, map is {m:?}"),
        }
        m.clear();
      }
      Consolidate => r.consolidate(),
      IntoIter => {
        let got = self.real[h].take().unwrap().into_iter();
        let got: Vec<(K, Val)> = got.collect();
        ensure_eq!(sorted(got.iter().map(|(k, v)| (k.same(), v.0))), Self::want(m), "into_iter");
        self.real[h] = Some(got.into_iter().collect());
      }
      IntoIterOne => {
        let mut it = self.real[h].take().unwrap().into_iter();
        match it.next().map(|(k, v)| (k, v.0)) {
          None => ensure!(m.is_empty(), "into_iter yields nothing for a non-empty map"),
          Some(kv) => ensure!(Self::want(m).contains(&kv), "into_iter yields {kv:?}, map is {m:?}"),
        }
        drop(it);
        self.start(h);
      }
      From => {
        let (k, j) = (0, self.nkeys - 1);
        self.real[h] = Some(ChainMap::from([
          (K::mk(j), Val::new(v)),
          (K::mk(k), Val::new(v2)),
          (K::mk(j), Val::new(v3)),
        ]));
        let m = self.model[h].as_mut().unwrap();
        m.clear();
        m.insert(j, v);
        m.insert(k, v2);
        m.insert(j, v3);
      }
      Fork => {
        let o = self.real.iter().position(Option::is_none).unwrap();
        self.real[o] = self.real[h].clone();
        self.model[o] = self.model[h].clone();
      }
      Discard => {
        self.real[h] = None;
        self.model[h] = None;
      }
    }
    self.observe(c)
  }

  fn end(self, live0: i64) -> Res {
    drop(self.real);
    let l = LIVE.with(Cell::get);
    ensure!(l == live0, "{} values leaked (negative: dropped twice) after all maps are gone", l - live0);
    Ok(())
  }

  fn handles(&self) -> Vec<usize> {
    (0..self.real.len()).filter(|&h| self.real[h].is_some()).collect()
  }
}

fn live() -> i64 {
  LIVE.with(|l| {
    l.set(0);
    0
  })
}

/// Operations of one map by itself.
fn solo_ops(nkeys: usize) -> Vec<Op> {
  let mut ops = vec![ExtendNone, IterMut, Drain, DrainOne, Consolidate, IntoIter, IntoIterOne, From];
  for k in 0..nkeys {
    ops.extend([Insert(k), Remove(k), GetMut(k), ExtendOne(k), ExtendDup(k, (k + 1) % nkeys)]);
  }
  ops
}

fn solo<K: Key>(c: &mut Ch<'_>, depth: usize, nkeys: usize) -> Res {
  let l0 = live();
  let mut w = World::<K>::new(1, nkeys);
  w.start(0);
  let ops = solo_ops(nkeys);
  w.observe(c)?;
  for _ in 0..depth {
    let op = *c.of(&ops);
    w.apply(c, 0, op)?;
  }
  w.end(l0)
}

const STYLES: [&str; 9] = ["next", "count", "last", "nth(0)", "nth(1)", "nth(7)", "fold", "for_each", "zip"];

/// Whether what an iterator says and yields agrees with what it is to yield, whichever method is asked: `taken` times
/// `next`, and then the rest.
fn consume<I: Iterator>(
  mut it: I,
  kv: impl Fn(I::Item) -> (u32, u32),
  want: &[(u32, u32)],
  taken: usize,
  style: &str,
) -> Res {
  let mut got = vec![];
  let hint = |it: &I, got: usize| {
    let (lo, hi) = it.size_hint();
    let left = want.len() - got;
    ensure!(
      lo <= left && hi.is_none_or(|hi| left <= hi),
      "size_hint is {:?} with {left} entries left",
      (lo, hi)
    );
    Ok(())
  };
  hint(&it, 0)?;
  for _ in 0..taken {
    let Some(x) = it.next() else { mcx::bail!("yields {} entries of {}", got.len(), want.len()) };
    got.push(kv(x));
    ensure!(got.len() <= want.len(), "yields {got:?}");
    hint(&it, got.len())?;
  }
  let left = want.len() - taken;
  // how many of those left each method passes over without showing them
  let mut hidden = 0;
  match style {
    "next" => {
      while let Some(x) = it.next() {
        got.push(kv(x));
        ensure!(got.len() <= want.len(), "yields {got:?}");
        hint(&it, got.len())?;
      }
    }
    "count" => {
      ensure_eq!(it.count(), left, "count after {taken} of {}", want.len());
      hidden = left;
    }
    "last" => {
      got.extend(it.last().map(kv));
      hidden = left.saturating_sub(1);
    }
    "fold" => got = it.fold(got, |mut v, x| {
      v.push(kv(x));
      v
    }),
    "for_each" => it.for_each(|x| got.push(kv(x))),
    "zip" => got.extend((0..left + 2).zip(it).map(|(_, x)| kv(x))),
    nth => {
      let n = match nth {
        "nth(0)" => 0,
        "nth(1)" => 1,
        _ => 7,
      };
      let x = it.nth(n);
      ensure_eq!(x.is_some(), left > n, "nth({n}) after {taken} of {} is there", want.len());
      hidden = n.min(left);
      got.extend(x.map(&kv));
      if left > n {
        got.extend(it.map(kv));
      }
    }
  }
  got.sort_unstable();
  ensure_eq!(got.len() + hidden, want.len(), "entries yielded and passed over");
  let mut rest = want.to_vec();
  for x in got {
    let Some(i) = rest.iter().position(|w| *w == x) else {
      mcx::bail!("yields {x:?}, which is not there, or again, of {want:?}")
    };
    rest.remove(i);
  }
  Ok(())
}

fn iterators(c: &mut Ch<'_>, depth: usize) -> Res {
  let l0 = live();
  let mut w = World::<u32>::new(2, 3);
  w.start(0);
  let ops = [Insert(0), Insert(1), Insert(2), ExtendDup(0, 1), ExtendNone, Remove(0), Consolidate, IntoIter];
  for _ in 0..depth {
    let op = *c.of(&ops);
    w.apply(c, 0, op)?;
  }
  if c.flag() {
    w.apply(c, 0, Fork)?;
  }
  let want = World::<u32>::want(w.model[0].as_ref().unwrap());
  let which = *c.of(&["iter", "iter_mut", "drain", "into_iter"]);
  let taken = c.pick(want.len() + 1);
  let style = *c.of(&STYLES);
  c.log(|| format!("{which}: next {taken} times, then {style}"));
  c.checks(1);
  let mut m = w.real[0].take().unwrap();
  let r = match which {
    "iter" => consume(m.iter(), |(k, v)| (*k, v.0), &want, taken, style),
    "iter_mut" => consume(m.iter_mut(), |(k, v)| (*k, v.0), &want, taken, style),
    "drain" => consume(m.drain(), |(k, v)| (k, v.0), &want, taken, style),
    _ => consume(std::mem::take(&mut m).into_iter(), |(k, v)| (k, v.0), &want, taken, style),
  };
  r.map_err(|e| format!("{which}, {style}: {e}"))?;
  if matches!(which, "drain" | "into_iter") {
    w.model[0] = Some(BTreeMap::new());
  }
  w.real[0] = Some(m);
  w.observe(c)?;
  w.end(l0)
}

/// Interleavings over several handles.
fn many<K: Key>(c: &mut Ch<'_>, depth: usize, slots: usize, nkeys: usize, starts: usize, rich: bool) -> Res {
  let l0 = live();
  let mut w = World::<K>::new(slots, nkeys);
  for h in 0..starts {
    w.start(h);
  }
  for _ in 0..depth {
    let hs = w.handles();
    if hs.is_empty() {
      break;
    }
    let h = *c.of(&hs);
    let mut ops = vec![];
    for k in 0..nkeys {
      ops.extend([Insert(k), Remove(k), GetMut(k)]);
      if rich {
        ops.push(ExtendDup(k, (k + 1) % nkeys));
      }
    }
    ops.extend([Consolidate, Drain, IterMut]);
    if rich {
      ops.extend([DrainOne, IntoIter, ExtendNone]);
    }
    for &o in &hs {
      if o != h {
        ops.push(Append(o));
      }
    }
    if hs.len() < slots {
      ops.push(Fork);
    }
    if hs.len() > 1 {
      ops.push(Discard);
    }
    let op = *c.of(&ops);
    w.apply(c, h, op)?;
  }
  w.end(l0)
}

/// A long run of inserts (round robin over the keys) with a few other operations anywhere.
fn long(c: &mut Ch<'_>, len: usize, nkeys: usize, mut budget: usize, clones: bool) -> Res {
  let l0 = live();
  let mut w = World::<u32>::new(2, nkeys);
  w.start(0);
  let mut devs = vec![
    Insert(0),
    Insert(nkeys - 1),
    Remove(0),
    Remove(1),
    GetMut(0),
    GetMut(2),
    IterMut,
    Drain,
    Consolidate,
    IntoIter,
    ExtendDup(1, 0),
    ExtendNone,
  ];
  if clones {
    devs.push(Fork);
  }
  let mut cur = 0;
  for i in 0..len {
    let d = c.deviate(&mut budget, devs.len() + 1);
    if d > 0 {
      let op = devs[d - 1];
      if op == Fork {
        if w.real[1].is_none() {
          w.apply(c, cur, Fork)?;
          // go on with the clone in every other place
          cur = i % 2;
        }
      } else {
        w.apply(c, cur, op)?;
      }
    }
    w.apply(c, cur, Insert(i % nkeys))?;
  }
  if w.real[1].is_some() {
    // bring both together again, in either order
    let (a, b) = if c.flag() { (0, 1) } else { (1, 0) };
    w.apply(c, a, Append(b))?;
  }
  w.apply(c, 0, Consolidate)?;
  w.end(l0)
}

/// All interleavings of runs of inserts and other operations on up to three handles: many layers, of
/// which some are shared.
fn layers(c: &mut Ch<'_>, depth: usize, runs: &[(usize, usize)], clones: bool) -> Res {
  const KEYS: usize = 7;
  let l0 = live();
  let mut w = World::<u32>::new(if clones { 3 } else { 2 }, KEYS);
  w.start(0);
  w.start(1);
  for _ in 0..depth {
    let hs = w.handles();
    let h = *c.of(&hs);
    let mut ops: Vec<Result<(usize, usize), Op>> = runs.iter().map(|&n| Ok(n)).collect();
    ops.extend([GetMut(6), Remove(5), Insert(5), IterMut, IntoIter].map(Err));
    for &o in &hs {
      if o != h {
        ops.push(Err(Append(o)));
      }
    }
    if clones && hs.len() < 3 {
      ops.push(Err(Fork));
    }
    if !clones {
      ops.extend([Consolidate, Drain, ExtendDup(2, 3)].map(Err));
    }
    match *c.of(&ops) {
      Err(op) => w.apply(c, h, op)?,
      Ok((n, keys)) => {
        c.log(|| format!("map {h}: {n} inserts, round robin over {keys} keys"));
        for i in 0..n {
          let v = w.val();
          let k = KEYS - 1 - i % keys;
          let got = w.real[h].as_mut().unwrap().insert(u32::mk(k), Val::new(v));
          ensure_eq!(got, w.model[h].as_mut().unwrap().insert(k, v).is_none(), "insert({k}) newly inserted");
        }
        w.observe(c)?;
      }
    }
  }
  w.end(l0)
}

/// One load from an iterator that yields `d` distinct keys and then repetitions.
fn loads(c: &mut Ch<'_>, sizes: &[usize]) -> Res {
  let l0 = live();
  let n = *c.of(sizes);
  let d = 1 + c.pick(n);
  let again = *c.of(&["round robin", "the first", "the last", "backwards"]);
  let hint = *c.of(&["exact", "none", "low"]);
  let how = *c.of(&["extend an empty map", "extend a map with every key", "collect"]);
  c.log(|| format!("{how} from {n} pairs, of which {d} distinct keys, then {again} again; length hint: {hint}"));
  let keys: Vec<usize> = (0..n)
    .map(|i| match again {
      _ if i < d => i,
      "round robin" => i % d,
      "the first" => 0,
      "the last" => d - 1,
      _ => d - 1 - (i % d),
    })
    .collect();
  let mut w = World::<u32>::new(1, d);
  w.start(0);
  if how == "extend a map with every key" {
    for k in 0..d {
      let v = w.val();
      w.real[0].as_mut().unwrap().insert(k as u32, Val::new(v));
      w.model[0].as_mut().unwrap().insert(k, v);
    }
  }
  let base = w.next + 1;
  let m = w.model[0].as_mut().unwrap();
  for (i, &k) in keys.iter().enumerate() {
    m.insert(k, base + i as u32);
  }
  w.next = base + n as u32;
  let pairs = keys.iter().enumerate().map(|(i, &k)| (k as u32, Val::new(base + i as u32)));
  let pairs: Box<dyn Iterator<Item = (u32, Val)>> = match hint {
    "exact" => Box::new(pairs),
    "none" => Box::new(pairs.filter(|_| true)),
    _ => {
      let (a, b): (Vec<_>, Vec<_>) = pairs.partition(|x| x.1.0 - base < n as u32 / 2);
      Box::new(a.into_iter().chain(b.into_iter().filter(|_| true)))
    }
  };
  if how == "collect" {
    w.real[0] = Some(pairs.collect());
  } else {
    w.real[0].as_mut().unwrap().extend(pairs);
  }
  w.observe(c)?;
  w.apply(c, 0, GetMut(0))?;
  w.end(l0)
}

/// A bulk load of `n` distinct keys, then short histories on top.
fn bulk(c: &mut Ch<'_>, sizes: &[usize], depth: usize) -> Res {
  let l0 = live();
  let n = *c.of(sizes);
  let mut w = World::<u32>::new(2, n);
  w.start(0);
  c.log(|| format!("extend with {n} keys"));
  let m = w.model[0].as_mut().unwrap();
  w.real[0].as_mut().unwrap().extend((0..n).map(|k| (k as u32, Val::new(k as u32))));
  for k in 0..n {
    m.insert(k, k as u32);
  }
  w.observe(c)?;
  for _ in 0..depth {
    let hs = w.handles();
    let h = *c.of(&hs);
    let mut ops = vec![
      Insert(0),
      Insert(n - 1),
      Insert(n / 2),
      Remove(n / 2),
      GetMut(n - 1),
      IterMut,
      Drain,
      Consolidate,
      ExtendDup(0, n - 1),
    ];
    if hs.len() < 2 {
      ops.push(Fork);
    } else {
      ops.push(Append(1 - h));
    }
    let op = *c.of(&ops);
    w.apply(c, h, op)?;
  }
  w.end(l0)
}

/// A map of many layers or many keys, then a few operations on it (and on a clone of it).
fn huge(c: &mut Ch<'_>, sizes: &[(usize, usize)], clones: bool) -> Res {
  const KEYS: usize = 4;
  let l0 = live();
  let (n, depth) = *c.of(sizes);
  let how = *c.of(&["layers", "keys", "keys, a layer each", "appended layers"]);
  let keys = if how == "layers" || how == "appended layers" { KEYS } else { n };
  c.log(|| format!("{how}: {n}"));
  let mut w = World::<u32>::new(2, KEYS);
  w.start(0);
  let mut m = BTreeMap::new();
  let r = w.real[0].as_mut().unwrap();
  let base = w.next;
  for (i, k) in (0..n).map(|i| (i, i % keys)) {
    m.insert(k, base + i as u32);
    let v = Val::new(base + i as u32);
    match how {
      "appended layers" => r.append(&mut ChainMap::from([(k as u32, v)])),
      "keys" if i > 0 => drop(v),
      "keys" => r.extend(std::iter::once((0, v)).chain((1..n).map(|k| (k as u32, Val::new(base + k as u32))))),
      _ => r.extend([(k as u32, v)]),
    }
  }
  w.model[0] = Some(m);
  w.next = base + n as u32;
  w.nkeys = KEYS;
  w.observe(c)?;
  for i in 0..depth {
    let hs = w.handles();
    let h = *c.of(&hs);
    let mut ops = vec![Insert(0), Insert(n + 7), ExtendDup(1, n), Remove(2), GetMut(3), GetMut(n), IterMut, Drain, Consolidate, IntoIter];
    if hs.len() > 1 {
      ops.push(Append(1 - h));
    } else if clones {
      ops.push(Fork);
    }
    if clones && i == 0 {
      ops = vec![Fork];
    }
    let op = *c.of(&ops);
    w.apply(c, h, op)?;
  }
  w.end(l0)
}

/// What the entries of one map are made of: the things that were put in together, each with how many
/// entries it has and how often the map holds it (more than once if a clone was appended to it).
type Pieces = BTreeMap<u32, (usize, usize)>;

struct Costs<K> {
  w: World<K>,
  pieces: Vec<Pieces>,
  next: u32,
}

impl<K: Key> Costs<K> {
  fn new(slots: usize, nkeys: usize, starts: usize) -> Self {
    let mut w = World::<K>::new(slots, nkeys);
    for h in 0..starts {
      w.start(h);
    }
    Costs { w, pieces: vec![Pieces::new(); slots], next: 0 }
  }

  fn add(&mut self, h: usize, entries: usize) {
    self.next += 1;
    self.pieces[h].insert(self.next, (entries, 1));
  }

  /// How many entries are held in another place as well.
  fn shared(&self, h: usize) -> usize {
    let hs = self.w.handles();
    let other = |id: &u32| hs.iter().any(|&o| o != h && self.pieces[o].contains_key(id));
    self.pieces[h].iter().filter(|&(id, &(_, m))| m > 1 || other(id)).map(|(_, &(n, m))| n * m).sum()
  }

  fn apply(&mut self, c: &mut Ch<'_>, h: usize, op: Op) -> Res {
    let may = match op {
      Insert(_) | ExtendNone | ExtendOne(_) | ExtendDup(..) | Append(_) | From | Fork | Discard => 0,
      Remove(_) | GetMut(_) | IterMut | Drain | DrainOne | Consolidate | IntoIter | IntoIterOne => self.shared(h),
    };
    let before = COPIES.with(Cell::get);
    let free = self.w.real.iter().position(Option::is_none);
    self.w.apply(c, h, op)?;
    let after = COPIES.with(Cell::get);
    let copied = (after.0 - before.0, after.1 - before.1);
    c.checks(2);
    ensure!(
      copied.0 <= may && copied.1 <= may,
      "map {h}: {op:?} copies {} keys and {} values, when {may} of its entries are held in another place too",
      copied.0,
      copied.1
    );
    match op {
      ExtendNone => {}
      Insert(_) | ExtendOne(_) => self.add(h, 1),
      ExtendDup(k, j) => self.add(h, 1 + usize::from(k != j)),
      Append(o) => {
        for (id, (n, m)) in std::mem::take(&mut self.pieces[o]) {
          self.pieces[h].entry(id).or_insert((n, 0)).1 += m;
        }
      }
      Fork => self.pieces[free.unwrap()] = self.pieces[h].clone(),
      Discard => self.pieces[h].clear(),
      From | IntoIter | IntoIterOne | Drain | DrainOne => {
        self.pieces[h].clear();
        self.add(h, self.w.model[h].as_ref().unwrap().len());
      }
      Remove(_) | GetMut(_) | IterMut | Consolidate => {
        // a map that managed without copying may still hold what it shared
        if may == 0 || copied != (0, 0) {
          let extra = usize::from(matches!(op, Remove(_)));
          self.pieces[h].clear();
          self.add(h, self.w.model[h].as_ref().unwrap().len() + extra);
        }
      }
    }
    Ok(())
  }
}

/// Interleavings of everything over several handles, counting copies.
fn copies<K: Key>(c: &mut Ch<'_>, depth: usize, slots: usize, nkeys: usize, starts: usize, rich: bool) -> Res {
  let l0 = live();
  let mut w = Costs::<K>::new(slots, nkeys, starts);
  for _ in 0..depth {
    let hs = w.w.handles();
    if hs.is_empty() {
      break;
    }
    let h = *c.of(&hs);
    let mut ops = vec![];
    for k in 0..nkeys {
      ops.extend([Insert(k), Remove(k), GetMut(k)]);
      if rich {
        ops.push(ExtendDup(k, (k + 1) % nkeys));
      }
    }
    ops.extend([Consolidate, Drain, IterMut]);
    if rich {
      ops.extend([DrainOne, IntoIter, IntoIterOne, ExtendNone]);
    }
    ops.extend(hs.iter().filter(|&&o| o != h).map(|&o| Append(o)));
    if hs.len() < slots {
      ops.push(Fork);
    }
    if hs.len() > 1 {
      ops.push(Discard);
    }
    let op = *c.of(&ops);
    w.apply(c, h, op)?;
  }
  w.w.end(l0)
}

/// Runs of inserts of up to the given lengths, or one extend as large, between a few operations on up
/// to three handles: neither many layers nor large ones are copied needlessly.
fn copies_large(c: &mut Ch<'_>, depth: usize, runs: &[usize]) -> Res {
  const KEYS: usize = 5;
  let l0 = live();
  let mut w = Costs::<Counted>::new(3, KEYS, 1);
  for _ in 0..depth {
    let hs = w.w.handles();
    let h = *c.of(&hs);
    let mut ops: Vec<Result<(usize, bool), Op>> = runs.iter().flat_map(|&n| [Ok((n, false)), Ok((n, true))]).collect();
    ops.extend([GetMut(4), GetMut(0), Remove(3), Consolidate, IterMut, IntoIter, Drain].map(Err));
    ops.extend(hs.iter().filter(|&&o| o != h).map(|&o| Err(Append(o))));
    if hs.len() < 3 {
      ops.push(Err(Fork));
    }
    if hs.len() > 1 {
      ops.push(Err(Discard));
    }
    match *c.of(&ops) {
      Err(op) => w.apply(c, h, op)?,
      Ok((n, false)) => {
        for i in 0..n {
          w.apply(c, h, Insert(i % KEYS))?;
        }
      }
      Ok((n, true)) => {
        c.log(|| format!("map {h}: extend with {n} keys"));
        let before = COPIES.with(Cell::get);
        let v = w.w.val();
        let r = w.w.real[h].as_mut().unwrap();
        r.extend((0..n).map(|k| (Counted::mk(k), Val::new(v))));
        let m = w.w.model[h].as_mut().unwrap();
        m.extend((0..n).map(|k| (k, v)));
        ensure_eq!(COPIES.with(Cell::get), before, "keys and values copied by an extend");
        w.add(h, n);
        w.w.observe(c)?;
      }
    }
  }
  w.w.end(l0)
}

fn p39(x: &mut Ctx) {
  let d = x.by(5, 6);
  x.space(
    "two handles",
    format!("all interleavings of {d} operations on up to 2 handles of 2 keys, one a clone of the other: insert, duplicate and empty extend, remove, get_mut, iter_mut, full and partial drain and into_iter, consolidate, append, clone, drop; copies of keys and values counted in every step and in every observation"),
    move |c| copies::<Counted>(c, d, 2, 2, 1, true),
  );
  let d = x.by(5, 6);
  x.space(
    "three handles",
    format!("all interleavings of {d} operations on up to 3 handles of 1 key"),
    move |c| copies::<Counted>(c, d, 3, 1, 1, true),
  );
  let d = x.by(5, 6);
  x.space(
    "unrelated",
    format!("all interleavings of {d} operations on two unrelated maps and up to one clone, 1 key, smaller operation set"),
    move |c| copies::<Counted>(c, d, 3, 1, 2, false),
  );
  let (d, runs): (usize, &'static [usize]) = x.by((4, &[2, 9, 17, 33, 65, 300]), (5, &[2, 9, 17, 33, 65, 300]));
  x.space(
    "large",
    format!("up to 3 handles: all interleavings of {d} steps, each a run of that many inserts or one extend with that many keys ({runs:?}) or one of up to 11 other operations"),
    move |c| copies_large(c, d, runs),
  );
}

fn p05(x: &mut Ctx) {
  let d = x.by(5, 6);
  x.space(
    "solo",
    format!("one map, 3 keys, all sequences of {d} operations out of 23 (insert, single/duplicate/empty extend, remove, get_mut, iter_mut, full and partial drain and into_iter, consolidate, from array); every observation after every step; every value's drop counted"),
    move |c| solo::<u32>(c, d, 3),
  );
  let d = x.by(6, 7);
  x.space("solo2", format!("as solo with 1 key, all sequences of {d} operations out of 13"), move |c| {
    solo::<u32>(c, d, 1)
  });
  let d = x.by(4, 5);
  x.space(
    "strings",
    format!("as solo with owned string keys searched by borrowed text, sequences of {d} operations, 3 keys"),
    move |c| solo::<String>(c, d, 3),
  );
  let d = x.by(4, 5);
  x.space(
    "two",
    format!("two unrelated maps, 2 keys, all interleavings of {d} operations incl. appending either to the other"),
    move |c| many::<u32>(c, d, 2, 2, 2, true),
  );
  let d = x.by(4, 5);
  x.space(
    "iterators",
    format!("all sequences of {d} operations out of 8, with and without a clone; then each of the four iterators is asked for the next entry any number of times, and for the rest in each of {} ways; what it says about its length is checked at every step", STYLES.len()),
    move |c| iterators(c, d),
  );
  let (len, dev) = x.by((40, 2), (72, 2));
  x.space(
    "long",
    format!("{len} inserts round robin over 7 keys with up to {dev} other operations (12 kinds) at every place"),
    move |c| long(c, len, 7, dev, false),
  );
  let len = x.by(300, 1200);
  x.space(
    "longer",
    format!("{len} inserts round robin over 5 keys with one other operation (12 kinds) at every place"),
    move |c| long(c, len, 5, 1, false),
  );
  x.space(
    "bulk",
    "extends of 1..=17, 64, 257, 1000 keys, then all histories of 2 operations out of 10",
    |c| {
      let mut sizes: Vec<usize> = (1..=17).collect();
      sizes.extend([64, 257, 1000]);
      bulk(c, &sizes, 2)
    },
  );
  let (d, runs): (usize, &'static [(usize, usize)]) = x.by((4, &[(1, 1), (17, 1), (65, 7)]), (5, &[(1, 1), (17, 1), (65, 7), (300, 3)]));
  x.space(
    "layers",
    format!("two maps of 7 keys: all interleavings of {d} steps, each a run of inserts (length and number of keys {runs:?}) or one of 9 other operations (incl. appending)"),
    move |c| layers(c, d, runs, false),
  );
  let most = x.by(36, 72);
  x.space(
    "loads",
    format!("one load of 1..={most} or 113, 225, 449 pairs, every number of distinct keys, 4 orders of repetitions, 3 hints of length, into an empty, a layered or a new map"),
    move |c| {
      let mut sizes: Vec<usize> = (1..=most).collect();
      sizes.extend([113, 225, 449]);
      loads(c, &sizes)
    },
  );
  let sizes: &'static [(usize, usize)] = x.by(&[(255, 2), (4097, 2), (65_536, 2)], &[(255, 3), (256, 2), (257, 2), (4097, 3), (65_535, 2), (65_536, 2), (65_537, 2), (131_073, 2)]);
  x.space(
    "huge",
    format!("many layers (of 4 keys, extended or appended) or keys (in one layer or a layer each), then all histories of operations out of 10 (how many of each: {sizes:?})"),
    move |c| huge(c, sizes, false),
  );
}

/// Whether a type may be sent and shared between threads (decided without failing to compile).
struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
impl<T: Send + Sync> Probe<T> {
  const THREAD_SAFE: bool = true;
}
#[allow(dead_code)]
trait Fallback {
  const THREAD_SAFE: bool = false;
}
impl<T> Fallback for Probe<T> {}

fn p06(x: &mut Ctx) {
  if env!("CARGO_PKG_NAME") == "chain-sync" {
    x.space("threads", "the thread-safe configuration can be shared between threads", |c| {
      c.checks(1);
      ensure!(
        Probe::<ChainMap<u32, String>>::THREAD_SAFE,
        "with feature sync, ChainMap<u32, String> is not Send + Sync"
      );
      Ok(())
    });
  }
  threads::spaces(x);
  let d = x.by(5, 6);
  x.space(
    "clones",
    format!("all interleavings of {d} operations on up to 3 handles related by cloning (1 key): insert, extend, remove, get_mut, iter_mut, drain, consolidate, into_iter, append, clone, drop; all handles observed after every step"),
    move |c| many::<u32>(c, d, 3, 1, 1, true),
  );
  let d = x.by(5, 6);
  x.space(
    "clones2",
    format!("all interleavings of {d} operations on up to 3 handles, 2 keys, smaller operation set"),
    move |c| many::<u32>(c, d, 3, 2, 1, false),
  );
  let d = x.by(6, 8);
  x.space(
    "clones1",
    format!("all interleavings of {d} operations on up to 2 handles, 1 key, smaller operation set"),
    move |c| many::<u32>(c, d, 2, 1, 1, false),
  );
  let (len, dev) = x.by((24, 2), (30, 3));
  x.space(
    "long",
    format!("{len} inserts with up to {dev} other operations incl. cloning at every place, then re-joining the handles in either order"),
    move |c| long(c, len, 4, dev, true),
  );
  let d = x.by(4, 5);
  x.space(
    "bulk",
    format!("extends of 1, 2, 9, 33, 300 keys, then all histories of {d} operations on a map and its clone"),
    move |c| bulk(c, &[1, 2, 9, 33, 300], d),
  );
  let (d, runs): (usize, &'static [(usize, usize)]) = x.by((5, &[(17, 1), (65, 7)]), (5, &[(1, 1), (17, 1), (33, 6), (65, 7)]));
  x.space(
    "layers",
    format!("up to 3 handles of 7 keys, two unrelated and one cloned: all interleavings of {d} steps, each a run of inserts (length and number of keys {runs:?}) or one of 8 other operations (incl. cloning and appending)"),
    move |c| layers(c, d, runs, true),
  );
  let sizes: &'static [(usize, usize)] = x.by(&[(255, 3), (4097, 3), (65_536, 2)], &[(255, 4), (256, 3), (257, 3), (4097, 3), (65_535, 3), (65_536, 3), (65_537, 3)]);
  x.space(
    "huge",
    format!("many layers or keys as in P05, cloned, then all histories of operations on either out of 11, incl. appending the other (how many, with the cloning: {sizes:?})"),
    move |c| huge(c, sizes, true),
  );
}
