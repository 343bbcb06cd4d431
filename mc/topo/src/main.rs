// P17: order of acyclic graphs. P18: cycles. P19: the visitor protocol.

use mcx::{Ch, Ctx, Prop, Res, bail, catch, ensure, ensure_eq};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::BuildHasherDefault;
use topo_sort::graph::{self, Graph};
use topo_sort::{Ret, Set, Visitor, Work};

fn main() {
  mcx::main(&[
    Prop { id: "P17", run: |x| graphs(x, false) },
    Prop { id: "P18", run: |x| graphs(x, true) },
    Prop { id: "P19", run: p19 },
  ]);
}

// ---------------------------------------------------------------------------------------------

trait Node: Copy + Ord + Debug {
  fn mk(n: usize) -> Self;
}
impl Node for u32 {
  fn mk(n: usize) -> Self {
    n as u32
  }
}
/// order opposite to the number, extreme values
impl Node for i64 {
  fn mk(n: usize) -> Self {
    if n == 0 { i64::MAX } else { -(n as i64) * 1_000_000_007 }
  }
}

/// The reference: adjacency matrix and its transitive closure.
struct Model {
  n: usize,
  present: u64,
  adj: Vec<u64>,
}

impl Model {
  fn new(n: usize) -> Self {
    Model { n, present: 0, adj: vec![0; n] }
  }

  fn edges(&mut self, a: usize, mask: u64) {
    self.present |= 1 << a | mask;
    self.adj[a] |= mask;
  }

  fn closure(&self) -> Vec<u64> {
    let mut r = self.adj.clone();
    for k in 0..self.n {
      for i in 0..self.n {
        if r[i] >> k & 1 == 1 {
          r[i] |= r[k];
        }
      }
    }
    r
  }
}

fn check_graph<T: Node>(c: &mut Ch<'_>, g: &Graph<T>, m: &Model, cycles: bool) -> Res {
  let reach = m.closure();
  let cyclic = (0..m.n).any(|i| reach[i] >> i & 1 == 1);
  c.log(|| format!("graph: {g:?}"));
  c.state(&(m.present, &m.adj));
  c.checks(1);
  let got = catch(|| graph::get(g)).map_err(|e| format!("sorting {g:?} panicked: {e}"))?;
  c.outcome(if cyclic { "cyclic" } else { "acyclic" });
  if cycles {
    match got {
      Ok(order) => ensure!(!cyclic, "{g:?} has a cycle, but was ordered: {order:?}"),
      Err(e) => {
        let s = e.to_string();
        ensure!(!s.is_empty(), "empty error text");
        let w = e.witness();
        ensure!(cyclic, "{g:?} has no cycle, but one was reported at {w:?}");
        let i = (0..m.n).find(|&i| T::mk(i) == w);
        match i {
          Some(i) if reach[i] >> i & 1 == 1 => {}
          _ => bail!("{g:?}: the witness {w:?} cannot reach itself"),
        }
      }
    }
  } else if !cyclic {
    let Ok(order) = got else { bail!("{g:?} has no cycle, but sorting failed") };
    let mut at: BTreeMap<T, usize> = BTreeMap::new();
    for (i, &x) in order.iter().enumerate() {
      ensure!(at.insert(x, i).is_none(), "{g:?}: {x:?} twice in {order:?}");
    }
    for i in 0..m.n {
      let x = T::mk(i);
      ensure_eq!(at.contains_key(&x), m.present >> i & 1 == 1, "{g:?}: whether {x:?} is in {order:?}");
      for j in 0..m.n {
        if m.adj[i] >> j & 1 == 1 {
          ensure!(at[&T::mk(j)] < at[&x], "{g:?}: {x:?} comes before its neighbour {:?} in {order:?}", T::mk(j));
        }
      }
    }
    ensure_eq!(order.len(), m.present.count_ones() as usize, "{g:?}: length of {order:?}");
  }
  Ok(())
}

fn build<T: Node>(m: &Model, keys: u64) -> Graph<T> {
  (0..m.n)
    .filter(|&i| keys >> i & 1 == 1)
    .map(|i| (T::mk(i), (0..m.n).filter(|&j| m.adj[i] >> j & 1 == 1).map(T::mk).collect()))
    .collect()
}

fn graphs(x: &mut Ctx, cycles: bool) {
  let max = x.by(4, 5);
  for n in 1..=max {
    x.space(
      &format!("all graphs of {n} nodes"),
      "every node: absent, or any set of neighbours (also ones that are not keys, also itself)",
      move |c: &mut Ch<'_>| {
        let mut m = Model::new(n);
        let mut keys = 0;
        for a in 0..n {
          let k = c.pick((1 << n) + 1) as u64;
          if k > 0 {
            keys |= 1 << a;
            m.edges(a, k - 1);
          }
        }
        if c.flag() { check_graph(c, &build::<i64>(&m, keys), &m, cycles) } else { check_graph(c, &build::<u32>(&m, keys), &m, cycles) }
      },
    );
  }
  if !x.thorough() {
    x.space("sparse graphs of 5 nodes", "every node: absent, or at most 2 neighbours", move |c: &mut Ch<'_>| {
      let n = 5;
      let mut m = Model::new(n);
      let mut keys = 0;
      for a in 0..n {
        let k = c.pick(1 + 1 + 5 + 10);
        if k > 0 {
          keys |= 1 << a;
          let mask = (0..32_u64).filter(|m| m.count_ones() <= 2).nth(k - 1).expect("17");
          m.edges(a, mask);
        }
      }
      check_graph(c, &build::<u32>(&m, keys), &m, cycles)
    });
  }
  let n = x.by(7, 8);
  x.space(
    &format!("all graphs of {n} nodes with at most one neighbour"),
    "functional graphs: every node absent or with none or one neighbour",
    move |c: &mut Ch<'_>| {
      let mut m = Model::new(n);
      let mut keys = 0;
      for a in 0..n {
        let k = c.pick(n + 2);
        if k > 0 {
          keys |= 1 << a;
          m.edges(a, if k == 1 { 0 } else { 1 << (k - 2) });
        }
      }
      check_graph(c, &build::<u32>(&m, keys), &m, cycles)
    },
  );
  let n6 = x.by(5, 6);
  x.space(
    &format!("all acyclic graphs of {n6} nodes, one extra edge"),
    "every subset of the edges from higher to lower (or lower to higher) nodes, plus any one edge",
    move |c: &mut Ch<'_>| {
      let mut m = Model::new(n6);
      let up = c.flag();
      for a in 0..n6 {
        for b in 0..a {
          if c.flag() {
            if up { m.edges(b, 1 << a) } else { m.edges(a, 1 << b) }
          }
        }
      }
      let k = c.pick(n6 * n6 + 1);
      if k > 0 {
        m.edges((k - 1) / n6, 1 << ((k - 1) % n6));
      }
      let keys = (0..n6).fold(0, |ks, i| if m.adj[i] != 0 { ks | 1 << i } else { ks });
      check_graph(c, &build::<u32>(&m, keys), &m, cycles)
    },
  );
  let budget = x.by(2, 3);
  x.space(
    "larger graphs",
    format!("five shapes of 14 nodes (chain, ladder, layered, stars, comb), both orientations, up to {budget} edges added or removed"),
    move |c: &mut Ch<'_>| {
      let n = 14;
      let shape = c.pick(5);
      let flip = c.flag();
      let mut m = Model::new(n);
      let e = |a: usize, b: usize| -> bool {
        a != b
          && match shape {
            0 => b == a + 1,
            1 => b == a + 1 || b == a + 2,
            2 => b / 4 == a / 4 + 1,
            3 => a == 0 || (a == 7 && b > 7),
            _ => (a % 2 == 0 && b == a + 2) || (a % 2 == 0 && b == a + 1),
          }
      };
      let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
      for a in 0..n {
        for b in 0..n {
          if e(a, b) && !(shape == 3 && a == 7 && b == 0) {
            edges.insert(if flip { (n - 1 - a, n - 1 - b) } else { (a, b) });
          }
        }
      }
      let mut from = 0;
      for _ in 0..budget {
        // ordered, so that no set of changes comes twice
        let k = from + c.pick(n * n + 1 - from);
        if k == n * n {
          break;
        }
        from = k;
        let ed = (k / n, k % n);
        if !edges.remove(&ed) {
          edges.insert(ed);
        }
      }
      for a in 0..n {
        m.edges(a, 0);
      }
      for (a, b) in edges {
        m.edges(a, 1 << b);
      }
      check_graph(c, &build::<u32>(&m, (1 << n) - 1), &m, cycles)
    },
  );
  x.space("huge graphs", "chains, stars and complete layers of up to 200000 nodes, with and without a closing edge", {
    move |c: &mut Ch<'_>| {
      let n = *c.of(&[1_000_u32, 20_000, 200_000]);
      let shape = c.pick(4);
      let close = c.flag();
      let mut g: Graph<u32> = Graph::new();
      match shape {
        0 => (0..n - 1).for_each(|i| { g.entry(i).or_default().insert(i + 1); }),
        1 => (0..n - 1).for_each(|i| { g.entry(i + 1).or_default().insert(i); }),
        2 => (1..n).for_each(|i| { g.entry(0).or_default().insert(i); }),
        _ => (0..n - 1).for_each(|i| { g.entry(i).or_default().insert(n - 1); }),
      }
      if close {
        let (a, b) = match shape {
          0 => (n - 1, n / 2),
          1 => (n / 2, n - 1),
          2 => (n - 1, 0),
          _ => (n - 1, n - 2),
        };
        g.entry(a).or_default().insert(b);
      }
      c.progress();
      c.checks(1);
      let got = graph::get(&g);
      c.progress();
      match got {
        Err(e) => {
          let w = e.witness();
          if !cycles {
            ensure!(close, "an acyclic graph of {n} nodes was refused");
            return Ok(());
          }
          ensure!(close, "no cycle, but one was reported at {w}");
          let on = match shape {
            0 => w >= n / 2,
            1 => w >= n / 2,
            2 => w == 0 || w == n - 1,
            _ => w >= n - 2,
          };
          ensure!(on, "shape {shape} of {n} nodes: the witness {w} is not on the cycle");
        }
        Ok(order) => {
          ensure!(!close, "shape {shape} of {n} nodes: the cycle was not found");
          if cycles {
            return Ok(());
          }
          ensure_eq!(order.len(), n as usize, "length");
          let mut at = vec![u32::MAX; n as usize];
          for (i, &x) in order.iter().enumerate() {
            at[x as usize] = i as u32;
          }
          ensure!(at.iter().all(|&x| x != u32::MAX), "a node is missing");
          for (&a, bs) in &g {
            for &b in bs {
              ensure!(at[b as usize] < at[a as usize], "{a} before its neighbour {b}");
            }
          }
        }
      }
      c.outcome("large");
      Ok(())
    }
  });
}

// ---------------------------------------------------------------------------------------------
// P19

/// What the monitor knows. Elements are small numbers.
struct Mon<'c, 'd> {
  c: &'c mut Ch<'d>,
  n: usize,
  in_progress: Vec<u32>,
  done: u32,
  ever_entered: u32,
  requested: u32,
  /// (element, what must be answered for it, in-progress set when processed)
  open: Vec<(u32, Vec<u32>, u32)>,
  /// for each element: number of the last refusal, and of the last `enter`
  time: u32,
  last_enter: [u32; 32],
  last_refused: [u32; 32],
  last_asked: [u32; 32],
  /// elements requested again while in progress and not refused
  clash: u32,
  pending: Option<(u32, u32)>,
  data: u32,
  refusals: usize,
  pushes: usize,
  max_pushes: usize,
  err: Option<String>,
}

impl Mon<'_, '_> {
  fn fail(&mut self, s: String) {
    if self.err.is_none() {
      self.err = Some(s);
    }
  }
  fn mask(&self) -> u32 {
    self.in_progress.iter().fold(0, |m, x| m | 1 << x)
  }
  /// Whether the request of `w` has been answered.
  fn answered(&self, w: u32) -> bool {
    self.done >> w & 1 == 1 || (self.last_enter[w as usize] > self.last_asked[w as usize])
  }
}

struct Vis<'m, 'c, 'd, S> {
  mon: RefCell<&'m mut Mon<'c, 'd>>,
  calls: Cell<u32>,
  _s: std::marker::PhantomData<S>,
}

#[derive(Debug)]
struct Data(u32, u32);

impl<S> Visitor for Vis<'_, '_, '_, S> {
  type Elem = u32;
  type Data = Data;
  type Set = S;

  fn enter(&self, v: u32) -> Option<Data> {
    self.calls.set(self.calls.get() + 1);
    let mut m = self.mon.borrow_mut();
    let m = &mut **m;
    m.time += 1;
    m.last_enter[v as usize] = m.time;
    if m.requested >> v & 1 == 0 {
      m.fail(format!("enter({v}), which nobody requested"));
    }
    if m.pending.is_some() {
      m.fail(format!("enter({v}) although the element agreed to before was not processed"));
    }
    let mut refusals = m.refusals;
    let no = m.c.deviate(&mut refusals, 2) == 1;
    m.refusals = refusals;
    m.c.log(|| format!("enter({v}) -> {}", if no { "refused" } else { "agreed" }));
    if no {
      m.last_refused[v as usize] = m.time;
      return None;
    }
    if m.in_progress.contains(&v) {
      m.clash |= 1 << v;
    } else if m.done >> v & 1 == 0 {
      m.data += 1;
      m.pending = Some((v, m.data));
    }
    Some(Data(v, m.data))
  }

  fn process(&mut self, v: u32, data: Data, work: &mut Work<u32>) {
    let m = self.mon.get_mut();
    m.c.log(|| format!("process({v})"));
    if m.pending.take() != Some((v, data.1)) || data.0 != v {
      m.fail(format!("process({v}) with {data:?}, which is not the element and data just entered"));
    }
    if m.ever_entered >> v & 1 == 1 {
      m.fail(format!("{v} is processed twice"));
    }
    m.ever_entered |= 1 << v;
    let mask = m.mask();
    m.in_progress.push(v);
    let mut asked = vec![];
    let k = m.c.pick(m.max_pushes.min(m.pushes) + 1);
    m.pushes -= k;
    let mut batch = vec![];
    for _ in 0..k {
      let w = m.c.pick(m.n) as u32;
      batch.push(w);
      asked.push(w);
      m.requested |= 1 << w;
      m.time += 1;
      m.last_asked[w as usize] = m.time;
    }
    m.c.log(|| format!("  requests {batch:?}"));
    if k >= 2 {
      work.extend(batch);
    } else {
      batch.into_iter().for_each(|w| work.push(w));
    }
    m.open.push((v, asked, mask));
  }

  fn exit(&mut self, v: u32, level: usize) {
    let m = self.mon.get_mut();
    m.c.log(|| format!("exit({v}, {level})"));
    let Some(i) = m.in_progress.iter().position(|&x| x == v) else {
      m.fail(format!("exit({v}), which is not in progress"));
      return;
    };
    m.in_progress.remove(i);
    if level != m.in_progress.len() {
      let n = m.in_progress.len();
      m.fail(format!("exit({v}) with level {level}, but {n} elements are in progress"));
    }
    let i = m.open.iter().position(|(x, ..)| *x == v).expect("in progress");
    let (_, asked, before) = m.open.remove(i);
    let now = m.mask();
    if now & !before != 0 {
      m.fail(format!("exit({v}) although elements it requested ({:b}) are still in progress", now & !before));
    }
    for w in asked {
      if w != v && !m.answered(w) {
        m.fail(format!("exit({v}) although {w}, which it requested, was not visited"));
      } else if w == v && m.last_enter[w as usize] < m.last_asked[w as usize] {
        m.fail(format!("exit({v}) although its request of itself was ignored"));
      }
    }
    m.done |= 1 << v;
  }
}

fn contents<S: Elems>(s: &S) -> BTreeSet<u32> {
  s.elems()
}

trait Elems {
  fn elems(&self) -> BTreeSet<u32>;
}
impl Elems for BTreeSet<u32> {
  fn elems(&self) -> BTreeSet<u32> {
    self.clone()
  }
}
impl<B> Elems for HashSet<u32, B> {
  fn elems(&self) -> BTreeSet<u32> {
    self.iter().copied().collect()
  }
}

/// A set of one's own, with the worst hash there is.
#[derive(Default)]
struct Zero;
impl std::hash::Hasher for Zero {
  fn finish(&self) -> u64 {
    0
  }
  fn write(&mut self, _: &[u8]) {}
}

fn drive<S: Set<Elem = u32> + Elems>(c: &mut Ch<'_>, initial: &[u32], how: usize, n: usize, refusals: usize, pushes: usize, max_pushes: usize) -> Res {
  let mut mon = Mon {
    c,
    n,
    in_progress: vec![],
    done: 0,
    ever_entered: 0,
    requested: initial.iter().fold(0, |m, x| m | 1 << x),
    open: vec![],
    time: 0,
    last_enter: [0; 32],
    last_refused: [0; 32],
    last_asked: [0; 32],
    clash: 0,
    pending: None,
    data: 0,
    refusals,
    pushes,
    max_pushes,
    err: None,
  };
  mon.c.log(|| format!("initial work: {initial:?}"));
  let work: Work<u32> = match how {
    0 => initial.iter().copied().collect(),
    1 => {
      let mut w = Work::default();
      initial.iter().for_each(|&x| w.push(x));
      w
    }
    _ => {
      let (a, b) = initial.split_at(initial.len() / 2);
      let mut w: Work<u32> = a.iter().copied().collect();
      w.extend(b.iter().copied());
      w
    }
  };
  let mut vis = Vis::<S> { mon: RefCell::new(&mut mon), calls: Cell::new(0), _s: std::marker::PhantomData };
  let ret: Ret<S, u32> = work.run(&mut vis);
  if let Some(e) = mon.err {
    bail!("{e}");
  }
  mon.c.checks(1);
  ensure!(mon.in_progress.is_empty(), "finished with elements in progress: {:?}", mon.in_progress);
  ensure!(mon.pending.is_none(), "an element agreed to was never processed");
  for &x in initial {
    ensure!(mon.done >> x & 1 == 1 || mon.last_enter[x as usize] > 0, "{x} of the initial work was never visited");
  }
  let want: BTreeSet<u32> = (0..32).filter(|i| mon.done >> i & 1 == 1).collect();
  ensure_eq!(contents(&ret.done), want, "finished set");
  for i in 0..n as u32 {
    ensure_eq!(ret.done.contains(&i), want.contains(&i), "finished set contains {i}");
  }
  ensure_eq!(ret.done.is_empty(), want.is_empty(), "finished set is empty");
  match ret.cycle {
    None => ensure!(mon.clash == 0, "an element in progress was requested again, but no cycle was reported"),
    Some(w) => ensure!(mon.clash >> w & 1 == 1, "a cycle was reported at {w}, which was not requested again while in progress"),
  }
  mon.c.outcome(if ret.cycle.is_some() { "cycle" } else { "no cycle" });
  let key = (mon.done, mon.clash, mon.last_refused, mon.last_enter);
  mon.c.state(&key);
  Ok(())
}

fn p19(x: &mut Ctx) {
  type Fx = fast_hash::FxHashSet<u32>;
  type Own = HashSet<u32, BuildHasherDefault<Zero>>;
  struct Sp {
    name: &'static str,
    n: usize,
    init: usize,
    refusals: usize,
    pushes: usize,
    max: usize,
  }
  let sps = [
    Sp { name: "two elements", n: 2, init: 2, refusals: x.by(6, 10), pushes: x.by(6, 8), max: 3 },
    Sp { name: "three elements", n: 3, init: 2, refusals: 3, pushes: x.by(6, 7), max: 3 },
    Sp { name: "three elements, long work", n: 3, init: x.by(5, 6), refusals: 2, pushes: x.by(2, 3), max: 2 },
    Sp { name: "four elements", n: 4, init: 1, refusals: x.by(1, 2), pushes: x.by(6, 7), max: 3 },
    Sp { name: "five elements", n: 5, init: 1, refusals: x.by(1, 1), pushes: x.by(5, 6), max: 2 },
  ];
  for sp in sps {
    x.space(
      sp.name,
      format!(
        "initial work of up to {} of {} elements (repeats too), every element requesting up to {} (in all {}), up to {} refusals at any point; three kinds of set",
        sp.init, sp.n, sp.max, sp.pushes, sp.refusals
      ),
      move |c: &mut Ch<'_>| {
        let len = c.pick(sp.init + 1);
        let initial: Vec<u32> = (0..len).map(|_| c.pick(sp.n) as u32).collect();
        let how = c.pick(3);
        // the kind of set and of work go together: all three of each are explored
        match how {
          0 => drive::<BTreeSet<u32>>(c, &initial, how, sp.n, sp.refusals, sp.pushes, sp.max),
          1 => drive::<Fx>(c, &initial, how, sp.n, sp.refusals, sp.pushes, sp.max),
          _ => drive::<Own>(c, &initial, how, sp.n, sp.refusals, sp.pushes, sp.max),
        }
      },
    );
  }
  let budget = x.by(2, 3);
  x.space(
    "deep nesting",
    format!("a chain of 20 elements, each requesting the next; up to {budget} extra requests or refusals anywhere"),
    move |c: &mut Ch<'_>| {
      struct Deep<'c, 'd> {
        c: RefCell<(&'c mut Ch<'d>, usize)>,
        open: Vec<u32>,
        done: BTreeSet<u32>,
        clash: Cell<bool>,
        refused: BTreeSet<u32>,
        err: Option<String>,
      }
      impl Visitor for Deep<'_, '_> {
        type Elem = u32;
        type Data = ();
        type Set = BTreeSet<u32>;
        fn enter(&self, v: u32) -> Option<()> {
          let mut g = self.c.borrow_mut();
          let (c, b) = &mut *g;
          if self.done.contains(&v) {
            return Some(());
          }
          if c.deviate(b, 2) == 1 {
            return None;
          }
          if self.open.contains(&v) {
            self.clash.set(true);
          }
          Some(())
        }
        fn process(&mut self, v: u32, (): (), work: &mut Work<u32>) {
          if self.open.contains(&v) || self.done.contains(&v) {
            self.err = Some(format!("{v} processed again"));
          }
          self.open.push(v);
          let (c, b) = self.c.get_mut();
          let k = c.deviate(b, 41);
          let extra = if k == 0 { None } else { Some(((k - 1) / 2) as u32) };
          if let Some(e) = extra.filter(|_| k % 2 == 1) {
            work.push(e);
          }
          if v < 19 {
            work.push(v + 1);
          }
          if let Some(e) = extra.filter(|_| k % 2 == 0) {
            work.push(e);
          }
        }
        fn exit(&mut self, v: u32, level: usize) {
          let n = self.open.len();
          self.open.retain(|&x| x != v);
          if n != self.open.len() + 1 || level != self.open.len() {
            self.err = Some(format!("exit({v}, {level}) with {:?} left open", self.open));
          }
          self.done.insert(v);
          self.refused.remove(&v);
        }
      }
      let mut v = Deep {
        c: RefCell::new((c, budget)),
        open: vec![],
        done: BTreeSet::new(),
        clash: Cell::new(false),
        refused: BTreeSet::new(),
        err: None,
      };
      let ret = Work::from_iter([0]).run(&mut v);
      if let Some(e) = v.err {
        bail!("{e}");
      }
      ensure!(v.open.is_empty(), "still open: {:?}", v.open);
      ensure_eq!(ret.done, v.done, "finished set");
      ensure_eq!(ret.cycle.is_some(), v.clash.get(), "whether a cycle was reported");
      let c = v.c.into_inner().0;
      c.state(&v.done);
      c.checks(1);
      Ok(())
    },
  );
  x.space(
    "much work",
    "chains, stars and two-level trees of n elements, n up to 40 and around 2^8, 2^16, 2^17 and 200000: initial work or requests from iterators with and without known length, by push, extend and collect; every third one doubled, or one refused",
    |c: &mut Ch<'_>| {
      let mut sizes: Vec<u32> = (0..=40).collect();
      sizes.extend([255, 256, 257, 65_535, 65_536, 65_537, 131_073, 200_000]);
      let n = *c.of(&sizes);
      let how = *c.of(&[How::Push, How::Exact, How::Unknown, How::Partly]);
      let shape = *c.of(&["initial", "star", "chain", "tree", "chain with leaves"]);
      let twice = c.flag();
      let refuse = *c.of(&[u32::MAX, 0, n / 2, n.saturating_sub(1)]);
      c.log(|| format!("{n} elements, {shape}, given by {how:?}, doubled: {twice}, refused: {refuse}"));
      let mut v = Many { n, how, shape, twice, refuse, open: vec![], done: vec![false; n as usize], err: None, entered: Cell::new(0) };
      let mut work = Work::default();
      if shape == "initial" {
        let all = v.some(0..n);
        work = if matches!(how, How::Push) { v.give(&mut work, all); work } else { how.iter(all).collect() };
      } else if n > 0 {
        v.give(&mut work, vec![0]);
      }
      c.progress();
      let ret: Ret<fast_hash::FxHashSet<u32>, u32> = work.run(&mut v);
      c.progress();
      if let Some(e) = v.err {
        bail!("{e}");
      }
      ensure!(v.open.is_empty(), "finished with {} elements in progress", v.open.len());
      ensure_eq!(ret.cycle, None, "cycle");
      let width = 256.max(n / 256 + 1);
      // what is reached without going through the refused one
      let want = |i: u32| -> bool {
        if i == refuse { return false; }
        match shape {
          "initial" => true,
          "star" => refuse != 0,
          "chain" => refuse > i,
          // leaf i hangs below inner i / 2 * 2
          "chain with leaves" => refuse % 2 == 1 || refuse > i,
          _ => refuse != 0 && (i == 0 || i % width == 1 || (i - 1) / width * width + 1 != refuse),
        }
      };
      for i in 0..n {
        ensure_eq!(v.done[i as usize], want(i), "whether {i} was visited");
        ensure_eq!(ret.done.contains(&i), want(i), "whether {i} is in the finished set");
      }
      ensure_eq!(ret.done.len(), (0..n).filter(|&i| want(i)).count(), "size of the finished set");
      c.checks(u64::from(n));
      c.outcome("no cycle");
      Ok(())
    },
  );
  let d = x.by(6, 7);
  x.space("sets", format!("the sets provided: all sequences of {d} operations (contains, insert, remove, is_empty) on 3 elements, for three kinds of set"), move |c: &mut Ch<'_>| {
    match c.pick(3) {
      0 => set_ops::<BTreeSet<u32>>(c, d),
      1 => set_ops::<Fx>(c, d),
      _ => set_ops::<Own>(c, d),
    }
  });
}

fn set_ops<S: Set<Elem = u32>>(c: &mut Ch<'_>, d: usize) -> Res {
  let mut s = S::default();
  let mut m = 0_u32;
  for _ in 0..d {
    let k = c.pick(7);
    let e = (k % 3) as u32;
    match k {
      6 => ensure_eq!(s.is_empty(), m == 0, "is_empty of {m:b}"),
      0..3 => {
        c.log(|| format!("insert({e})"));
        ensure_eq!(s.insert(e), m >> e & 1 == 0, "insert({e}) into {m:b}");
        m |= 1 << e;
      }
      _ => {
        c.log(|| format!("remove({e})"));
        ensure_eq!(s.remove(&e), m >> e & 1 == 1, "remove({e}) from {m:b}");
        m &= !(1 << e);
      }
    }
    for e in 0..4 {
      ensure_eq!(s.contains(&e), m >> e & 1 == 1, "contains({e}) of {m:b}");
    }
    c.checks(5);
  }
  c.state(&m);
  Ok(())
}

#[derive(Debug, Clone, Copy)]
enum How {
  Push,
  /// an iterator of known length
  Exact,
  /// an iterator of which nothing is known
  Unknown,
  /// an iterator with a lower bound that is half of the truth
  Partly,
}
impl How {
  fn iter(self, v: Vec<u32>) -> Box<dyn Iterator<Item = u32>> {
    match self {
      How::Push | How::Exact => Box::new(v.into_iter()),
      How::Unknown => {
        let mut it = v.into_iter();
        Box::new(std::iter::from_fn(move || it.next()))
      }
      How::Partly => {
        let half = v.len() / 2;
        let rest = v[half..].to_vec();
        Box::new(v.into_iter().take(half).chain(rest.into_iter().filter(|_| true)))
      }
    }
  }
}

/// A visitor of many elements; everything it checks takes constant time.
struct Many {
  n: u32,
  how: How,
  shape: &'static str,
  twice: bool,
  refuse: u32,
  open: Vec<u32>,
  done: Vec<bool>,
  err: Option<String>,
  entered: Cell<u32>,
}
impl Many {
  fn some(&self, r: impl IntoIterator<Item = u32>) -> Vec<u32> {
    r.into_iter().flat_map(|i| std::iter::repeat_n(i, if self.twice && i % 3 == 0 { 2 } else { 1 })).collect()
  }
  fn give(&self, work: &mut Work<u32>, v: Vec<u32>) {
    match self.how {
      How::Push => v.into_iter().for_each(|x| work.push(x)),
      h => work.extend(h.iter(v)),
    }
  }
}
impl Visitor for Many {
  type Elem = u32;
  type Data = u32;
  type Set = fast_hash::FxHashSet<u32>;
  fn enter(&self, v: u32) -> Option<u32> {
    self.entered.set(self.entered.get() + 1);
    if v == self.refuse { None } else { Some(self.entered.get()) }
  }
  fn process(&mut self, v: u32, data: u32, work: &mut Work<u32>) {
    if data != self.entered.get() {
      self.err = Some(format!("process({v}) with the data of another element"));
    }
    self.open.push(v);
    let n = self.n;
    let width = 256.max(n / 256 + 1);
    let next = match self.shape {
      "initial" => vec![],
      "star" if v == 0 => self.some(1..n),
      "chain" if v + 1 < n => self.some([v + 1]),
      "chain with leaves" if v % 2 == 0 => self.some((v + 1..n).take(2)),
      "tree" if v == 0 => self.some((1..n).step_by(width as usize)),
      "tree" if v % width == 1 => self.some((v + 1..n).take(width as usize - 1)),
      _ => vec![],
    };
    self.give(work, next);
  }
  fn exit(&mut self, v: u32, level: usize) {
    // nothing is in progress that was not requested by what is in progress below it
    if self.open.pop() != Some(v) {
      self.err = Some(format!("exit({v}) before something it requested"));
    }
    if level != self.open.len() {
      self.err = Some(format!("exit({v}) with level {level}, but {} elements are in progress", self.open.len()));
    }
    if std::mem::replace(&mut self.done[v as usize], true) {
      self.err = Some(format!("{v} is finished twice"));
    }
  }
}
