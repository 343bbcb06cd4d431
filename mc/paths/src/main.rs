// P20: clean paths. P21: the path store. P22: the file systems.

use mcx::{Ch, Ctx, Prop, Res, bail, catch, ensure, ensure_eq};
use paths::{CleanPath, CleanPathBuf, FileSystem, MemoryFileSystem, PathId, PathMap, PathSet, RealFileSystem, Store};
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::hash::{Hash, Hasher};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fn main() {
  mcx::main(&[Prop { id: "P20", run: p20 }, Prop { id: "P21", run: p21 }, Prop { id: "P22", run: p22 }]);
}

// ---------------------------------------------------------------------------------------------
// P20

/// The reference: a clean path is its list of components.
type Comps = Vec<Vec<u8>>;

fn clean_onto(cs: &mut Comps, text: &[u8]) {
  if text.first() == Some(&b'/') {
    cs.clear();
  }
  for part in text.split(|&b| b == b'/') {
    match part {
      b"" | b"." => {}
      b".." => drop(cs.pop()),
      _ => cs.push(part.to_vec()),
    }
  }
}

fn render(cs: &Comps) -> Vec<u8> {
  let mut ret = vec![];
  for c in cs {
    ret.push(b'/');
    ret.extend(c);
  }
  if ret.is_empty() {
    ret.push(b'/');
  }
  ret
}

fn bytes(p: &Path) -> &[u8] {
  p.as_os_str().as_bytes()
}

fn path(b: &[u8]) -> &Path {
  Path::new(OsStr::from_bytes(b))
}

fn lossy(b: &[u8]) -> String {
  if b.len() > 200 { format!("{}... ({} bytes)", String::from_utf8_lossy(&b[..200]), b.len()) } else { String::from_utf8_lossy(b).into_owned() }
}

fn hash<T: Hash + ?Sized>(t: &T) -> (u64, u64) {
  let mut a = DefaultHasher::new();
  t.hash(&mut a);
  (a.finish(), mcx::fx(t))
}

fn same(got: &CleanPathBuf, want: &Comps, what: &dyn Fn() -> String) -> Res {
  let w = render(want);
  ensure!(bytes(got.as_path()) == w, "{}: got {}, the reference says {}", what(), lossy(bytes(got.as_path())), lossy(&w));
  let cp = got.as_clean_path();
  ensure!(bytes(cp.as_path()) == w, "{}: the borrowed form differs", what());
  Ok(())
}

fn observe(c: &mut Ch<'_>, got: &CleanPathBuf, want: &Comps, what: &dyn Fn() -> String) -> Res {
  c.checks(1);
  c.state(want);
  same(got, want, what)?;
  let cp: &CleanPath = got.as_clean_path();
  let owned: CleanPathBuf = cp.to_owned();
  same(&owned, want, &|| format!("{}, owned again", what()))?;
  ensure!(owned == *got && owned.as_clean_path() == cp, "{}: owned form unequal", what());
  let b1: &CleanPath = got.borrow();
  let b2: &Path = got.borrow();
  ensure!(b1 == cp && bytes(b2) == render(want), "{}: borrowed forms differ", what());
  ensure!(hash(got) == hash(cp) && hash(got) == hash(b2), "{}: hashes of the owned and borrowed forms differ", what());
  // cleaning again changes nothing
  let again = CleanPathBuf::new(got.as_path());
  ensure!(again.as_ref() == Some(got), "{}: cleaning is not idempotent", what());
  same(&again.expect("just compared"), want, &|| format!("{}, cleaned again", what()))?;
  ensure!(bytes(&got.clone().into_path_buf()) == render(want), "{}: into_path_buf", what());
  // parents up to the root
  let mut cs = want.clone();
  let mut p = cp;
  loop {
    match p.parent() {
      None => {
        ensure!(cs.is_empty(), "{}: no parent above {}", what(), lossy(&render(&cs)));
        break;
      }
      Some(q) => {
        ensure!(!cs.is_empty(), "{}: the root has a parent", what());
        cs.pop();
        ensure!(bytes(q.as_path()) == render(&cs), "{}: parent is {}", what(), lossy(bytes(q.as_path())));
        p = q;
      }
    }
  }
  Ok(())
}

fn p20(x: &mut Ctx) {
  let len = x.by(10, 12);
  x.space("all short paths", format!("every byte string of up to {len} over / . a b"), move |c: &mut Ch<'_>| {
    let n = c.pick(len + 1);
    let s: Vec<u8> = (0..n).map(|_| *c.of(b"/.ab")).collect();
    new_one(c, &s)
  });
  let len = x.by(6, 7);
  x.space(
    "all short paths, more bytes",
    format!("every byte string of up to {len} over / . a space \\ ~ \\xff c:"),
    move |c: &mut Ch<'_>| {
      let n = c.pick(len + 1);
      let s: Vec<u8> = (0..n).flat_map(|_| c.of(&[&b"/"[..], b".", b"a", b" ", b"\\", b"~", b"\xff", b"c:"]).to_vec()).collect();
      new_one(c, &s)
    },
  );
  const PARTS: &[&[u8]] = &[b"a", b"..", b".", b"", b"...", b".a", b"a..", b"\xc3\xa9"];
  let len = x.by(7, 8);
  x.space("component lists", format!("every list of up to {len} of the parts a .. . (empty) ... .a a.. \u{e9}"), move |c: &mut Ch<'_>| {
    let n = c.pick(len + 1);
    let lead = *c.of(&[&b"/"[..], b"//", b"///"]);
    let parts: Vec<&[u8]> = (0..n).map(|_| *c.of(PARTS)).collect();
    let s = [lead, &parts.join(&b'/')].concat();
    new_one(c, &s)
  });
  const PUSH: &[&[u8]] = &[
    b"", b"/", b".", b"..", b"a", b"a/", b"a/b", b"a//b/./", b"../..", b"../a", b"./a/..", b"/a", b"/a/../..", b"a/../../b", b"//x", b"...",
  ];
  let depth = x.by(5, 6);
  x.space(
    "pushes and joins",
    format!("up to {depth} pushes, joins or steps to the parent of each of 16 paths, from 3 starts; every intermediate path observed"),
    move |c: &mut Ch<'_>| {
      let start = *c.of(&[&b"/"[..], b"/a/b", b"/a/../x/./y/"]);
      let mut real = CleanPathBuf::new(path(start)).ok_or("absolute path refused")?;
      let mut model = vec![];
      clean_onto(&mut model, start);
      let n = c.pick(depth + 1);
      let mut hist = lossy(start);
      for _ in 0..n {
        let k = c.pick(PUSH.len() + 1);
        if k == PUSH.len() {
          let p = real.as_clean_path().parent().map(ToOwned::to_owned);
          ensure_eq!(p.is_some(), model.pop().is_some(), "parent of {hist}");
          if let Some(p) = p {
            real = p;
          }
          hist += " parent";
        } else {
          clean_onto(&mut model, PUSH[k]);
          let joined = real.as_clean_path().join(path(PUSH[k]));
          let before = real.clone();
          hist += &format!(" push {:?}", lossy(PUSH[k]));
          if k % 2 == 0 {
            real.push(path(PUSH[k]));
          } else {
            real.push(PathBuf::from(path(PUSH[k])));
          }
          ensure!(bytes(real.as_path()) == bytes(joined.as_path()), "{hist}: join and push differ");
          // the clean path of the concatenation
          if PUSH[k].first() != Some(&b'/') {
            let cat = [bytes(before.as_path()), PUSH[k]].join(&b'/');
            ensure!(CleanPathBuf::new(path(&cat)).as_ref() == Some(&real), "{hist}: is not the clean concatenation");
          }
        }
        c.log(|| hist.clone());
      }
      observe(c, &real, &model, &|| hist.clone())
    },
  );
  let len = x.by(5, 6);
  x.space(
    "any push",
    format!("every byte string of up to {len} over / .. . a c: and b pushed onto and joined to each of 6 paths, and again onto the result"),
    move |c: &mut Ch<'_>| {
      let start = *c.of(&[&b"/"[..], b"/a", b"/a/b", b"/b/a/..c", b"/x/y/z/w/v", b"/a/a/a"]);
      let n = c.pick(len + 1);
      let s: Vec<u8> = (0..n).flat_map(|_| c.of(&[&b"/"[..], b"..", b".", b"a", b"b/", b"c:"]).to_vec()).collect();
      let mut real = CleanPathBuf::new(path(start)).ok_or("absolute path refused")?;
      let mut model = vec![];
      clean_onto(&mut model, start);
      for times in 0..2 {
        let what = || format!("{} push {:?} ({times} times before)", lossy(start), lossy(&s));
        let joined = real.as_clean_path().join(path(&s));
        clean_onto(&mut model, &s);
        real.push(path(&s));
        same(&joined, &model, &|| format!("{}, joined", what()))?;
        observe(c, &real, &model, &what)?;
      }
      Ok(())
    },
  );
  x.space("comparison", "all pairs of clean paths of up to 3 of the parts a, ab, b, a.b, a-b", |c: &mut Ch<'_>| {
    const P: &[&[u8]] = &[b"a", b"ab", b"b", b"a.b", b"a-b"];
    let mut one = || {
      let n = c.pick(4);
      let cs: Comps = (0..n).map(|_| c.of(P).to_vec()).collect();
      cs
    };
    let (a, b) = (one(), one());
    let (pa, pb) = (CleanPathBuf::new(path(&render(&a))).ok_or("refused")?, CleanPathBuf::new(path(&render(&b))).ok_or("refused")?);
    c.checks(1);
    c.state(&(&a, &b));
    let what = || format!("{pa:?} and {pb:?}");
    ensure_eq!(pa == pb, a == b, "{}: equality", what());
    ensure_eq!(pa.as_clean_path() == pb.as_clean_path(), a == b, "{}: equality of the borrowed forms", what());
    let o = pa.cmp(&pb);
    ensure_eq!(o, a.cmp(&b), "{}: order", what());
    ensure_eq!(pa.as_clean_path().cmp(pb.as_clean_path()), o, "{}: order of the borrowed forms", what());
    ensure_eq!(Borrow::<Path>::borrow(&pa).cmp(Borrow::<Path>::borrow(&pb)), o, "{}: order of the plain forms", what());
    ensure_eq!(pa.partial_cmp(&pb), Some(o), "{}: partial order", what());
    ensure_eq!(pa.as_clean_path().partial_cmp(pb.as_clean_path()), Some(o), "{}: partial order of the borrowed forms", what());
    if a == b {
      ensure_eq!(hash(&pa), hash(&pb), "{}: hashes", what());
    }
    // searching owned keys by borrowed ones
    let m = BTreeMap::from([(pa.clone(), 1)]);
    ensure_eq!(m.contains_key(pb.as_clean_path()), a == b, "{}: ordered map lookup", what());
    ensure_eq!(m.contains_key(pb.as_path()), a == b, "{}: ordered map lookup by plain path", what());
    let m = fast_hash::map([(pa.clone(), 1)]);
    ensure_eq!(m.contains_key(pb.as_clean_path()), a == b, "{}: hash map lookup", what());
    ensure_eq!(m.contains_key(pb.as_path()), a == b, "{}: hash map lookup by plain path", what());
    Ok(())
  });
  x.space("long paths", "up to 3000 components or bytes per component, with 0-3 trailing .. or too many of them", |c: &mut Ch<'_>| {
    let n = *c.of(&[1, 17, 300, 3000]);
    let size = *c.of(&[1, 255, 256, 3000]);
    let ups = *c.of(&[0, 1, 3, 3100]);
    let sep = *c.of(&[&b"/"[..], b"//", b"/./"]);
    let count = if size > 1 { n.min(40) } else { n };
    let mut s = vec![];
    for i in 0..count {
      s.extend(sep);
      s.extend(vec![b'a' + (i % 26) as u8; size]);
    }
    for _ in 0..ups {
      s.extend(sep);
      s.extend(b"..");
    }
    let mut cs = vec![];
    clean_onto(&mut cs, &s);
    let got = CleanPathBuf::new(path(&s)).ok_or("absolute path refused")?;
    c.state(&cs);
    c.checks(1);
    same(&got, &cs, &|| format!("{count} components of {size} bytes, {ups} ups"))
  });
}

fn new_one(c: &mut Ch<'_>, s: &[u8]) -> Res {
  c.log(|| format!("path: {:?}", lossy(s)));
  let what = || format!("path {:?}", lossy(s));
  let got = CleanPathBuf::new(path(s));
  let absolute = s.first() == Some(&b'/');
  ensure_eq!(got.is_some(), absolute, "{}: whether it is accepted", what());
  c.outcome(if absolute { "absolute" } else { "relative" });
  if let Ok(t) = std::str::from_utf8(s) {
    ensure!(CleanPathBuf::new(t) == got && CleanPathBuf::new(t.to_owned()) == got && CleanPathBuf::new(OsStr::new(t)) == got, "{}: depends on the argument's type", what());
  }
  let Some(got) = got else {
    // still something that can be joined
    let mut cs = vec![b"q".to_vec()];
    clean_onto(&mut cs, s);
    let root = CleanPathBuf::new("/q").ok_or("/q refused")?;
    return same(&root.as_clean_path().join(path(s)), &cs, &|| format!("/q joined with {:?}", lossy(s)));
  };
  let mut cs = vec![];
  clean_onto(&mut cs, s);
  observe(c, &got, &cs, &what)
}

// ---------------------------------------------------------------------------------------------
// P21

fn mk(n: usize) -> CleanPathBuf {
  let s = match n {
    0 => "/".to_owned(),
    1 => "/a".to_owned(),
    2 => "/a/b".to_owned(),
    3 => "/b".to_owned(),
    n => format!("/d{}/f{n}", n % 7),
  };
  CleanPathBuf::new(s).expect("absolute")
}

#[derive(Default)]
struct St {
  real: Store,
  ids: BTreeMap<usize, PathId>,
}

impl St {
  fn get(&mut self, n: usize, owned: bool) -> Res {
    let id = if owned { self.real.get_id_owned(mk(n)) } else { self.real.get_id(mk(n).as_clean_path()) };
    match self.ids.get(&n) {
      Some(&old) => ensure_eq!(id, old, "identifier of {:?}, asked again", mk(n)),
      None => {
        if let Some((m, _)) = self.ids.iter().find(|&(_, &i)| i == id) {
          bail!("{:?} and {:?} have the same identifier {id:?}", mk(n), mk(*m));
        }
        self.ids.insert(n, id);
      }
    }
    Ok(())
  }

  fn observe(&self) -> Res {
    for (&n, &id) in &self.ids {
      ensure!(bytes(self.real.get_path(id).as_path()) == bytes(mk(n).as_path()), "{id:?} of {:?} gives {:?}", mk(n), self.real.get_path(id));
    }
    let ps: PathSet = self.ids.values().copied().collect();
    ensure_eq!(ps.len(), self.ids.len(), "size of the set of identifiers");
    let pm: PathMap<usize> = self.ids.iter().map(|(&n, &id)| (id, n)).collect();
    for (&n, id) in &self.ids {
      ensure_eq!(pm.get(id), Some(&n), "map by identifier");
      let w = id.wrap(n);
      ensure!(w.path == *id && w.val == n, "wrap");
    }
    Ok(())
  }

  fn combine(&mut self, other: St) -> Res {
    let mut calls: Vec<(PathId, PathId)> = vec![];
    self.real.combine(other.real, &mut |a, b| calls.push((a, b)));
    let back: BTreeMap<PathId, usize> = other.ids.iter().map(|(&n, &id)| (id, n)).collect();
    let mut seen = BTreeSet::new();
    for (a, b) in calls {
      let Some(&n) = back.get(&a) else { bail!("combine reports {a:?}, which the other store never gave out") };
      ensure!(seen.insert(n), "combine reports {:?} twice", mk(n));
      ensure!(bytes(self.real.get_path(b).as_path()) == bytes(mk(n).as_path()), "combine reports {b:?} for {:?}, but that is {:?}", mk(n), self.real.get_path(b));
      match self.ids.get(&n) {
        Some(&old) => ensure_eq!(b, old, "combine gives {:?}, already present, an identifier", mk(n)),
        None => {
          if let Some((m, _)) = self.ids.iter().find(|&(_, &i)| i == b) {
            bail!("combine: {:?} and {:?} have the same identifier {b:?}", mk(n), mk(*m));
          }
          self.ids.insert(n, b);
        }
      }
    }
    ensure_eq!(seen.len(), other.ids.len(), "number of paths combine reports");
    Ok(())
  }
}

fn p21(x: &mut Ctx) {
  for (paths, depth) in [(4, x.by(5, 6)), (2, x.by(6, 7))] {
  x.space(
    &format!("two stores, {paths} paths"),
    format!("up to {depth} operations: ask either store for any of {paths} paths, borrowed or owned; combine one into the other and begin anew; everything observed after every step"),
    move |c: &mut Ch<'_>| {
      let mut ss = [St::default(), St { real: Store::new(), ids: BTreeMap::new() }];
      for _ in 0..depth {
        let k = c.pick(1 + 4 * paths + 2);
        match k {
          0 => break,
          k if k <= 4 * paths => {
            let k = k - 1;
            c.log(|| format!("store {}: ask for {:?}, owned {}", k / (2 * paths), mk(k % (2 * paths) / 2), k % 2 == 1));
            ss[k / (2 * paths)].get(k % (2 * paths) / 2, k % 2 == 1)?;
          }
          _ => {
            let to = k - 1 - 4 * paths;
            c.log(|| format!("combine store {} into {to}", 1 - to));
            let other = std::mem::take(&mut ss[1 - to]);
            ss[to].combine(other)?;
          }
        }
        if c.fresh() {
          ss[0].observe()?;
          ss[1].observe()?;
          c.checks(2);
          c.state(&(ss[0].ids.keys().collect::<Vec<_>>(), ss[1].ids.keys().collect::<Vec<_>>(), &ss[0].ids, &ss[1].ids));
        }
      }
      Ok(())
    },
  );
  }
  let sizes: &'static [usize] = x.by(&[10, 300, 5000], &[10, 300, 5000, 20_000]);
  x.space("large stores", "stores of 10-20000 paths combined with overlaps of none, some or all of them, in both orders", move |c: &mut Ch<'_>| {
    let n = *c.of(sizes);
    let m = *c.of(sizes);
    let at = *c.of(&[0, n / 2, n - 1, n]);
    let rev = c.flag();
    let owned = c.flag();
    let mut a = Big::new();
    let mut b = Big::new();
    for i in 0..n {
      a.get(i, owned)?;
    }
    for i in 0..m {
      b.get(at + if rev { m - 1 - i } else { i }, !owned)?;
    }
    c.progress();
    let total = (at + m).max(n);
    a.combine(b)?;
    a.observe()?;
    ensure_eq!(a.n, total, "paths in the combined store");
    for i in (0..total).step_by(total / 50 + 1) {
      a.get(i, owned)?;
    }
    c.checks(1);
    c.outcome("combined");
    c.state(&(n, m, at, rev));
    Ok(())
  });
  x.space(
    "past 16 bits",
    "70000 paths in one store, borrowed and owned, then asked for again; or combined into a store of none, some or all of them, or having such a store combined into it",
    |c: &mut Ch<'_>| {
      let owned = c.flag();
      let what = c.pick(5);
      let mut a = Big::new();
      for i in 0..70_000 {
        a.get(i, owned)?;
      }
      c.progress();
      if what > 0 {
        let mut b = Big::new();
        match what {
          1 => {}
          2 | 4 => {
            for i in [69_999, 65_536, 65_535, 0, 70_001] {
              b.get(i, owned)?;
            }
          }
          _ => {
            for i in (0..70_000).rev() {
              b.get(i, !owned)?;
            }
          }
        }
        if what == 4 {
          a.combine(b)?;
        } else {
          b.combine(a)?;
          a = b;
        }
        c.progress();
      }
      for i in (0..70_000).step_by(7) {
        a.get(i, !owned)?;
      }
      a.observe()?;
      let ps: PathSet = a.ids.iter().flatten().copied().collect();
      ensure_eq!(ps.len(), a.n, "size of the set of identifiers");
      let pm: PathMap<usize> = a.ids.iter().enumerate().filter_map(|(n, id)| Some(((*id)?, n))).collect();
      for (n, id) in a.ids.iter().enumerate() {
        if let Some(id) = id {
          ensure_eq!(pm.get(id), Some(&n), "map by identifier");
        }
      }
      c.checks(1);
      Ok(())
    },
  );
}

/// As [`St`], with hash maps in place of searches.
struct Big {
  real: Store,
  ids: Vec<Option<PathId>>,
  back: std::collections::HashMap<PathId, usize>,
  n: usize,
}

impl Big {
  fn new() -> Self {
    Big { real: Store::new(), ids: vec![None; 80_000], back: Default::default(), n: 0 }
  }
  fn learn(&mut self, n: usize, id: PathId) -> Res {
    match self.ids[n] {
      Some(old) => ensure_eq!(id, old, "identifier of {:?}, asked again", mk(n)),
      None => {
        if let Some(m) = self.back.insert(id, n) {
          bail!("{:?} and {:?} have the same identifier {id:?}", mk(n), mk(m));
        }
        self.ids[n] = Some(id);
        self.n += 1;
      }
    }
    Ok(())
  }
  fn get(&mut self, n: usize, owned: bool) -> Res {
    let id = if owned { self.real.get_id_owned(mk(n)) } else { self.real.get_id(mk(n).as_clean_path()) };
    self.learn(n, id)
  }
  fn observe(&self) -> Res {
    for (&id, &n) in &self.back {
      ensure!(bytes(self.real.get_path(id).as_path()) == bytes(mk(n).as_path()), "{id:?} of {:?} gives {:?}", mk(n), self.real.get_path(id));
    }
    Ok(())
  }
  fn combine(&mut self, other: Big) -> Res {
    let mut calls = vec![];
    self.real.combine(other.real, &mut |a, b| calls.push((a, b)));
    ensure_eq!(calls.len(), other.n, "number of paths combine reports");
    let mut seen = BTreeSet::new();
    for (a, b) in calls {
      let Some(&n) = other.back.get(&a) else { bail!("combine reports {a:?}, which the other store never gave out") };
      ensure!(seen.insert(n), "combine reports {:?} twice", mk(n));
      self.learn(n, b)?;
    }
    Ok(())
  }
}

// ---------------------------------------------------------------------------------------------
// P22

static COUNTER: AtomicU64 = AtomicU64::new(0);

/// A scratch directory of this execution, removed at its end.
struct Scratch(PathBuf);

impl Scratch {
  fn new() -> Self {
    let base = std::fs::canonicalize(std::env::temp_dir()).unwrap_or_else(|e| mcx::machinery(&format!("temp dir: {e}")));
    let dir = base.join(format!("mcx-p22-{}-{}", std::process::id(), COUNTER.fetch_add(1, Relaxed)));
    if let Err(e) = std::fs::create_dir(&dir) {
      mcx::machinery(&format!("creating {}: {e}", dir.display()));
    }
    Scratch(dir)
  }
}
impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

fn io<T>(r: std::io::Result<T>) -> T {
  r.unwrap_or_else(|e| mcx::machinery(&format!("preparing files: {e}")))
}

fn rel_paths(names: &[&str], depth: usize) -> Vec<String> {
  let mut level = vec![String::new()];
  let mut all = vec![];
  for _ in 0..depth {
    level = level.iter().flat_map(|p| names.iter().map(move |n| if p.is_empty() { (*n).to_owned() } else { format!("{p}/{n}") })).collect();
    all.extend(level.iter().cloned());
  }
  all
}

fn conflict(a: &str, b: &str) -> bool {
  Path::new(a).starts_with(b) || Path::new(b).starts_with(a)
}

/// Lists, then descends into what is not a file.
fn walk(fs: &dyn FileSystem, dir: &Path, what: &str) -> Result<BTreeSet<PathBuf>, String> {
  let mut todo = vec![dir.to_owned()];
  let mut files = BTreeSet::new();
  let mut steps = 0;
  while let Some(d) = todo.pop() {
    steps += 1;
    ensure_res(steps < 10_000, || format!("{what}: walking does not end"))?;
    let entries = fs.read_dir(&d).map_err(|e| format!("{what}: listing {} failed: {e}", d.display()))?;
    for e in entries {
      ensure_res(e != d && e.starts_with(&d), || format!("{what}: listing {} gives {}", d.display(), e.display()))?;
      if fs.is_file(&e) {
        files.insert(e);
      } else {
        todo.push(e);
      }
    }
  }
  Ok(files)
}

/// Makes a named pipe.
fn nix_fifo(p: &Path) -> std::io::Result<()> {
  let st = std::process::Command::new("mkfifo").arg(p).status()?;
  if st.success() { Ok(()) } else { Err(std::io::Error::other("mkfifo failed")) }
}

fn odd_names() -> Vec<Vec<u8>> {
  let mut v: Vec<Vec<u8>> = (1..=255).filter(|b| !b"/.".contains(b)).map(|b| vec![b]).collect();
  let long = "n".repeat(250);
  let more = [
    ".git", ".DS_Store", ".gitignore", ".hidden", "...", "..a", "a..", "a.", ".a.", "~", "a~", "#a#", "a.swp", "a.bak", "a.tmp", "a.lock",
    "target", "node_modules", "Thumbs.db", "desktop.ini", "CON", "nul", "con.txt", "C:", "C:\\a", "a\\b", "a:b", "a b", " a", "a ", "a\tb", "a\nb",
    "-", "--", "-rf", "*", "a*", "?", "[a]", "{a,b}", "$HOME", "${a}", "%a%", "`a`", "a'b", "a\"b", "a;b", "a|b", "a&b", "file:", "http:",
    "e\u{301}", "\u{e9}", "\u{fb01}", "\u{feff}a", "\u{200b}", "\u{202e}a", "\u{1f600}", "\u{fffd}", "SS", "\u{df}", "\u{130}", "0", "00", "1e3", "lost+found", &long,
  ];
  v.extend(more.map(|s| s.as_bytes().to_vec()));
  v.extend([&b"a\xff"[..], b"\xffa", b"\xc3", b"a\xc3b", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xc0\xaf"].map(<[u8]>::to_vec));
  v
}

fn ensure_res(b: bool, f: impl FnOnce() -> String) -> Res {
  if b { Ok(()) } else { Err(f()) }
}

const TEXTS: &[&str] = &["", "plain\n", "\u{feff}caf\u{e9}\r\n\u{1f600}\n\n", "\0\u{7f}\t last line"];

/// Compares both file systems, and both with the model, at all given paths.
fn compare(c: &mut Ch<'_>, root: &Path, mem: &MemoryFileSystem, model: &BTreeMap<String, String>, all: &[String]) -> Res {
  let real = RealFileSystem::default();
  let fss: [(&str, &dyn FileSystem); 2] = [("memory", mem), ("real", &real)];
  let mut dirs: BTreeSet<String> = BTreeSet::new();
  dirs.insert(String::new());
  for f in model.keys() {
    let mut d = Path::new(f);
    while let Some(p) = d.parent() {
      dirs.insert(p.to_str().expect("utf-8").to_owned());
      d = p;
    }
  }
  for r in all.iter().chain([&String::new()]) {
    let p = if r.is_empty() { root.to_owned() } else { root.join(r) };
    let cp = CleanPathBuf::new(&p).ok_or("absolute path refused")?;
    let want = model.get(r);
    for (name, fs) in fss {
      let what = || format!("files {model:?}, {name} file system, path {r:?}");
      ensure_eq!(fs.is_file(cp.as_path()), want.is_some(), "{}: is a file", what());
      match (fs.read_to_string(cp.as_path()), want) {
        (Ok(s), Some(w)) => ensure_eq!(&s, w, "{}: text", what()),
        (Err(e), Some(_)) => bail!("{}: reading failed: {e}", what()),
        (Ok(s), None) => bail!("{}: not a file, but reading gave {s:?}", what()),
        (Err(_), None) => {}
      }
      match (fs.read_to_bytes(cp.as_path()), want) {
        (Ok(s), Some(w)) => ensure_eq!(s, w.as_bytes(), "{}: bytes", what()),
        (Err(e), Some(_)) => bail!("{}: reading bytes failed: {e}", what()),
        (Ok(s), None) => bail!("{}: not a file, but reading gave {s:?}", what()),
        (Err(_), None) => {}
      }
      if dirs.contains(r) {
        let want: BTreeSet<PathBuf> =
          model.keys().filter(|f| r.is_empty() || (Path::new(f).starts_with(r) && *f != r)).map(|f| root.join(f)).collect();
        ensure_eq!(walk(fs, cp.as_path(), &what())?, want, "{}: files found by walking", what());
      }
    }
    c.checks(1);
  }
  c.state(model);
  Ok(())
}

fn p22(x: &mut Ctx) {
  const NAMES: &[&str] = &["a", "ab", "a.b"];
  let all = rel_paths(NAMES, 3);
  let max = x.by(3, 4);
  x.space(
    "sets of files",
    format!("every set of up to {max} files among 39 paths of depth 1-3 over the names a, ab, a.b; contents: empty, plain, multi-byte, control"),
    {
      let all = all.clone();
      move |c: &mut Ch<'_>| {
        let s = Scratch::new();
        let mut model: BTreeMap<String, String> = BTreeMap::new();
        let mut from = 0;
        for i in 0..max {
          let k = from + c.pick(all.len() + 1 - from);
          if k == all.len() {
            break;
          }
          from = k + 1;
          if model.keys().any(|f| conflict(f, &all[k])) {
            return Ok(());
          }
          model.insert(all[k].clone(), TEXTS[(k + i) % TEXTS.len()].to_owned());
        }
        let mut inner = BTreeMap::new();
        for (f, t) in &model {
          let p = s.0.join(f);
          io(std::fs::create_dir_all(p.parent().expect("has one")));
          io(std::fs::write(&p, t));
          inner.insert(CleanPathBuf::new(&p).ok_or("refused")?, t.clone());
        }
        c.log(|| format!("files: {model:?}"));
        compare(c, &s.0, &MemoryFileSystem::new(inner), &model, &all)
      }
    },
  );
  let depth = x.by(4, 5);
  x.space(
    "histories",
    format!("up to {depth} writes, overwrites and removals at 5 paths, compared after every step"),
    move |c: &mut Ch<'_>| {
      let all: Vec<String> = ["a", "b/a", "b/ab", "b/c/a", "bb"].map(str::to_owned).to_vec();
      let s = Scratch::new();
      let mut model: BTreeMap<String, String> = BTreeMap::new();
      let mut mem = MemoryFileSystem::default();
      for i in 0..depth {
        let k = c.pick(11);
        if k == 10 {
          break;
        }
        let f = &all[k / 2];
        let p = s.0.join(f);
        let cp = CleanPathBuf::new(&p).ok_or("refused")?;
        if k % 2 == 0 {
          let t = TEXTS[(k + i) % TEXTS.len()];
          c.log(|| format!("write {f}: {t:?}"));
          io(std::fs::create_dir_all(p.parent().expect("has one")));
          io(std::fs::write(&p, t));
          mem.inner.insert(cp, t.to_owned());
          model.insert(f.clone(), t.to_owned());
        } else {
          c.log(|| format!("remove {f}"));
          if model.remove(f).is_some() {
            io(std::fs::remove_file(&p));
          }
          mem.inner.remove(&cp);
        }
        if c.fresh() {
          compare(c, &s.0, &mem, &model, &all)?;
        }
      }
      Ok(())
    },
  );
  x.space("contents of files", "every file of up to 4 of the bytes a, LF, CR, NUL, \\xc3, \\xa9, \\xff and large ones: bytes unchanged, text exactly when it is text", |c: &mut Ch<'_>| {
    const B: &[u8] = b"a\n\r\0\xc3\xa9\xff";
    let big = c.pick(4);
    let data: Vec<u8> = if big > 0 {
      let n = [4096, 65_536, 1_000_003][big - 1];
      let bad = c.flag();
      let mut d: Vec<u8> = "\u{e9}".repeat(n).into_bytes();
      if bad {
        d.pop();
      }
      d
    } else {
      let n = c.pick(5);
      (0..n).map(|_| *c.of(B)).collect()
    };
    let s = Scratch::new();
    let p = s.0.join("f");
    io(std::fs::write(&p, &data));
    let real = RealFileSystem::default();
    let got = real.read_to_bytes(&p).map_err(|e| format!("reading bytes {:?} failed: {e}", lossy(&data)))?;
    ensure!(got == data, "bytes {:?} were read as {:?}", lossy(&data), lossy(&got));
    match (real.read_to_string(&p), std::str::from_utf8(&data)) {
      (Ok(g), Ok(w)) => ensure!(g == w, "text {:?} was read as {:?}", lossy(&data), lossy(g.as_bytes())),
      (Err(e), Ok(_)) => bail!("reading text {:?} failed: {e}", lossy(&data)),
      (Ok(g), Err(_)) => bail!("{data:?} is no text, but was read as {:?}", lossy(g.as_bytes())),
      (Err(_), Err(_)) => c.outcome("not text"),
    }
    if let Ok(t) = std::str::from_utf8(&data) {
      let cp = CleanPathBuf::new(&p).ok_or("refused")?;
      let mem = MemoryFileSystem::new(BTreeMap::from([(cp, t.to_owned())]));
      ensure!(mem.read_to_string(&p).ok().as_deref() == Some(t), "memory: text of {:?}", lossy(&data));
      ensure!(mem.read_to_bytes(&p).ok() == Some(data.clone()), "memory: bytes of {:?}", lossy(&data));
    }
    c.state(&data);
    c.checks(2);
    Ok(())
  });
  x.space("failures and odd files", "missing paths, directories, links to files, directories and nowhere, paths through a file, NUL in a path", |c: &mut Ch<'_>| {
    let s = Scratch::new();
    let real = RealFileSystem::default();
    let d = &s.0;
    io(std::fs::create_dir_all(d.join("dir/sub")));
    io(std::fs::write(d.join("dir/sub/f"), "x"));
    io(std::fs::write(d.join("file"), "text"));
    io(std::os::unix::fs::symlink(d.join("file"), d.join("to-file")));
    io(std::os::unix::fs::symlink(d.join("dir"), d.join("to-dir")));
    io(std::os::unix::fs::symlink(d.join("nowhere"), d.join("to-nowhere")));
    io(nix_fifo(&d.join("pipe")));
    let socket = io(std::os::unix::net::UnixListener::bind(d.join("socket")));
    io(std::os::unix::fs::symlink("/dev/null", d.join("to-null")));
    type Odd = (&'static str, bool, Option<&'static [&'static str]>);
    const ODD: &[Odd] = &[
      ("missing", false, None),
      ("dir", false, Some(&["dir/sub"])),
      ("dir/sub", false, Some(&["dir/sub/f"])),
      ("file", true, None),
      ("file/x", false, None),
      ("to-file", true, None),
      ("to-dir", false, Some(&["to-dir/sub"])),
      ("to-nowhere", false, None),
      ("nul\0", false, None),
      ("", false, Some(&["dir", "file", "pipe", "socket", "to-dir", "to-file", "to-nowhere", "to-null"])),
      ("pipe", false, None),
      ("socket", false, None),
      ("to-null", false, None),
    ];
    let (name, is_file, listing) = *c.of(ODD);
    c.log(|| format!("{name:?}"));
    let p = if name.is_empty() { d.clone() } else { d.join(name) };
    ensure_eq!(real.is_file(&p), is_file, "{name:?} is a file");
    // what reading these does is up to them
    if !["pipe", "to-null"].contains(&name) {
      ensure_eq!(real.read_to_string(&p).ok(), is_file.then_some("text".to_owned()), "{name:?}: text");
      ensure_eq!(real.read_to_bytes(&p).ok(), is_file.then_some(b"text".to_vec()), "{name:?}: bytes");
    }
    let got: Option<BTreeSet<PathBuf>> = real.read_dir(&p).ok().map(|v| v.into_iter().collect());
    let want: Option<BTreeSet<PathBuf>> = listing.map(|l| l.iter().map(|n| d.join(n)).collect());
    ensure_eq!(got, want, "{name:?}: listing");
    drop(socket);
    c.outcome(if want.is_some() { "directory" } else if is_file { "file" } else { "neither" });
    c.state(&name);
    c.checks(4);
    Ok(())
  });
  let names = odd_names();
  x.space("names", format!("{} names: every single byte, and ones that tools, shells, encodings or other systems treat differently; each of a file, of a directory with a file, and next to one that only differs in case or ending", names.len()), {
    move |c: &mut Ch<'_>| {
      let name = c.of(&names).clone();
      let shape = c.pick(3);
      c.log(|| format!("{:?}, shape {shape}", lossy(&name)));
      let s = Scratch::new();
      let n = path(&name);
      let mut files: BTreeSet<PathBuf> = BTreeSet::new();
      match shape {
        0 => {
          files.insert(s.0.join(n));
        }
        1 => {
          files.extend([s.0.join(n).join("f"), s.0.join(n).join(n)]);
        }
        _ => {
          let mut x = name.clone();
          x.push(b'x');
          files.extend([s.0.join(n), s.0.join(path(&x)), s.0.join(path(&name.to_ascii_uppercase()))]);
        }
      }
      let mut inner = BTreeMap::new();
      for f in &files {
        io(std::fs::create_dir_all(f.parent().expect("has one")));
        io(std::fs::write(f, "x"));
        let cp = CleanPathBuf::new(f).ok_or("refused")?;
        ensure!(cp.as_path().as_os_str() == f.as_os_str(), "clean path of {} is {}", f.display(), cp.as_path().display());
        inner.insert(cp, "x".to_owned());
      }
      let dirs: Vec<PathBuf> = if shape == 1 { vec![s.0.clone(), s.0.join(n)] } else { vec![s.0.clone()] };
      for (which, fs) in [("memory", &MemoryFileSystem::new(inner) as &dyn FileSystem), ("real", &RealFileSystem::default())] {
        for f in &files {
          ensure!(fs.is_file(f), "{which}: {f:?} is a file");
          ensure_eq!(fs.read_to_string(f).ok(), Some("x".to_owned()), "{which}: text of {f:?}");
          ensure_eq!(fs.read_to_bytes(f).ok(), Some(b"x".to_vec()), "{which}: bytes of {f:?}");
        }
        for d in &dirs {
          ensure!(!fs.is_file(d), "{which}: {d:?} is no file");
          let want: BTreeSet<PathBuf> = files.iter().filter(|f| f.starts_with(d)).cloned().collect();
          ensure_eq!(walk(fs, d, which)?, want, "{which}: files found by walking {d:?}");
        }
      }
      c.checks(1);
      c.state(&name);
      Ok(())
    }
  });
  let most = x.by(24, 60);
  x.space("deep directories", format!("chains of 1..={most} directories, with a file at the end, or at every level, or in a side directory of every level"), move |c: &mut Ch<'_>| {
    let n = 1 + c.pick(most);
    let shape = c.pick(3);
    let s = Scratch::new();
    let mut model = BTreeMap::new();
    let mut all = vec![];
    let mut dir = String::new();
    for i in 0..n {
      dir += if i == 0 { "d" } else { "/d" };
      all.push(dir.clone());
      match shape {
        0 if i + 1 < n => {}
        2 => {
          all.push(format!("{dir}/e"));
          model.insert(format!("{dir}/e/f"), "side".to_owned());
        }
        _ => {
          model.insert(format!("{dir}/f"), "text".to_owned());
        }
      }
    }
    let mut inner = BTreeMap::new();
    for (f, t) in &model {
      let p = s.0.join(f);
      io(std::fs::create_dir_all(p.parent().expect("has one")));
      io(std::fs::write(&p, t));
      inner.insert(CleanPathBuf::new(&p).ok_or("refused")?, t.clone());
    }
    all.extend(model.keys().cloned());
    c.log(|| format!("{n} directories, shape {shape}"));
    compare(c, &s.0, &MemoryFileSystem::new(inner), &model, &all)
  });
  x.space("many entries", "directories of 0, 1, 100 and 3000 files", |c: &mut Ch<'_>| {
    let n = *c.of(&[0, 1, 100, 3000]);
    let s = Scratch::new();
    let mut inner = BTreeMap::new();
    for i in 0..n {
      let p = s.0.join(format!("f{i}"));
      io(std::fs::write(&p, format!("{i}")));
      inner.insert(CleanPathBuf::new(&p).ok_or("refused")?, format!("{i}"));
    }
    let want: BTreeSet<PathBuf> = (0..n).map(|i| s.0.join(format!("f{i}"))).collect();
    for fs in [&RealFileSystem::default() as &dyn FileSystem, &MemoryFileSystem::new(inner)] {
      let got = fs.read_dir(&s.0).map_err(|e| format!("listing: {e}"))?;
      ensure_eq!(got.len(), n, "number of entries");
      ensure!(got.into_iter().collect::<BTreeSet<_>>() == want, "entries of a directory of {n}");
    }
    c.progress();
    c.checks(1);
    Ok(())
  });
  x.space("current directory", "in a directory, below a link, after it was removed; and the one in memory", |c: &mut Ch<'_>| {
    // the current directory belongs to the whole process
    static LOCK: Mutex<()> = Mutex::new(());
    let _g = LOCK.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
    let old = io(std::env::current_dir());
    let s = Scratch::new();
    let k = c.pick(3);
    let dir = s.0.join("d/e");
    io(std::fs::create_dir_all(&dir));
    io(std::os::unix::fs::symlink(s.0.join("d"), s.0.join("link")));
    io(std::env::set_current_dir(match k {
      1 => s.0.join("link/e"),
      _ => dir.clone(),
    }));
    if k == 2 {
      io(std::fs::remove_dir(&dir));
    }
    let got = catch(|| RealFileSystem::default().current_dir());
    io(std::env::set_current_dir(old));
    let got = got?;
    if k == 2 {
      ensure!(got.is_err(), "the current directory is gone, but {got:?} was reported");
    } else {
      let got = got.map_err(|e| format!("current directory: {e}"))?;
      ensure!(bytes(got.as_path()) == bytes(&dir), "current directory {} instead of {}", got.as_path().display(), dir.display());
    }
    let m = MemoryFileSystem::default().current_dir().map_err(|e| format!("memory: {e}"))?;
    ensure!(bytes(m.as_path()) == b"/" && m == MemoryFileSystem::root(), "current directory in memory");
    c.checks(1);
    Ok(())
  });
}
