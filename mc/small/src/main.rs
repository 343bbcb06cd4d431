// P31: diagnostics. P32: unique identifiers. P33: conversions. P34: always!. P35: hash collections.
// P37: timing. P38: writing tokens.

mod sys;

use mcx::{Ch, Ctx, Prop, Res, bail, catch, ensure, ensure_eq};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::error::Error as _;
use std::hash::{Hash, Hasher};

fn main() {
  sys::install_logger();
  mcx::main(&[
    Prop { id: "P31", run: p31 },
    Prop { id: "P32", run: p32 },
    Prop { id: "P33", run: p33 },
    Prop { id: "P34", run: sys::p34_all },
    Prop { id: "P35", run: p35 },
    Prop { id: "P37", run: sys::p37 },
    Prop { id: "P38", run: sys::p38 },
  ]);
}

// ---------------------------------------------------------------------------------------------
// P31

fn p31(x: &mut Ctx) {
  use diagnostic::{Code, Diagnostic, Severity};
  use text_pos::{PositionUtf16, RangeUtf16};
  const NUM: &[u32] = &[0, 1, 8, 9, 10, 98, 99, 255, 65_535, 99_999, i32::MAX as u32, u32::MAX - 1, u32::MAX];
  let one = |n: u32| (u64::from(n) + 1).to_string();
  x.space("positions and ranges", "all pairs of positions with lines and columns out of 13 numbers (all powers' edges, 0, the largest)", move |c: &mut Ch<'_>| {
    let mut num = || *c.of(NUM);
    let start = PositionUtf16 { line: num(), col: num() };
    let end = PositionUtf16 { line: num(), col: num() };
    let range = RangeUtf16 { start, end };
    let ps = format!("{}:{}", one(start.line), one(start.col));
    let pe = format!("{}:{}", one(end.line), one(end.col));
    c.state(&(start, end));
    c.checks(1);
    ensure_eq!(start.to_string(), ps, "{start:?}");
    ensure_eq!(end.to_string(), pe, "{end:?}");
    let want = if start.line == end.line { format!("{ps}-{}", one(end.col)) } else { format!("{ps}-{pe}") };
    ensure_eq!(range.to_string(), want, "{range:?}");
    for (severity, s) in [(Severity::Warning, "warning"), (Severity::Error, "error")] {
      for message in ["", "msg", "{} \u{e9}: 1:1\nnext"] {
        let d = Diagnostic { range, message: message.to_owned(), severity };
        ensure_eq!(d.to_string(), format!("{want}: {s}: {message}"), "{d:?}");
      }
    }
    Ok(())
  });
  x.space("small positions", "all pairs of positions with lines and columns below 12", move |c: &mut Ch<'_>| {
    let mut num = || c.pick(12) as u32;
    let start = PositionUtf16 { line: num(), col: num() };
    let end = PositionUtf16 { line: num(), col: num() };
    let range = RangeUtf16 { start, end };
    c.state(&(start, end));
    c.checks(1);
    let ps = format!("{}:{}", start.line + 1, start.col + 1);
    let want = if start.line == end.line { format!("{ps}-{}", end.col + 1) } else { format!("{ps}-{}:{}", end.line + 1, end.col + 1) };
    ensure_eq!(range.to_string(), want, "{range:?}");
    let at = RangeUtf16::zero(start);
    ensure!(at.start == start && at.end == start, "{at:?} does not start and end at {start:?}");
    Ok(())
  });
  x.space("messages", "every character alone, first and last in a message; texts of 1-70000 bytes", |c: &mut Ch<'_>| {
    let at = RangeUtf16::zero(PositionUtf16 { line: 6, col: 40 });
    let shown = |m: String| -> Res {
      let d = Diagnostic { range: at, message: m, severity: Severity::Warning };
      ensure_eq!(d.to_string(), format!("7:41-41: warning: {}", d.message), "{d:?}");
      Ok(())
    };
    if c.flag() {
      let unit = *c.of(&["x", " ", "\u{e9}", "a b\n"]);
      let m = unit.repeat(*c.of(&[1, 7, 8, 63, 64, 80, 127, 128, 255, 256, 1023, 1024, 4096, 16_384, 17_500]));
      shown(m)?;
      c.checks(1);
      return Ok(());
    }
    let hi = c.pick(0x1100) as u32;
    for lo in 0..256 {
      let Some(ch) = char::from_u32(hi << 8 | lo) else { continue };
      shown(format!("{ch}"))?;
      shown(format!("{ch}m"))?;
      shown(format!("m{ch}"))?;
      c.checks(3);
    }
    c.state(&hi);
    Ok(())
  });
  x.space("lines and columns", "every line and every column below 2^17", |c: &mut Ch<'_>| {
    let hi = c.pick(512) as u32;
    for n in hi * 256..(hi + 1) * 256 {
      let (p, q) = (PositionUtf16 { line: n, col: 3 }, PositionUtf16 { line: 3, col: n });
      ensure_eq!(p.to_string(), format!("{}:4", n + 1), "{p:?}");
      ensure_eq!(q.to_string(), format!("4:{}", n + 1), "{q:?}");
      c.checks(2);
    }
    c.state(&hi);
    Ok(())
  });
  x.space("codes", "all 65536 codes: number, text, parsing it back with and without leading zeros", |c: &mut Ch<'_>| {
    let hi = c.pick(256) as u16;
    for lo in 0..256 {
      let n = hi * 256 + lo;
      let code = Code::n(n);
      ensure_eq!(code.as_i32(), i32::from(n), "integer of code {n}");
      let s = code.to_string();
      ensure_eq!(s, n.to_string(), "text of code {n}");
      for t in [s.clone(), format!("0{s}"), format!("{n:05}"), format!("{n:012}")] {
        ensure_eq!(t.parse::<Code>().ok(), Some(code), "parsing {t:?}");
      }
      ensure!(code == Code::n(n) && (n == 0 || (code > Code::n(n - 1) && code != Code::n(n - 1))), "comparison of code {n}");
      c.checks(1);
    }
    c.state(&hi);
    Ok(())
  });
  let len = x.by(6, 7);
  x.space("parsing codes", format!("all strings of up to {len} of 0 1 5 6 9 - + space x _ \u{663}"), move |c: &mut Ch<'_>| {
    let n = c.pick(len + 1);
    let s: String = (0..n).map(|_| *c.of(&["0", "1", "5", "6", "9", "-", "+", " ", "x", "_", "\u{663}"])).collect();
    parse_code(c, &s)
  });
  x.space("parsing large numbers", "numbers around every power of two up to 2^130 and of ten, signed and padded", |c: &mut Ch<'_>| {
    let s = match c.pick(3) {
      0 => {
        let k = c.pick(120);
        let d = c.pick(7) as u128;
        ((1_u128 << k) + d).saturating_sub(3).to_string()
      }
      1 => format!("{}{}", c.pick(10), "0".repeat(c.pick(60))),
      _ => (65_500 + c.pick(100)).to_string(),
    };
    let s = match c.pick(6) {
      0 => s,
      1 => format!("+{s}"),
      2 => format!("-{s}"),
      3 => format!("000{s}"),
      4 => format!(" {s}"),
      _ => format!("{s}\n"),
    };
    parse_code(c, &s)
  });
  x.space("writers", "diagnostics at all pairs of 9 positions with 5 messages, severities, codes, errors of codes, positions and ranges, displayed plainly, in the alternate form, and with a writer that fails after any number of bytes", move |c: &mut Ch<'_>| {
    let mut num = || *c.of(&[0_u32, 9, u32::MAX]);
    let start = PositionUtf16 { line: num(), col: num() };
    let end = PositionUtf16 { line: num(), col: num() };
    let range = RangeUtf16 { start, end };
    let severity = *c.of(&[Severity::Warning, Severity::Error]);
    let message = *c.of(&["", "m", "{} \u{e9}: 1:1\nnext", "\u{1f600}", "a message of more than forty bytes, after which there is more"]);
    let (ps, pe) = (format!("{}:{}", one(start.line), one(start.col)), format!("{}:{}", one(end.line), one(end.col)));
    let rs = if start.line == end.line { format!("{ps}-{}", one(end.col)) } else { format!("{ps}-{pe}") };
    let ss = if severity == Severity::Error { "error" } else { "warning" };
    c.state(&(start, end, message));
    c.checks(5);
    mcx::displays(&Diagnostic { range, severity, message: message.to_owned() }, &format!("{rs}: {ss}: {message}"))?;
    mcx::displays(&severity, ss)?;
    mcx::displays(&range, &rs)?;
    mcx::displays(&start, &ps)?;
    let code = Code::n(start.line as u16);
    mcx::displays(&code, &(start.line as u16).to_string())?;
    let e = message.parse::<Code>().expect_err("no code");
    let why = message.parse::<u16>().expect_err("no number");
    mcx::displays(&e, &format!("couldn't parse code: {why}"))?;
    Ok(())
  });
  x.space("severities", "all pairs", |c: &mut Ch<'_>| {
    const S: &[Severity] = &[Severity::Warning, Severity::Error];
    let (i, j) = (c.pick(2), c.pick(2));
    ensure_eq!(S[i].cmp(&S[j]), i.cmp(&j), "{:?} against {:?}", S[i], S[j]);
    ensure_eq!(S[i].partial_cmp(&S[j]), Some(i.cmp(&j)), "{:?} against {:?}", S[i], S[j]);
    ensure_eq!(S[i] == S[j], i == j, "{:?} against {:?}", S[i], S[j]);
    c.state(&(i, j));
    Ok(())
  });
}

fn parse_code(c: &mut Ch<'_>, s: &str) -> Res {
  let digits = s.strip_prefix('+').unwrap_or(s);
  let mut val = Some(0_u64);
  for b in digits.bytes() {
    val = val.filter(|_| b.is_ascii_digit()).map(|v| (v * 10 + u64::from(b - b'0')).min(1 << 40));
  }
  let want = val.filter(|&v| !digits.is_empty() && v <= 65_535);
  c.checks(1);
  c.state(&s);
  match (s.parse::<diagnostic::Code>(), want) {
    (Ok(k), Some(w)) => {
      ensure_eq!(u64::try_from(k.as_i32()).ok(), Some(w), "parsing {s:?}");
      c.outcome("parsed");
    }
    (Err(e), None) => {
      let Some(cause) = e.source() else { bail!("parsing {s:?}: the error has no cause") };
      ensure!(cause.is::<std::num::ParseIntError>(), "parsing {s:?}: the cause is {cause:?}");
      let std = s.parse::<u16>().expect_err("reference").to_string();
      ensure_eq!(cause.to_string(), std, "parsing {s:?}: cause");
      ensure!(!e.to_string().is_empty(), "parsing {s:?}: empty error text");
      c.outcome("refused");
    }
    (Ok(k), None) => bail!("{s:?} was parsed as {k:?}"),
    (Err(e), Some(w)) => bail!("{s:?} is {w}, but was refused: {e}"),
  }
  Ok(())
}

// ---------------------------------------------------------------------------------------------
// P32

/// Captures what is hashed, if it is at most one 64-bit word.
#[derive(Default)]
struct Capture(u64, u32);
impl Hasher for Capture {
  fn finish(&self) -> u64 {
    self.0
  }
  fn write(&mut self, bytes: &[u8]) {
    for &b in bytes {
      self.0 = self.0.rotate_left(8) ^ u64::from(b);
    }
    self.1 += bytes.len() as u32;
  }
  fn write_u32(&mut self, i: u32) {
    self.0 ^= u64::from(i);
    self.1 += 4;
  }
  fn write_u64(&mut self, i: u64) {
    self.0 ^= i;
    self.1 += 8;
  }
}

fn key(u: uniq::Uniq) -> u64 {
  let mut h = Capture::default();
  u.hash(&mut h);
  h.0
}

fn sip(u: uniq::Uniq) -> u64 {
  let mut h = DefaultHasher::new();
  u.hash(&mut h);
  h.finish()
}

fn p32(x: &mut Ctx) {
  x.space("the first identifiers of a maker", "3000 identifiers, all pairs: equality, order, hash, display, set membership", |c: &mut Ch<'_>| {
    let mut mk = uniq::UniqMk::default();
    let us: Vec<uniq::Uniq> = (0..3000).map(|_| mk.mk()).collect();
    let k = c.pick(100);
    pairs(c, &us, k, 100)
  });
  x.space("writers", "10002 identifiers, displayed plainly, in the alternate form, and with a writer that fails after any number of bytes", |c: &mut Ch<'_>| {
    let mut mk = uniq::UniqMk::default();
    for i in 0..10_002 {
      let u = mk.mk();
      let s = u.to_string();
      mcx::displays(&u, &s).map_err(|e| format!("identifier {i}: {e}"))?;
    }
    c.checks(10_002);
    Ok(())
  });
  x.space("two makers", "all interleavings of 12 requests to two makers: neither repeats one", |c: &mut Ch<'_>| {
    let mut mks = [uniq::UniqMk::default(), uniq::UniqMk::default()];
    let mut got: [Vec<uniq::Uniq>; 2] = [vec![], vec![]];
    for _ in 0..12 {
      let i = c.pick(2);
      let u = mks[i].mk();
      ensure!(!got[i].contains(&u), "a maker returned {u:?} twice");
      got[i].push(u);
    }
    c.checks(12);
    c.state(&(got[0].len(), got[1].len()));
    Ok(())
  });
  let all = if x.debug { x.by(1 << 26, u32::MAX as u64) } else { u32::MAX as u64 };
  x.space(
    "one maker, exhausted",
    format!("{all} identifiers of one maker, every one different (a bit per identifier); those around each power of two compared pairwise"),
    move |c: &mut Ch<'_>| {
      let mut bits = vec![0_u64; 1 << 26];
      let mut odd: HashSet<u64> = HashSet::new();
      let mut mk = uniq::UniqMk::default();
      let mut picked = vec![];
      for i in 0..all {
        let u = mk.mk();
        let k = key(u);
        let fresh = if k >> 32 == 0 {
          let (w, b) = ((k / 64) as usize, k % 64);
          let old = bits[w] >> b & 1;
          bits[w] |= 1 << b;
          old == 0
        } else {
          ensure!(odd.len() < 50_000_000, "identifiers too wide for this check");
          odd.insert(k)
        };
        if !fresh {
          // equal hashes are no proof: find the earlier one
          let mut again = uniq::UniqMk::default();
          for j in 0..i {
            if again.mk() == u {
              bail!("identifier {j} and identifier {i} are both {u:?}");
            }
            if j % (1 << 24) == 0 {
              c.progress();
            }
          }
        }
        if (i & (i + 1)).count_ones() < 2 || (i & (i.wrapping_sub(1))).count_ones() < 2 || i + 2 >= all {
          picked.push(u);
        }
        if i % (1 << 24) == 0 {
          c.progress();
        }
      }
      c.checks(all);
      for k in 0..picked.len() {
        pairs(c, &picked, k, picked.len())?;
      }
      c.outcome("all different");
      Ok(())
    },
  );
}

/// Compares every element with index k modulo n with all others.
fn pairs(c: &mut Ch<'_>, us: &[uniq::Uniq], k: usize, n: usize) -> Res {
  for i in (k..us.len()).step_by(n) {
    let a = us[i];
    for (j, &b) in us.iter().enumerate() {
      let same = i == j;
      if same {
        ensure!(a == b && a.cmp(&b).is_eq() && sip(a) == sip(b), "{a:?} is not equal to itself");
        continue;
      }
      ensure!(a != b, "identifiers {i} and {j} are equal: {a:?}");
      let o = a.cmp(&b);
      ensure!(!o.is_eq() && o == b.cmp(&a).reverse() && a.partial_cmp(&b) == Some(o) && (a < b) == o.is_lt(), "order of {a:?} and {b:?}");
    }
    ensure_eq!(us.iter().filter(|u| u.to_string() == a.to_string()).count(), 1, "identifiers displayed like {a:?}");
  }
  let set: HashSet<uniq::Uniq> = us.iter().copied().collect();
  let ord: BTreeSet<uniq::Uniq> = us.iter().copied().collect();
  ensure!(set.len() == us.len() && ord.len() == us.len(), "sets of {} identifiers have {} and {} elements", us.len(), set.len(), ord.len());
  c.checks(us.len() as u64);
  c.state(&k);
  Ok(())
}

// ---------------------------------------------------------------------------------------------
// P33

fn p33(x: &mut Ctx) {
  use text_size_util::{TextRange, TextSize, WithRange, mk_text_size};
  let step: usize = if x.debug { x.by(64, 1) } else { 1 };
  x.space(
    "numbers that fit",
    format!("every {step}th 32-bit number and all within 64 of a multiple of 2^16: conversion there and back, order of neighbours"),
    move |c: &mut Ch<'_>| {
      let hi = c.pick(4096) as u64;
      let base = hi << 20;
      let mut lo = 0_u64;
      while lo < 1 << 20 {
        let n = (base + lo) as usize;
        let i = idx::Idx::new(n);
        let t = mk_text_size(n);
        let u = always::convert::usize_to_u32(n);
        if i.to_usize() != n || i != idx::Idx::new_u32(n as u32) {
          bail!("index made of {n} gives {}", i.to_usize());
        }
        if u32::from(t) as usize != n || usize::from(t) != n {
          bail!("text size made of {n} is {t:?}");
        }
        if u as usize != n || always::convert::u32_to_usize(n as u32) != n {
          bail!("{n} converted to {u} and {}", always::convert::u32_to_usize(n as u32));
        }
        if n > 0 {
          let m = n - 1;
          if !(idx::Idx::new(m) < i && mk_text_size(m) < t) {
            bail!("order of {m} and {n}");
          }
        }
        let at = lo % (1 << 16);
        lo += if at < 64 || at >= (1 << 16) - 64 { 1 } else { (step as u64).min((1 << 16) - 64 - at) };
        c.checks(1);
      }
      c.state(&hi);
      Ok(())
    },
  );
  x.space("order", "all pairs of 200 numbers around the powers of two", |c: &mut Ch<'_>| {
    let ns: Vec<u32> = (0..=32_u32).flat_map(|k| (0..6).map(move |d| (((1_u64 << k) + d).saturating_sub(3)).min(u64::from(u32::MAX)) as u32)).collect();
    let a = *c.of(&ns);
    for &b in &ns {
      let (i, j) = (idx::Idx::new(a as usize), idx::Idx::new(b as usize));
      ensure!(i.cmp(&j) == a.cmp(&b) && (i == j) == (a == b) && i.partial_cmp(&j) == Some(a.cmp(&b)), "indices {a} and {b}");
      let (s, t) = (mk_text_size(a as usize), mk_text_size(b as usize));
      ensure!(s.cmp(&t) == a.cmp(&b), "text sizes {a} and {b}");
      c.checks(1);
    }
    c.state(&a);
    Ok(())
  });
  let debug = x.debug;
  x.space("numbers that do not fit", "larger numbers: 64 upper halves with each of 20 lower halves", move |c: &mut Ch<'_>| {
    let hi = 1_usize << c.pick(32);
    let hi = if c.flag() { hi } else { hi | 1 };
    let lo = *c.of(&[0_usize, 1, 2, 3, 4, 5, 7, 100, 255, 256, 1000, 65_535, 65_536, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 3, (1 << 32) - 2, (1 << 32) - 1, 0xdead_beef]);
    let n = hi << 32 | lo;
    let i = catch(|| idx::Idx::new(n).to_usize());
    ensure!(i.is_err(), "index made of {n}: {i:?}");
    let t = catch(|| mk_text_size(n));
    ensure!(t.is_err(), "text size made of {n}: {t:?}");
    sys::take_log();
    let u = catch(|| always::convert::usize_to_u32(n));
    let log = sys::take_log();
    if debug {
      ensure!(u.is_err(), "{n} was converted to {u:?} in a debug build");
      ensure!(log.is_empty(), "converting {n} logged {log:?} besides panicking");
    } else {
      ensure_eq!(u, Ok(u32::MAX), "{n} converted");
      ensure!(log.len() == 1 && log[0].0 == log::Level::Error, "converting {n} logged {log:?}");
    }
    c.outcome("refused");
    c.state(&n);
    c.checks(3);
    Ok(())
  });
  x.space("located values", "all ranges between 8 offsets, chains of 3 re-wrappings", |c: &mut Ch<'_>| {
    let at = |n: u32| TextSize::from(n);
    const N: &[u32] = &[0, 1, 2, 9, 1000, u32::MAX - 1, u32::MAX];
    let (a, b) = (*c.of(N), *c.of(N));
    if a > b {
      return Ok(());
    }
    let range = TextRange::new(at(a), at(b));
    let w = WithRange { val: 'x', range };
    let w1 = w.wrap("text");
    let w2 = w1.wrap(vec![7_u8]);
    let w3 = w2.wrap(());
    let () = w3.val;
    ensure!(w1.val == "text" && w2.val == [7] && w.val == 'x', "wrapped values");
    ensure!(w1.range == range && w2.range == range && w3.range == range, "location {range:?} was not kept");
    c.state(&(a, b));
    c.checks(1);
    Ok(())
  });
}

// ---------------------------------------------------------------------------------------------
// P35

/// A key with a hash that is the same for all.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct Dull(u32);
impl Hash for Dull {
  fn hash<H: Hasher>(&self, h: &mut H) {
    h.write_u8(7);
  }
}

trait K: Hash + Eq + Ord + Clone + std::fmt::Debug {
  fn mk(n: usize) -> Self;
}
impl K for u32 {
  fn mk(n: usize) -> Self {
    n as u32
  }
}
impl K for String {
  fn mk(n: usize) -> Self {
    "s".repeat(n)
  }
}
impl K for Dull {
  fn mk(n: usize) -> Self {
    Dull(n as u32)
  }
}

fn arrays<T: K, const N: usize>(c: &mut Ch<'_>, keys: [usize; N]) -> Res {
  let distinct: BTreeSet<usize> = keys.iter().copied().collect();
  let dup = distinct.len() < N;
  c.checks(2);
  let mut i = 0;
  let pairs = keys.map(|k| {
    i += 1;
    (T::mk(k), i)
  });
  let got = catch(|| fast_hash::map(pairs.clone()));
  match got {
    Err(e) => ensure!(dup, "map of {keys:?}: panic: {e}"),
    Ok(m) => {
      ensure!(!dup, "map of {keys:?}: duplicate keys, but no panic");
      let got: BTreeMap<T, i32> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
      ensure_eq!(m.len(), N, "size of map of {keys:?}");
      ensure_eq!(got, pairs.iter().cloned().collect::<BTreeMap<_, _>>(), "map of {keys:?}");
      for (k, v) in &pairs {
        ensure_eq!(m.get(k), Some(v), "map of {keys:?}: lookup of {k:?}");
      }
      ensure_eq!(m.get(&T::mk(7777)), None, "map of {keys:?}: lookup of another key");
    }
  }
  let elems = keys.map(T::mk);
  match catch(|| fast_hash::set(elems.clone())) {
    Err(e) => ensure!(dup, "set of {keys:?}: panic: {e}"),
    Ok(s) => {
      ensure!(!dup, "set of {keys:?}: duplicate elements, but no panic");
      ensure_eq!(s.len(), N, "size of set of {keys:?}");
      for k in &elems {
        ensure!(s.contains(k), "set of {keys:?} lacks {k:?}");
      }
      ensure!(!s.contains(&T::mk(7777)), "set of {keys:?} has too much");
    }
  }
  c.outcome(if dup { "duplicates" } else { "distinct" });
  Ok(())
}

fn array_of(c: &mut Ch<'_>, keys: &[usize]) -> Res {
  fn go<const N: usize>(c: &mut Ch<'_>, keys: &[usize]) -> Res {
    let keys: [usize; N] = keys.try_into().expect("length");
    match c.pick(3) {
      0 => arrays::<u32, N>(c, keys),
      1 => arrays::<String, N>(c, keys),
      _ => arrays::<Dull, N>(c, keys),
    }
  }
  c.state(&keys);
  match keys.len() {
    0 => go::<0>(c, keys),
    1 => go::<1>(c, keys),
    2 => go::<2>(c, keys),
    3 => go::<3>(c, keys),
    4 => go::<4>(c, keys),
    5 => go::<5>(c, keys),
    6 => go::<6>(c, keys),
    7 => go::<7>(c, keys),
    8 => go::<8>(c, keys),
    9 => go::<9>(c, keys),
    16 => go::<16>(c, keys),
    17 => go::<17>(c, keys),
    10 => go::<10>(c, keys),
    11 => go::<11>(c, keys),
    12 => go::<12>(c, keys),
    13 => go::<13>(c, keys),
    14 => go::<14>(c, keys),
    15 => go::<15>(c, keys),
    20 => go::<20>(c, keys),
    24 => go::<24>(c, keys),
    28 => go::<28>(c, keys),
    29 => go::<29>(c, keys),
    32 => go::<32>(c, keys),
    33 => go::<33>(c, keys),
    48 => go::<48>(c, keys),
    64 => go::<64>(c, keys),
    65 => go::<65>(c, keys),
    100 => go::<100>(c, keys),
    128 => go::<128>(c, keys),
    129 => go::<129>(c, keys),
    200 => go::<200>(c, keys),
    256 => go::<256>(c, keys),
    257 => go::<257>(c, keys),
    n => mcx::machinery(&format!("no arrays of {n}")),
  }
}

fn p35(x: &mut Ctx) {
  let n = x.by(5, 6);
  x.space("short arrays", format!("all arrays of up to {n} keys out of 6, three key types (one whose hashes all collide), maps and sets"), move |c: &mut Ch<'_>| {
    let k = c.pick(n + 1);
    let keys: Vec<usize> = (0..k).map(|_| c.pick(6)).collect();
    array_of(c, &keys)
  });
  x.space("longer arrays", "arrays of 7-257 different keys in three orders, with any one key replaced by any other (one of 6 others, where there are more than 64)", |c: &mut Ch<'_>| {
    let n = *c.of(&[7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 28, 29, 32, 33, 48, 64, 65, 100, 128, 129, 200, 256, 257]);
    let order = c.pick(3);
    let mut keys: Vec<usize> = (0..n).map(|i| match order { 0 => i, 1 => n - 1 - i, _ => (i * 37 + 11) % 1009 + 100 }).collect();
    let i = c.pick(n + 1);
    if i < n {
      // with many keys, only some others
      let j = if n <= 64 { c.pick(n) } else { *c.of(&[0, 1, n / 2, n - 2, n - 1, (i + 1) % n]) };
      keys[i] = keys[j];
    }
    array_of(c, &keys)
  });
  let depth = x.by(5, 6);
  x.space("collections with a capacity", format!("capacities 0-1000; all sequences of {depth} insertions, removals and lookups of 3 keys; compared with ordered ones"), move |c: &mut Ch<'_>| {
    let cap = *c.of(&[0, 1, 3, 28, 1000]);
    let mut m = fast_hash::map_with_capacity::<String, usize>(cap);
    let mut s = fast_hash::set_with_capacity::<String>(cap);
    let mut rm: BTreeMap<String, usize> = BTreeMap::new();
    let mut rs: BTreeSet<String> = BTreeSet::new();
    ensure!(m.is_empty() && s.is_empty() && m.len() == 0 && s.len() == 0, "a new collection is not empty");
    for i in 0..depth {
      let k = c.pick(3);
      let key = String::mk(k);
      match c.pick(3) {
        0 => {
          ensure_eq!(m.insert(key.clone(), i), rm.insert(key.clone(), i), "insert");
          ensure_eq!(s.insert(key.clone()), rs.insert(key), "insert");
        }
        1 => {
          ensure_eq!(m.remove(&key), rm.remove(&key), "remove");
          ensure_eq!(s.remove(&key), rs.remove(&key), "remove");
        }
        _ => {
          ensure_eq!(m.get(key.as_str()), rm.get(&key), "get");
          ensure_eq!(s.contains(key.as_str()), rs.contains(&key), "contains");
        }
      }
    }
    ensure_eq!(m.len(), rm.len(), "size");
    ensure_eq!(s.len(), rs.len(), "size");
    ensure_eq!(m.into_iter().collect::<BTreeMap<_, _>>(), rm, "contents");
    c.state(&(&rs, cap));
    ensure_eq!(s.into_iter().collect::<BTreeSet<_>>(), rs, "contents");
    c.checks(1);
    Ok(())
  });
  x.space("no reallocation", "every capacity up to 2000, filled to the last element", |c: &mut Ch<'_>| {
    let n = c.pick(2001);
    let mut m = fast_hash::map_with_capacity::<usize, usize>(n);
    let mut s = fast_hash::set_with_capacity::<usize>(n);
    let (cm, cs) = (m.capacity(), s.capacity());
    ensure!(cm >= n && cs >= n, "capacities {cm} and {cs} for {n}");
    for i in 0..n {
      m.insert(i * 31, i);
      s.insert(i * 31);
    }
    ensure!(m.capacity() == cm && s.capacity() == cs, "reallocated while filling to {n}");
    ensure!(m.len() == n && s.len() == n, "{n} elements were inserted, there are {} and {}", m.len(), s.len());
    c.state(&n);
    c.checks(1);
    Ok(())
  });
}

