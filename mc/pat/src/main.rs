// P14: missing patterns. P15: unreachable patterns. P16: errors. P40: display (show.rs).

use mcx::{Ch, Ctx, Prop, Res, bail, catch, ensure, ensure_eq};
use pattern_match::{CheckError, ConPat, Lang, RawPat};
use std::collections::BTreeSet;

mod contract;
mod show;

fn main() {
  mcx::main_with_stack(256, &[
    Prop { id: "P14", run: |x| explore(x, Which::Missing) },
    Prop { id: "P15", run: |x| explore(x, Which::Unreachable) },
    Prop { id: "P16", run: p16 },
    Prop { id: "P40", run: show::p40 },
    Prop { id: "P41", run: contract::p41 },
  ]);
}

#[derive(Clone, Copy, PartialEq)]
enum Which {
  Missing,
  Unreachable,
}

// ---------------------------------------------------------------------------------------------
// the language

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct Ty(usize);

enum Def {
  /// constructors with their argument types
  Adt(&'static [&'static [Ty]]),
  /// an enumeration of that many constants
  Enum(u8),
  /// unboundedly many constants; `any` splits into the seen ones and the rest
  Int,
  /// the numbers below that, with range patterns
  Byte(u8),
}
use Def::*;

const BOOL: Ty = Ty(0);
const E3: Ty = Ty(1);
const EMPTY: Ty = Ty(2);
const OPT: Ty = Ty(3);
const PAIR: Ty = Ty(4);
const LIST: Ty = Ty(5);
const INT: Ty = Ty(6);
const PAIR_INT: Ty = Ty(7);
const RES: Ty = Ty(8);
const TRIPLE: Ty = Ty(9);
const OPT_PAIR: Ty = Ty(10);
const TREE: Ty = Ty(11);
const BYTE: Ty = Ty(12);
const PAIR_BYTE: Ty = Ty(13);
const PAIR_EMPTY: Ty = Ty(14);
const E12: Ty = Ty(15);
const PAIR_E6: Ty = Ty(16);
const E6: Ty = Ty(17);
const PAIR_OPT: Ty = Ty(18);
const UNIT: Ty = Ty(19);
const EITHER: Ty = Ty(20);
const WIDE: Ty = Ty(21);
const LIST_INT: Ty = Ty(22);
const E100: Ty = Ty(23);
const PAIR_E12: Ty = Ty(24);
const TUPLE20: Ty = Ty(25);
const NAT: Ty = Ty(26);

static DEFS: &[Def] = &[
  Adt(&[&[], &[]]),
  Enum(3),
  Adt(&[]),
  Adt(&[&[], &[BOOL]]),
  Adt(&[&[BOOL, BOOL]]),
  Adt(&[&[], &[BOOL, LIST]]),
  Int,
  Adt(&[&[INT, INT]]),
  Adt(&[&[BOOL], &[EMPTY]]),
  Adt(&[&[BOOL, E3, BOOL]]),
  Adt(&[&[], &[PAIR]]),
  Adt(&[&[], &[TREE, TREE]]),
  Byte(5),
  Adt(&[&[BYTE, BYTE]]),
  Adt(&[&[BOOL, EMPTY]]),
  Enum(12),
  Adt(&[&[E6, E6]]),
  Enum(6),
  Adt(&[&[OPT, OPT]]),
  Adt(&[&[]]),
  Adt(&[&[BOOL], &[BOOL, E3], &[]]),
  Adt(&[&[BOOL, BOOL, BOOL, BOOL, BOOL, BOOL]]),
  Adt(&[&[], &[INT, LIST_INT]]),
  Enum(100),
  Adt(&[&[E12, E12]]),
  Adt(&[&[BOOL; 20]]),
  Adt(&[&[], &[UNIT, NAT]]),
];

#[derive(Debug, Clone, PartialEq)]
enum Con {
  Any,
  Tag(u8),
  Lit(u8),
  /// all integers but these
  Other(u128),
  /// inclusive
  Range(u8, u8),
}

/// How the language answers `split`. All of them are legitimate.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Split {
  /// every constructor, always (not for recursive types)
  Full,
  /// at depth 0, or if some constructor was already seen
  Lazy,
  /// only if some constructor was already seen
  Laziest,
  /// everything above that depth, else like Lazy; constructors in the opposite order
  Deep(usize),
}

struct Cx {
  mode: Split,
  calls: usize,
  fail_at: usize,
  failed: bool,
  late: bool,
}

const THE_ERROR: &str = "the language refuses";

impl Cx {
  fn tick(&mut self) -> Result<(), CheckError> {
    if self.failed {
      self.late = true;
    }
    if self.calls == self.fail_at {
      self.calls += 1;
      self.failed = true;
      return Err(CheckError(THE_ERROR));
    }
    self.calls += 1;
    Ok(())
  }
}

struct L;
type Pat = pattern_match::Pat<L>;

impl Lang for L {
  type Cx = Cx;
  type PatIdx = u32;
  type Con = Con;
  type Ty = Ty;

  fn any() -> Con {
    Con::Any
  }

  fn split<'a, I>(cx: &mut Cx, ty: &Ty, con: &Con, cons: I, depth: usize) -> Result<Vec<Con>, CheckError>
  where
    Con: 'a,
    I: Iterator<Item = &'a Con>,
  {
    cx.tick()?;
    let def = &DEFS[ty.0];
    if let Byte(n) = def {
      // cut at every boundary of a seen range
      let (lo, hi) = match con {
        Con::Any => (0, n - 1),
        Con::Range(a, b) => (*a, *b),
        _ => return Err(CheckError("ill-typed pattern in split")),
      };
      let mut cuts: BTreeSet<u8> = BTreeSet::new();
      cuts.insert(lo);
      for c in cons {
        if let Con::Range(a, b) = c {
          cuts.insert(*a);
          cuts.insert(*b + 1);
        }
      }
      let cuts: Vec<u8> = cuts.into_iter().filter(|&x| x >= lo && x <= hi).chain([hi + 1]).collect();
      return Ok(cuts.windows(2).map(|w| Con::Range(w[0], w[1] - 1)).collect());
    }
    if *con != Con::Any {
      return Ok(vec![con.clone()]);
    }
    let seen: Vec<&Con> = cons.filter(|&c| *c != Con::Any).collect();
    let all = match cx.mode {
      Split::Full => true,
      Split::Lazy => depth == 0 || !seen.is_empty(),
      Split::Laziest => !seen.is_empty(),
      Split::Deep(k) => depth < k || !seen.is_empty(),
    };
    let mut ret: Vec<Con> = match def {
      Adt(v) if v.is_empty() => vec![],
      _ if !all => return Ok(vec![Con::Any]),
      Adt(v) => (0..v.len() as u8).map(Con::Tag).collect(),
      Enum(n) => (0..*n).map(Con::Lit).collect(),
      Int => {
        let mut mask = 0_u128;
        for c in seen {
          if let Con::Lit(n) = c {
            mask |= 1 << n;
          }
        }
        (0..128).filter(|i| mask >> i & 1 == 1).map(|i| Con::Lit(i as u8)).chain([Con::Other(mask)]).collect()
      }
      Byte(_) => unreachable!(),
    };
    if let Split::Deep(_) = cx.mode {
      ret.reverse();
    }
    Ok(ret)
  }

  fn get_arg_tys(cx: &mut Cx, ty: &Ty, con: &Con) -> Result<Vec<Ty>, CheckError> {
    cx.tick()?;
    match (con, &DEFS[ty.0]) {
      (Con::Tag(n), Adt(cons)) => match cons.get(*n as usize) {
        Some(args) => Ok(args.to_vec()),
        None => Err(CheckError("no such constructor")),
      },
      _ => Ok(vec![]),
    }
  }

  fn covers(lhs: &Con, rhs: &Con) -> bool {
    match (lhs, rhs) {
      (Con::Any, _) => true,
      (Con::Range(a, b), Con::Range(x, y)) => a <= x && y <= b,
      _ => lhs == rhs,
    }
  }
}

// ---------------------------------------------------------------------------------------------
// values

#[derive(Debug, Clone, PartialEq)]
struct V(u8, Vec<V>);

/// The values of a type; recursive ones and integers up to what patterns can tell apart.
fn values(ty: Ty, depth: usize) -> Vec<V> {
  match &DEFS[ty.0] {
    Enum(n) | Byte(n) => (0..*n).map(|i| V(i, vec![])).collect(),
    // patterns mention 0, 1, 2; 100 stands for all others
    Int => [0, 1, 2, 100].map(|i| V(i, vec![])).to_vec(),
    Adt(cons) => {
      let mut ret = vec![];
      for (i, args) in cons.iter().enumerate() {
        if depth == 0 && args.contains(&ty) {
          continue;
        }
        let mut rows: Vec<Vec<V>> = vec![vec![]];
        for &a in *args {
          let rec = a == ty;
          let vs = values(a, if rec { depth - 1 } else { depth });
          rows = rows
            .into_iter()
            .flat_map(|r| {
              vs.iter().map(move |v| {
                let mut r = r.clone();
                r.push(v.clone());
                r
              })
            })
            .collect();
        }
        ret.extend(rows.into_iter().map(|r| V(i as u8, r)));
      }
      ret
    }
  }
}

fn con_matches(con: &Con, v: &V) -> bool {
  match con {
    Con::Any => true,
    Con::Tag(n) | Con::Lit(n) => *n == v.0,
    Con::Other(mask) => v.0 >= 128 || mask >> v.0 & 1 == 0,
    Con::Range(a, b) => *a <= v.0 && v.0 <= *b,
  }
}

fn matches(p: &Pat, v: &V) -> bool {
  match &p.raw {
    RawPat::Or(ps) => ps.iter().any(|p| matches(p, v)),
    RawPat::Con(ConPat { con, args }) => {
      con_matches(con, v) && (*con == Con::Any || args.iter().zip(&v.1).all(|(p, v)| matches(p, v)))
    }
  }
}

/// Adds the identifiers through which `v` (which matches) is matched.
fn reach(p: &Pat, v: &V, ac: &mut BTreeSet<u32>) {
  ac.extend(p.idx);
  match &p.raw {
    RawPat::Or(ps) => {
      if let Some(p) = ps.iter().find(|p| matches(p, v)) {
        reach(p, v, ac);
      }
    }
    RawPat::Con(ConPat { con, args }) => {
      if *con != Con::Any {
        for (p, v) in args.iter().zip(&v.1) {
          reach(p, v, ac);
        }
      }
    }
  }
}

fn indices(p: &Pat, ac: &mut BTreeSet<u32>) {
  ac.extend(p.idx);
  match &p.raw {
    RawPat::Or(ps) => ps.iter().for_each(|p| indices(p, ac)),
    RawPat::Con(c) => c.args.iter().for_each(|p| indices(p, ac)),
  }
}

fn has_or(p: &Pat) -> bool {
  match &p.raw {
    RawPat::Or(_) => true,
    RawPat::Con(c) => c.args.iter().any(has_or),
  }
}

fn show(p: &Pat) -> String {
  let s = match &p.raw {
    RawPat::Or(ps) => format!("({})", ps.iter().map(show).collect::<Vec<_>>().join(" | ")),
    RawPat::Con(c) => {
      let mut s = match &c.con {
        Con::Any => "_".to_owned(),
        Con::Tag(n) => format!("C{n}"),
        Con::Lit(n) => format!("{n}"),
        Con::Other(m) => format!("not{:?}", (0..128).filter(|i| m >> i & 1 == 1).collect::<Vec<_>>()),
        Con::Range(a, b) => format!("{a}..={b}"),
      };
      if !c.args.is_empty() {
        s += &format!("({})", c.args.iter().map(show).collect::<Vec<_>>().join(", "));
      }
      s
    }
  };
  match p.idx {
    Some(i) => format!("{s}@{i}"),
    None => s,
  }
}

fn show_all(ps: &[Pat]) -> String {
  ps.iter().map(show).collect::<Vec<_>>().join(" ; ")
}

fn verify(c: &mut Ch<'_>, pats: &[Pat], ty: Ty, vals: &[V], mode: Split, which: Which) -> Res {
  c.log(|| format!("type {ty:?}, split {mode:?}, patterns: {}", show_all(pats)));
  let mut cx = Cx { mode, calls: 0, fail_at: usize::MAX, failed: false, late: false };
  let got = pattern_match::check::<L>(&mut cx, pats.to_vec(), ty)
    .map_err(|e| format!("well-typed patterns {} caused an error: {e}", show_all(pats)))?;
  let mut first: BTreeSet<u32> = BTreeSet::new();
  let mut n_missing = 0;
  for v in vals {
    let hit = pats.iter().find(|p| matches(p, v));
    match hit {
      Some(p) => {
        if which == Which::Unreachable {
          reach(p, v, &mut first);
        }
      }
      None => n_missing += 1,
    }
    if which == Which::Missing {
      ensure_eq!(
        got.missing.iter().any(|m| matches(m, v)),
        hit.is_none(),
        "patterns {} (split {mode:?}), reported missing: [{}]. whether {v:?} is missing",
        show_all(pats),
        show_all(&got.missing)
      );
    }
    c.checks(1);
  }
  match which {
    Which::Missing => {
      ensure!(!got.missing.iter().any(has_or), "or-pattern in missing: {}", show_all(&got.missing));
      ensure_eq!(got.missing.is_empty(), n_missing == 0, "patterns {}: exhaustive", show_all(pats));
      c.outcome(if n_missing == 0 { "exhaustive" } else { "not exhaustive" });
    }
    Which::Unreachable => {
      let mut all = BTreeSet::new();
      pats.iter().for_each(|p| indices(p, &mut all));
      let want: BTreeSet<u32> = all.difference(&first).copied().collect();
      let unr: BTreeSet<u32> = got.unreachable.iter().copied().collect();
      ensure_eq!(unr, want, "unreachable of {} (split {mode:?})", show_all(pats));
      c.outcome(if want.is_empty() { "all reachable" } else { "some unreachable" });
    }
  }
  c.state(&(show_all(pats), ty.0));
  Ok(())
}

// ---------------------------------------------------------------------------------------------
// enumeration of patterns

struct Gen {
  next: u32,
  ors: usize,
  /// how many alternatives an or-pattern may have
  alts: &'static [usize],
  /// leave trailing arguments out
  short: bool,
  /// allow patterns without identifier
  anon: bool,
  /// remaining constructor nodes with arguments
  nodes: usize,
}

impl Gen {
  fn idx(&mut self, c: &mut Ch<'_>) -> Option<u32> {
    self.next += 1;
    if self.anon && c.flag() { None } else { Some(self.next - 1) }
  }

  fn pat(&mut self, c: &mut Ch<'_>, ty: Ty) -> Pat {
    let idx = self.idx(c);
    let raw = self.raw(c, ty);
    Pat { raw, idx }
  }

  fn raw(&mut self, c: &mut Ch<'_>, ty: Ty) -> RawPat<L> {
    let zero = |con| RawPat::Con(ConPat { con, args: vec![] });
    let ors = usize::from(self.ors > 0);
    let n = match &DEFS[ty.0] {
      Adt(cons) => cons.iter().filter(|a| a.is_empty() || self.nodes > 0).count(),
      Enum(n) => *n as usize,
      Int => 3,
      Byte(n) => (*n as usize * (*n as usize + 1)) / 2,
    };
    let k = c.pick(1 + n + ors);
    if k == 0 {
      return zero(Con::Any);
    }
    if k == n + 1 {
      self.ors -= 1;
      let m = *c.of(self.alts);
      return RawPat::Or((0..m).map(|_| self.pat(c, ty)).collect());
    }
    let k = k - 1;
    match &DEFS[ty.0] {
      Adt(cons) => {
        let (tag, args) =
          cons.iter().enumerate().filter(|(_, a)| a.is_empty() || self.nodes > 0).nth(k).expect("counted");
        if args.is_empty() {
          return zero(Con::Tag(tag as u8));
        }
        self.nodes -= 1;
        let len = if self.short { args.len() - c.pick(args.len() + 1) } else { args.len() };
        let args = args[..len].iter().map(|&t| self.pat(c, t)).collect();
        RawPat::Con(ConPat { con: Con::Tag(tag as u8), args })
      }
      Enum(_) | Int => zero(Con::Lit(k as u8)),
      Byte(n) => {
        let mut k = k;
        for a in 0..*n {
          let len = (*n - a) as usize;
          if k < len {
            return zero(Con::Range(a, a + k as u8));
          }
          k -= len;
        }
        unreachable!()
      }
    }
  }
}

struct Sp {
  name: &'static str,
  ty: Ty,
  rows: usize,
  ors: usize,
  alts: &'static [usize],
  short: bool,
  anon: bool,
  nodes: usize,
  vdepth: usize,
  modes: &'static [Split],
}

const ALL: &[Split] = &[Split::Full, Split::Lazy, Split::Laziest, Split::Deep(2)];
const REC: &[Split] = &[Split::Lazy, Split::Laziest, Split::Deep(2)];

fn spaces(x: &Ctx) -> Vec<Sp> {
  let d = Sp {
    name: "",
    ty: BOOL,
    rows: 3,
    ors: 1,
    alts: &[2],
    short: false,
    anon: false,
    nodes: 9,
    vdepth: 0,
    modes: ALL,
  };
  macro_rules! sp { ($($k:ident: $v:expr),* $(,)?) => { Sp { $($k: $v,)* ..Sp { ..d } } } }
  let mut v = vec![
    sp!(name: "bool", ty: BOOL, rows: 3, ors: 2, alts: x.by(&[0, 2], &[0, 1, 2]), anon: true),
    sp!(name: "enum of 3", ty: E3, rows: x.by(3, 4), ors: 2, alts: &[0, 2, 3]),
    sp!(name: "empty type", ty: EMPTY, rows: 3, ors: 2, alts: &[0, 1, 2], anon: true),
    sp!(name: "unit type", ty: UNIT, rows: 4, ors: 1, alts: &[0, 1, 2], anon: true),
    sp!(name: "option", ty: OPT, rows: 4, ors: x.by(1, 2), alts: &[0, 1, 2]),
    sp!(name: "pair", ty: PAIR, rows: x.by(4, 5), ors: 0),
    sp!(name: "pair, or", ty: PAIR, rows: x.by(3, 4), ors: 1, alts: &[2]),
    sp!(name: "pair, ors", ty: PAIR, rows: x.by(2, 3), ors: 2, alts: &[2]),
    sp!(name: "pair, wide ors and missing arguments", ty: PAIR, rows: 2, ors: x.by(1, 2), alts: &[0, 1, 2], short: true),
    sp!(name: "nested option", ty: OPT_PAIR, rows: 3, ors: 0, short: true),
    sp!(name: "nested option, or", ty: OPT_PAIR, rows: 2, ors: 1, short: true),
    sp!(name: "pair of options", ty: PAIR_OPT, rows: 2, ors: 1),
    sp!(name: "triple", ty: TRIPLE, rows: 2, ors: 1),
    sp!(name: "variants", ty: EITHER, rows: x.by(3, 4), ors: 0, short: true),
    sp!(name: "variants, or", ty: EITHER, rows: 2, ors: 1, short: true),
    sp!(name: "result with empty", ty: RES, rows: 3, ors: 2, alts: &[0, 2]),
    sp!(name: "pair with empty", ty: PAIR_EMPTY, rows: 3, ors: 1, alts: &[0, 2], modes: &[Split::Full]),
    sp!(name: "integers", ty: INT, rows: x.by(3, 4), ors: 2, alts: &[0, 2, 3]),
    sp!(name: "pair of integers", ty: PAIR_INT, rows: x.by(4, 4), ors: 0),
    sp!(name: "pair of integers, or", ty: PAIR_INT, rows: x.by(2, 3), ors: 1),
    sp!(name: "ranges", ty: BYTE, rows: 3, ors: 1),
    sp!(name: "pair of ranges", ty: PAIR_BYTE, rows: 2, ors: 0),
    sp!(name: "list", ty: LIST, rows: x.by(3, 4), ors: 0, nodes: x.by(4, 5), vdepth: 6, modes: REC),
    sp!(name: "list, or", ty: LIST, rows: x.by(2, 3), ors: x.by(1, 2), nodes: 3, vdepth: 4, modes: REC),
    sp!(name: "list of integers", ty: LIST_INT, rows: 2, ors: 1, nodes: 3, vdepth: 4, modes: REC),
    sp!(name: "tree", ty: TREE, rows: 3, ors: x.by(0, 1), nodes: x.by(4, 5), vdepth: 3, modes: REC),
    sp!(name: "six arguments", ty: WIDE, rows: x.by(1, 2), ors: 0),
  ];
  if x.thorough() {
    v.extend([
      sp!(name: "nested option, deeper", ty: OPT_PAIR, rows: 3, ors: 1),
      sp!(name: "pair of options, three", ty: PAIR_OPT, rows: 3, ors: 1),
      sp!(name: "triple, three", ty: TRIPLE, rows: 3, ors: 0),
      sp!(name: "variants, ors", ty: EITHER, rows: 3, ors: 1, short: true),
      sp!(name: "six arguments, or", ty: WIDE, rows: 1, ors: 1, short: true),
      sp!(name: "list of integers, three", ty: LIST_INT, rows: 3, ors: 0, nodes: 4, vdepth: 5, modes: REC),
    ]);
  }
  v
}

fn explore(x: &mut Ctx, which: Which) {
  for sp in spaces(x) {
    // deepest point a pattern can look at is bounded by `nodes`; trees would explode, so theirs are
    // bounded in the generator by discarding deeper ones
    let vals = values(sp.ty, sp.vdepth);
    let bound = format!(
      "<= {} patterns, <= {} or-patterns of {:?} alternatives, missing arguments {}, anonymous {}, <= {} constructor \
       nodes, {} values, split {:?}",
      sp.rows, sp.ors, sp.alts, sp.short, sp.anon, sp.nodes, vals.len(), sp.modes
    );
    let tree = sp.ty == TREE;
    x.space(sp.name, &bound, move |c: &mut Ch<'_>| {
      let n = c.pick(sp.rows + 1);
      let mut g =
        Gen { next: 10, ors: sp.ors, alts: sp.alts, short: sp.short, anon: sp.anon, nodes: sp.nodes };
      let pats: Vec<Pat> = (0..n).map(|_| g.pat(c, sp.ty)).collect();
      if tree && pats.iter().any(|p| depth(p) > 3) {
        return Ok(());
      }
      let mode = *c.of(sp.modes);
      verify(c, &pats, sp.ty, &vals, mode, which)
    });
  }

  // long matches: a complete one with up to two rows changed
  let budget = x.by(1, 2);
  let e12 = values(E12, 0);
  x.space("twelve constants", &format!("12 rows in order and a wildcard, {budget} rows replaced, dropped or doubled"), {
    move |c: &mut Ch<'_>| {
      let mut b = budget + 1;
      let mut pats = vec![];
      let mut next = 0;
      let mut lit = |k: u8| {
        next += 1;
        let con = if k == 12 { Con::Any } else { Con::Lit(k) };
        Pat::zero(con, next)
      };
      for k in 0..13 {
        match c.deviate(&mut b, 5) {
          0 => pats.push(lit(k)),
          1 => {}
          2 => {
            pats.push(lit(k));
            pats.push(lit(k));
          }
          3 => pats.push(lit(0)),
          _ => pats.push(lit(12)),
        }
      }
      let mode = *c.of(ALL);
      verify(c, &pats, E12, &e12, mode, which)
    }
  });
  let e6 = values(PAIR_E6, 0);
  x.space("pairs of six", &format!("36 rows, {budget} rows replaced by another one, one dropped or generalised"), {
    move |c: &mut Ch<'_>| {
      let mut b = budget;
      let mut pats = vec![];
      let mut next = 0;
      let mut lit = |k: usize| {
        next += 1;
        let con = if k == 6 { Con::Any } else { Con::Lit(k as u8) };
        Pat::zero(con, next)
      };
      let order = c.flag();
      for k in 0..36 {
        let (p, q) = if order { (k / 6, k % 6) } else { (k % 6, k / 6) };
        let (p, q) = match c.deviate(&mut b, 6) {
          0 => (p, q),
          1 => continue,
          2 => (6, q),
          3 => (p, 6),
          4 => (q, p),
          _ => (0, q),
        };
        let (p, q) = (lit(p), lit(q));
        pats.push(Pat::con(Con::Tag(0), vec![p, q], 100 + k as u32));
      }
      verify(c, &pats, PAIR_E6, &e6, Split::Lazy, which)
    }
  });
  x.space(
    "a hundred constants",
    "the first k of 100 constants for every k, as rows, as one or-pattern, as or-patterns of seven, or as an or-pattern of or-patterns, forwards or backwards; nothing or one again; then nothing, another constant or a wildcard",
    {
      let vals = values(E100, 0);
      move |c: &mut Ch<'_>| {
        let k = c.pick(101) as u8;
        let shape = c.pick(4);
        let back = c.flag();
        let again = if k > 0 { *c.of(&[None, Some(0), Some(k / 2), Some(k - 1)]) } else { None };
        let last = c.of(&[None, Some(Con::Lit(99)), Some(Con::Any)]).clone();
        let mut next = 0;
        let mut id = || {
          next += 1;
          next
        };
        let mut lits: Vec<u8> = (0..k).collect();
        if back {
          lits.reverse();
        }
        lits.extend(again);
        let zeros: Vec<Pat> = lits.iter().map(|&n| Pat::zero(Con::Lit(n), id())).collect();
        let mut pats = match shape {
          0 => zeros,
          1 => vec![Pat::or(zeros, id())],
          _ => zeros.chunks(7).map(|z| Pat::or(z.to_vec(), id())).collect(),
        };
        if shape == 3 {
          pats = vec![Pat::or(pats, id())];
        }
        pats.extend(last.map(|con| Pat::zero(con, id())));
        let mode = *c.of(&[Split::Full, Split::Laziest]);
        verify(c, &pats, E100, &vals, mode, which)
      }
    },
  );
  x.space(
    "pairs of twelve",
    "two rows of pairs, each part a constant, a wildcard or an or-pattern of the first k: up to 144 missing ones",
    {
      let vals = values(PAIR_E12, 0);
      let rows = x.by(1, 2);
      move |c: &mut Ch<'_>| {
        let mut next = 0;
        let mut pats = vec![];
        for _ in 0..c.pick(rows + 1) {
          let mut parts = vec![];
          for _ in 0..2 {
            let k = c.pick(25) as u8;
            let mut zero = |con| {
              next += 1;
              Pat::zero(con, next)
            };
            parts.push(match k {
              0..12 => zero(Con::Lit(k)),
              12 => zero(Con::Any),
              _ => {
                let ps = (12..k).map(|n| zero(Con::Lit(n - 12))).collect();
                next += 1;
                Pat::or(ps, next)
              }
            });
          }
          next += 1;
          pats.push(Pat::con(Con::Tag(0), parts, next));
        }
        let mode = *c.of(&[Split::Full, Split::Laziest, Split::Deep(2)]);
        verify(c, &pats, PAIR_E12, &vals, mode, which)
      }
    },
  );
  x.space(
    "twenty arguments",
    "up to 2 rows (thorough 3) of 20 booleans, each row testing one or two places, all places; the other arguments wildcards or missing, with or without identifiers",
    {
      let rows = x.by(2, 3);
      let places: Vec<usize> = x.by(vec![0, 1, 9, 15, 16, 18, 19], (0..20).collect());
      let three: Vec<usize> = vec![0, 1, 9, 16, 19];
      move |c: &mut Ch<'_>| {
        let mut next = 0;
        let mut pats = vec![];
        let mut tested = BTreeSet::new();
        let n = c.pick(rows + 1);
        let places = if n < 3 { &places } else { &three };
        let anon = c.flag();
        for _ in 0..n {
          let a = c.pick(places.len());
          let b = c.pick(places.len());
          // the second one is to the right of the first, or there is none
          if b < a {
            return Ok(());
          }
          let tests = [(places[a], c.pick(2)), (places[b], if a == b { 0 } else { c.pick(2) })];
          let missing = c.flag();
          let mut args = vec![];
          let tests: Vec<_> = tests.into_iter().take(if a == b { 1 } else { 2 }).collect();
          for i in 0..20 {
            next += 1;
            match tests.iter().find(|t| t.0 == i) {
              Some(t) => {
                tested.insert(i);
                args.push(Pat::zero(Con::Tag(t.1 as u8), next));
              }
              None if missing && i > tests.last().unwrap().0 => break,
              None if anon => args.push(Pat::any_no_idx()),
              None => args.push(Pat::zero(Con::Any, next)),
            }
          }
          next += 1;
          pats.push(Pat::con(Con::Tag(0), args, next));
        }
        // only the tested places matter
        let tested: Vec<usize> = tested.into_iter().collect();
        let vals: Vec<V> = (0..1_usize << tested.len())
          .map(|bits| {
            let mut args = vec![V(0, vec![]); 20];
            for (j, &i) in tested.iter().enumerate() {
              args[i] = V((bits >> j & 1) as u8, vec![]);
            }
            V(0, args)
          })
          .collect();
        verify(c, &pats, TUPLE20, &vals, Split::Laziest, which)
      }
    },
  );
  x.space(
    "numbers",
    "up to 2 rows (thorough 3), each a chain of n constructors for every n <= 40, open or closed",
    {
      let vals = values(NAT, 45);
      let rows = x.by(2, 3);
      let most: usize = 40;
      move |c: &mut Ch<'_>| {
        let mut next = 0;
        let mut pats = vec![];
        let n = c.pick(rows + 1);
        for _ in 0..n {
          let len = if n < 3 { c.pick(most + 1) } else { *c.of(&[0, 1, 2, 15, 16, 17, 31, 32, 33, 40]) };
          let mut id = || {
            next += 1;
            next
          };
          let mut p = Pat::zero(if c.flag() { Con::Tag(0) } else { Con::Any }, id());
          for _ in 0..len {
            p = Pat::con(Con::Tag(1), vec![Pat::zero(Con::Any, id()), p], id());
          }
          pats.push(p);
        }
        let mode = *c.of(&[Split::Lazy, Split::Laziest, Split::Deep(2)]);
        verify(c, &pats, NAT, &vals, mode, which)
      }
    },
  );
  x.space(
    "long numbers",
    "one or two chains of 64, 65, 128, 129 (thorough: and 255-257, 513) constructors, open or closed; numbers to 520 that tell them apart",
    {
      let lens: &'static [usize] = x.by(&[64, 65, 128, 129], &[63, 64, 65, 127, 128, 129, 255, 256, 257, 513]);
      let mut vals: Vec<V> = vec![];
      let mut v = V(0, vec![]);
      for n in 0..=520 {
        if lens.iter().any(|l| n >= l - 1 && n <= l + 2) || n < 2 || n == 520 {
          vals.push(v.clone());
        }
        v = V(1, vec![V(0, vec![]), v]);
      }
      move |c: &mut Ch<'_>| {
        let mut next = 0;
        let mut pats = vec![];
        for _ in 0..1 + c.pick(2) {
          let mut id = || {
            next += 1;
            next
          };
          let mut p = Pat::zero(if c.flag() { Con::Tag(0) } else { Con::Any }, id());
          for _ in 0..*c.of(lens) {
            p = Pat::con(Con::Tag(1), vec![Pat::zero(Con::Any, id()), p], id());
          }
          pats.push(p);
        }
        let mode = *c.of(&[Split::Laziest, Split::Deep(2)]);
        verify(c, &pats, NAT, &vals, mode, which)
      }
    },
  );
  x.space("nested or-patterns", "or-patterns nested up to 3 deep over an enumeration, <= 2 patterns, all split modes", {
    let e3 = values(E3, 0);
    let big = x.thorough();
    move |c: &mut Ch<'_>| {
      fn go(c: &mut Ch<'_>, depth: usize, next: &mut u32) -> Pat {
        *next += 1;
        let idx = *next;
        let k = c.pick(if depth == 0 { 4 } else { 5 });
        match k {
          0..3 => Pat::zero(Con::Lit(k as u8), idx),
          3 => Pat::zero(Con::Any, idx),
          _ => {
            let n = c.pick(3);
            let ps = (0..n).map(|_| go(c, depth - 1, next)).collect();
            Pat::or(ps, idx)
          }
        }
      }
      let mut next = 0;
      let a = go(c, 2, &mut next);
      let mut pats = vec![a];
      if c.flag() {
        pats.push(go(c, if big { 2 } else { 1 }, &mut next));
      }
      let mode = *c.of(&[Split::Full, Split::Laziest]);
      verify(c, &pats, E3, &e3, mode, which)
    }
  });
  x.space("deep lists", "list patterns of length 0..=4 (thorough 6), constant elements, open or closed, <= 3 patterns, all pairs", {
    let vals = values(LIST, 7);
    let len = x.by(4, 6);
    let rows = 3;
    move |c: &mut Ch<'_>| {
      let mut pats = vec![];
      let mut next = 0;
      for _ in 0..rows {
        let n = c.pick(len + 1);
        let elem = c.pick(3);
        let closed = c.flag();
        let mut id = || {
          next += 1;
          next
        };
        let mut p = Pat::zero(if closed { Con::Tag(0) } else { Con::Any }, id());
        for i in 0..n {
          let e = match elem {
            0 => Con::Any,
            1 => Con::Tag(0),
            _ => Con::Tag((i % 2) as u8),
          };
          let e = Pat::zero(e, id());
          p = Pat::con(Con::Tag(1), vec![e, p], id());
        }
        pats.push(p);
      }
      let mode = *c.of(REC);
      verify(c, &pats, LIST, &vals, mode, which)
    }
  });
}

fn depth(p: &Pat) -> usize {
  match &p.raw {
    RawPat::Or(ps) => ps.iter().map(depth).max().unwrap_or(0),
    RawPat::Con(c) => c.args.iter().map(|p| 1 + depth(p)).max().unwrap_or(usize::from(c.con != Con::Any)),
  }
}

// ---------------------------------------------------------------------------------------------

/// Damages the n-th sub-pattern (in preorder); false if there are not that many.
fn damage(p: &mut Pat, n: &mut usize, how: usize, ty: Ty) -> bool {
  match &mut p.raw {
    RawPat::Or(ps) => ps.iter_mut().any(|p| damage(p, n, how, ty)),
    RawPat::Con(c) => {
      let tys: &[Ty] = match (&c.con, &DEFS[ty.0]) {
        (Con::Tag(t), Adt(cons)) => cons[*t as usize],
        _ => &[],
      };
      if *n == 0 {
        while c.args.len() < tys.len() {
          c.args.push(Pat::any_no_idx());
        }
        let extra = Pat::zero(Con::Any, 9999);
        match how {
          0 => c.args.push(extra),
          1 => c.args.extend([extra.clone(), extra]),
          // in front, so that the last proper one is the one too many
          _ => c.args.insert(0, Pat::any_no_idx()),
        }
        return true;
      }
      *n -= 1;
      c.args.iter_mut().zip(tys).any(|(p, &t)| damage(p, n, how, t))
    }
  }
}

fn p16(x: &mut Ctx) {
  let mut list: Vec<(&'static str, Ty, usize, usize, usize, &'static [Split])> = vec![
    ("bool", BOOL, 3, 1, 9, ALL),
    ("option", OPT, 3, 1, 9, ALL),
    ("pair", PAIR, 2, 1, 9, ALL),
    ("variants", EITHER, 2, 1, 9, ALL),
    ("ranges", BYTE, 2, 1, 9, ALL),
    ("pair of integers", PAIR_INT, 2, 0, 9, ALL),
    ("list", LIST, 2, 1, 2, REC),
    ("tree", TREE, 2, 0, 3, REC),
  ];
  if x.thorough() {
    list[2].2 = 3;
    list[3].2 = 3;
    list[4].2 = 3;
    list[6].4 = 3;
    list.push(("nested option", OPT_PAIR, 2, 1, 9, ALL));
    list.push(("pair of options", PAIR_OPT, 2, 1, 9, ALL));
  }
  for &(name, ty, rows, ors, nodes, modes) in &list {
    x.space(
      &format!("failing language: {name}"),
      &format!("<= {rows} patterns, <= {ors} or-patterns, <= {nodes} nodes; the language fails at each of its calls in turn"),
      move |c: &mut Ch<'_>| {
        let n = c.pick(rows + 1);
        let mut g = Gen { next: 10, ors, alts: &[2], short: true, anon: false, nodes };
        let pats: Vec<Pat> = (0..n).map(|_| g.pat(c, ty)).collect();
        let mode = *c.of(modes);
        c.log(|| format!("type {ty:?}, split {mode:?}, patterns: {}", show_all(&pats)));
        let mut fail_at = 0;
        loop {
          let mut cx = Cx { mode, calls: 0, fail_at, failed: false, late: false };
          let r = catch(|| pattern_match::check::<L>(&mut cx, pats.clone(), ty));
          let what = || format!("patterns {}, language call {fail_at} fails (split {mode:?})", show_all(&pats));
          c.checks(1);
          match r {
            Err(p) => bail!("{}: panic: {p}", what()),
            Ok(Ok(_)) => {
              ensure!(!cx.failed, "{}: the failure was lost, a result was returned", what());
              break;
            }
            Ok(Err(e)) => {
              ensure!(cx.failed, "well-typed patterns {} caused the error {:?}", show_all(&pats), e.0);
              ensure_eq!(e.0, THE_ERROR, "{}: error", what());
              ensure!(!cx.late, "{}: the check went on calling the language", what());
            }
          }
          fail_at += 1;
        }
        c.outcome("all calls failed once");
        c.state(&(show_all(&pats), ty.0));
        Ok(())
      },
    );
    x.space(
      &format!("malformed: {name}"),
      &format!("<= {rows} patterns, <= {ors} or-patterns, <= {nodes} nodes; one of them given too many arguments, at every place"),
      move |c: &mut Ch<'_>| {
        let n = 1 + c.pick(rows);
        let mut g = Gen { next: 10, ors, alts: &[1, 2], short: false, anon: false, nodes };
        let mut pats: Vec<Pat> = (0..n).map(|_| g.pat(c, ty)).collect();
        let mode = *c.of(modes);
        let places: usize = pats.iter().map(count).sum();
        let mut at = c.pick(places);
        let how = c.pick(3);
        if !pats.iter_mut().any(|p| damage(p, &mut at, how, ty)) {
          mcx::machinery("no such place");
        }
        c.log(|| format!("type {ty:?}, split {mode:?}, patterns: {}", show_all(&pats)));
        let mut cx = Cx { mode, calls: 0, fail_at: usize::MAX, failed: false, late: false };
        c.checks(1);
        match catch(|| pattern_match::check::<L>(&mut cx, pats.clone(), ty)) {
          Err(p) => bail!("patterns {} (split {mode:?}): panic: {p}", show_all(&pats)),
          Ok(Ok(_)) => bail!("patterns {} (split {mode:?}): a result was returned", show_all(&pats)),
          Ok(Err(e)) => {
            ensure!(e.to_string().contains(e.0), "display of the error lacks its message");
            c.outcome("refused");
          }
        }
        Ok(())
      },
    );
  }
  p16_large(x);
}

/// Large patterns, well-typed, that are told apart by numbers.
fn large(c: &mut Ch<'_>) -> (Ty, Vec<Pat>) {
  let mut next = 0;
  let mut id = || {
    next += 1;
    next
  };
  match *c.of(&["constants", "numbers", "long number", "arguments", "pairs"]) {
    "constants" => {
      let k = *c.of(&[1u8, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100]);
      let zeros: Vec<Pat> = (0..k).map(|n| Pat::zero(Con::Lit(n), id())).collect();
      let pats = match c.pick(3) {
        0 => zeros,
        1 => vec![Pat::or(zeros, id())],
        _ => zeros.chunks(7).map(|z| Pat::or(z.to_vec(), id())).collect(),
      };
      (E100, pats)
    }
    "numbers" => {
      let mut pats = vec![];
      for _ in 0..1 + c.pick(2) {
        let mut p = Pat::zero(c.of(&[Con::Tag(0), Con::Any]).clone(), id());
        for _ in 0..*c.of(&[0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40]) {
          p = Pat::con(Con::Tag(1), vec![Pat::zero(Con::Any, id()), p], id());
        }
        pats.push(p);
      }
      (NAT, pats)
    }
    "long number" => {
      let mut p = Pat::zero(c.of(&[Con::Tag(0), Con::Any]).clone(), id());
      for _ in 0..*c.of(&[64, 129]) {
        p = Pat::con(Con::Tag(1), vec![Pat::zero(Con::Any, id()), p], id());
      }
      (NAT, vec![p])
    }
    "arguments" => {
      let mut pats = vec![];
      for _ in 0..1 + c.pick(2) {
        let (at, n) = (c.pick(20), 20 - c.pick(2));
        let args = (0..n).map(|i| Pat::zero(if i == at { Con::Tag(1) } else { Con::Any }, id())).collect();
        pats.push(Pat::con(Con::Tag(0), args, id()));
      }
      (TUPLE20, pats)
    }
    _ => {
      let k = *c.of(&[1u8, 3, 8, 9, 12]);
      let mut pats = vec![];
      for _ in 0..1 + c.pick(2) {
        let part: Vec<Pat> = (0..k).map(|n| Pat::zero(Con::Lit(n), id())).collect();
        let part = Pat::or(part, id());
        pats.push(Pat::con(Con::Tag(0), vec![part.clone(), part], id()));
      }
      (PAIR_E12, pats)
    }
  }
}

/// The numbers below n, or those near the ends and every few in between if there are many.
fn some(n: usize) -> Vec<usize> {
  let step = (n / 60).max(1);
  (0..n).filter(|i| *i < 12 || *i + 12 >= n || i % step == 0).collect()
}

fn p16_large(x: &mut Ctx) {
  x.space(
    "failing language: large",
    "up to 100 constants as rows or or-patterns, chains of up to 40, 20 arguments, pairs of or-patterns; the language fails at the first and the last 12 of its calls and about 60 in between",
    |c: &mut Ch<'_>| {
      let (ty, pats) = large(c);
      let mode = *c.of(&[Split::Laziest, Split::Deep(2)]);
      let mut cx = Cx { mode, calls: 0, fail_at: usize::MAX, failed: false, late: false };
      match catch(|| pattern_match::check::<L>(&mut cx, pats.clone(), ty)) {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => bail!("well-typed patterns of {ty:?} caused the error {:?}", e.0),
        Err(p) => bail!("well-typed patterns of {ty:?}: panic: {p}"),
      }
      for fail_at in some(cx.calls) {
        c.progress();
        c.checks(1);
        let mut cx = Cx { mode, calls: 0, fail_at, failed: false, late: false };
        let what = || format!("type {ty:?}, language call {fail_at} fails (split {mode:?}), patterns {}", show_all(&pats));
        match catch(|| pattern_match::check::<L>(&mut cx, pats.clone(), ty)) {
          Err(p) => bail!("{}: panic: {p}", what()),
          Ok(Ok(_)) => bail!("{}: the failure was lost, a result was returned", what()),
          Ok(Err(e)) => {
            ensure_eq!(e.0, THE_ERROR, "{}: error", what());
            ensure!(!cx.late, "{}: the check went on calling the language", what());
          }
        }
      }
      Ok(())
    },
  );
  x.space(
    "malformed: large",
    "the same; one of the parts given 1, 2, 17 or 300 surplus arguments, at the first and the last 12 places and about 60 in between",
    |c: &mut Ch<'_>| {
      let (ty, pats) = large(c);
      let mode = *c.of(&[Split::Laziest, Split::Deep(2)]);
      let places: usize = pats.iter().map(count).sum();
      let surplus = *c.of(&[1, 2, 17, 300]);
      for at in some(places) {
        c.progress();
        c.checks(1);
        let mut pats = pats.clone();
        let mut n = at;
        if !pats.iter_mut().any(|p| damage(p, &mut n, 0, ty)) {
          mcx::machinery("no such place");
        }
        for _ in 1..surplus {
          let mut n = at;
          // again: one more each time
          pats.iter_mut().any(|p| damage(p, &mut n, 0, ty));
        }
        let what = || format!("type {ty:?}, place {at} with {surplus} arguments too many, split {mode:?}");
        let mut cx = Cx { mode, calls: 0, fail_at: usize::MAX, failed: false, late: false };
        match catch(|| pattern_match::check::<L>(&mut cx, pats, ty)) {
          Err(p) => bail!("{}: panic: {p}", what()),
          Ok(Ok(_)) => bail!("{}: a result was returned", what()),
          Ok(Err(_)) => c.outcome("refused"),
        }
      }
      Ok(())
    },
  );
}

fn count(p: &Pat) -> usize {
  match &p.raw {
    RawPat::Or(ps) => ps.iter().map(count).sum(),
    RawPat::Con(c) => 1 + c.args.iter().map(count).sum::<usize>(),
  }
}
