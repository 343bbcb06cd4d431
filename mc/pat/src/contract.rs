//! P41: what the language is asked. Every place of the value matched on has a type of its own, and every
//! constructor of a pattern carries the row it stands in, so that each question shows what it is about.

use mcx::{Ch, Ctx, Res, bail, catch, ensure, ensure_eq};
use pattern_match::{Lang, Pat, Result};
use std::cell::RefCell;

/// A type is a place: 0 holds 1 and 2, 1 holds 3; and 4 holds 0's like (see `SHAPES`).
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct Ty(usize);

#[derive(Debug, Clone, Copy)]
enum Con {
  Any { row: Option<usize> },
  C { ty: usize, k: u32, row: Option<usize> },
}

impl Con {
  fn row(self) -> Option<usize> {
    match self {
      Con::Any { row } | Con::C { row, .. } => row,
    }
  }
}

/// per place: the constructors, each with the places of its arguments, or (with none) unboundedly many constants
type Shape = &'static [&'static [&'static [usize]]];

const NONE: &[usize] = &[];

const SHAPES: [(Shape, &str); 3] = [
  (
    &[&[NONE, &[1, 2]], &[NONE, &[3]], &[NONE, NONE, NONE], &[NONE, NONE]],
    "an option of a pair of an option of a boolean and one of three",
  ),
  (
    &[&[&[1, 2, 3]], &[], &[NONE, NONE], &[&[4]], &[]],
    "a triple of a number, a boolean and a boxed number",
  ),
  (
    &[&[&[1], &[2, 3]], &[&[4]], &[NONE, &[5]], &[NONE, NONE], &[NONE, NONE], &[]],
    "a box of a box of a boolean, or a pair of an option of a number and a boolean",
  ),
];

struct Cx {
  shape: Shape,
  /// how deep each place lies
  level: Vec<usize>,
  /// how many places can have been looked at before each
  before: Vec<usize>,
  /// the or-patterns, in all and per row
  ors: usize,
  or_in: Vec<bool>,
  /// the constructors at the top of each row
  tops: Vec<Vec<Option<u32>>>,
  splits: u64,
  err: Option<String>,
}

impl Cx {
  fn fault(&mut self, e: String) {
    self.err.get_or_insert(e);
  }

  fn owned(&mut self, what: &str, ty: Ty, con: &Con) {
    if let Con::C { ty: t, .. } = *con {
      if t != ty.0 {
        self.fault(format!("{what}: a constructor of place {t}, {con:?}, for place {}", ty.0));
      }
    }
  }
}

thread_local! {
  static COVERS: RefCell<Option<String>> = const { RefCell::new(None) };
}

struct L;

impl Lang for L {
  type Cx = Cx;
  type PatIdx = usize;
  type Con = Con;
  type Ty = Ty;

  fn any() -> Con {
    Con::Any { row: None }
  }

  fn split<'a, I>(cx: &mut Cx, ty: &Ty, con: &Con, cons: I, depth: usize) -> Result<Vec<Con>>
  where
    I: Iterator<Item = &'a Con>,
  {
    cx.splits += 1;
    let cons: Vec<Con> = cons.copied().collect();
    cx.owned("split", *ty, con);
    for c in &cons {
      cx.owned("split, already covered", *ty, c);
      if let (Some(this), Some(that)) = (con.row(), c.row()) {
        if that > this || that == this && !cx.or_in[this] {
          cx.fault(format!("row {this}'s {con:?} was split with {c:?}, of row {that}, as already covered"));
        }
      }
    }
    let (lo, hi) = (cx.level[ty.0], cx.before[ty.0] + cx.ors);
    if depth < lo || depth > hi {
      cx.fault(format!("place {} was split at depth {depth}, not one of {lo}..={hi}", ty.0));
    }
    // a wildcard of no row at the top is the one that looks for what is missing
    if let (0, row) = (ty.0, con.row().unwrap_or(cx.tops.len())) {
      if !cx.or_in.get(row).is_some_and(|&or| or) {
        let is = |k: u32| cons.iter().any(|c| matches!(c, Con::C { k: j, .. } if *j == k));
        let missed: Vec<u32> = cx.tops[..row].iter().flatten().filter_map(|&k| k).filter(|&k| !is(k)).collect();
        if !missed.is_empty() {
          cx.fault(format!("row {row} was split without the constructors {missed:?} of the rows before"));
        }
      }
    }
    let Con::Any { .. } = con else { return Ok(vec![*con]) };
    let defs = cx.shape[ty.0];
    let c = |k| Con::C { ty: ty.0, k, row: None };
    if !defs.is_empty() {
      return Ok((0..defs.len() as u32).map(c).collect());
    }
    // the numbers seen, and another
    let mut ks: Vec<u32> = cons
      .iter()
      .filter_map(|c| match c {
        Con::Any { .. } => None,
        Con::C { k, .. } => Some(*k),
      })
      .collect();
    ks.push(99);
    ks.sort_unstable();
    ks.dedup();
    Ok(ks.into_iter().map(c).collect())
  }

  fn get_arg_tys(cx: &mut Cx, ty: &Ty, con: &Con) -> Result<Vec<Ty>> {
    cx.owned("get_arg_tys", *ty, con);
    Ok(match con {
      Con::Any { .. } => vec![],
      Con::C { k, .. } => {
        cx.shape[ty.0].get(*k as usize).map_or(vec![], |args| args.iter().map(|&a| Ty(a)).collect())
      }
    })
  }

  fn covers(lhs: &Con, rhs: &Con) -> bool {
    match (*lhs, *rhs) {
      (Con::Any { .. }, _) => true,
      (Con::C { .. }, Con::Any { .. }) => false,
      (Con::C { ty: t, k, .. }, Con::C { ty: u, k: j, .. }) => {
        if t != u {
          COVERS.with(|f| f.borrow_mut().get_or_insert(format!("covers({lhs:?}, {rhs:?})")).len());
        }
        k == j
      }
    }
  }
}

struct Make<'a> {
  shape: Shape,
  row: usize,
  nodes: &'a mut usize,
  ors: &'a mut usize,
}

/// A pattern for a place, the constructors at its top, and how to write it.
fn pat(c: &mut Ch<'_>, m: &mut Make<'_>, ty: usize) -> (Pat<L>, Vec<Option<u32>>, String) {
  let defs = m.shape[ty];
  let row = Some(m.row);
  let n = if defs.is_empty() { 2 } else { defs.len() };
  let or = usize::from(*m.ors > 0 && *m.nodes > 1);
  let i = if *m.nodes == 0 { 0 } else { c.pick(1 + n + or) };
  if i == 0 {
    return (Pat::con(Con::Any { row }, vec![], 0), vec![None], "_".into());
  }
  *m.nodes -= 1;
  if i == 1 + n {
    *m.ors -= 1;
    let (a, mut x, s) = pat(c, m, ty);
    let (b, y, t) = pat(c, m, ty);
    x.extend(y);
    return (Pat::or(vec![a, b], 0), x, format!("({s} | {t})"));
  }
  let k = i as u32 - 1;
  let con = Con::C { ty, k, row };
  let places = if defs.is_empty() { NONE } else { defs[k as usize] };
  // the last arguments may be left out
  let given = if places.is_empty() || *m.nodes == 0 { 0 } else { places.len() - c.pick(places.len() + 1) };
  let mut args = vec![];
  let mut text = format!("c{k}");
  for (j, &p) in places[..given].iter().enumerate() {
    let (a, _, s) = pat(c, m, p);
    args.push(a);
    text += if j == 0 { "(" } else { ", " };
    text += &s;
  }
  if given > 0 {
    text += ")";
  }
  (Pat::con(con, args, 0), vec![Some(k)], text)
}

fn run(c: &mut Ch<'_>, rows: usize, nodes: usize, ors: usize) -> Res {
  let shape = c.pick(SHAPES.len());
  let (shape, _) = SHAPES[shape];
  let mut level = vec![0; shape.len()];
  let mut before = vec![0; shape.len()];
  // places before one: those that hold it, and what stands before it in them; arguments are looked at in order
  fn walk(shape: Shape, ty: usize, level: &mut [usize], before: &mut [usize], next: usize) -> usize {
    before[ty] = next;
    let mut end = next + 1;
    for args in shape[ty] {
      let mut at = next + 1;
      for &a in *args {
        level[a] = level[ty] + 1;
        at = walk(shape, a, level, before, at);
      }
      end = end.max(at);
    }
    end
  }
  let all = walk(shape, 0, &mut level, &mut before, 0);
  // in what order the arguments are looked at is not documented
  for (ty, b) in before.iter_mut().enumerate() {
    if ty != 0 {
      *b = (*b).max(all - 1);
    }
  }
  let mut nodes = nodes;
  let mut left = ors;
  let n = 1 + c.pick(rows);
  let (mut pats, mut tops, mut or_in, mut text) = (vec![], vec![], vec![], vec![]);
  for row in 0..n {
    let had = left;
    let (p, top, s) = pat(c, &mut Make { shape, row, nodes: &mut nodes, ors: &mut left }, 0);
    pats.push(p);
    tops.push(top);
    or_in.push(left != had);
    text.push(s);
  }
  c.log(|| text.join(" ; "));
  c.outcome(match ors - left {
    0 => "without or-patterns",
    _ => "with or-patterns",
  });
  let mut cx = Cx { shape, level, before, ors: ors - left, or_in, tops, splits: 0, err: None };
  COVERS.with(|f| *f.borrow_mut() = None);
  let r = catch(|| pattern_match::check::<L>(&mut cx, pats, Ty(0)).map(|r| r.missing.len()));
  match r {
    Ok(Ok(_)) => {}
    Ok(Err(e)) => bail!("the check was refused: {e}"),
    Err(p) => bail!("panicked: {p}"),
  }
  c.checks(cx.splits);
  ensure!(cx.splits > n as u64, "{} questions for {n} patterns", cx.splits);
  ensure_eq!(cx.err, None, "what the language was asked");
  ensure_eq!(COVERS.with(|f| f.borrow_mut().take()), None, "what the language was asked");
  Ok(())
}

pub fn p41(x: &mut Ctx) {
  let shapes = SHAPES.map(|(_, s)| s).join("; ");
  for (name, rows, nodes, ors) in [
    ("constructors", 3, x.by(8, 10), 0),
    ("or-patterns", 3, x.by(6, 8), x.by(2, 3)),
  ] {
    x.space(
      name,
      format!("all matches of up to {rows} patterns with up to {nodes} constructors and or-patterns, up to {ors} of them or-patterns, arguments at the end left out or not, on {shapes}"),
      move |c| run(c, rows, nodes, ors),
    );
  }
}
