// P40: patterns and errors display what they are.

use mcx::{Ch, Ctx, Res, bail, catch, ensure, ensure_eq};
use pattern_match::{CheckError, ConPat, Lang, RawPat};
use std::fmt::{self, Write as _};

const NAMES: &[&str] = &["A", "Some", "", "_", "1..=2", "x, y", "(|)", "é\n"];

#[derive(Debug, Clone, PartialEq)]
struct Name(usize);
impl fmt::Display for Name {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    // in more than one piece
    let s = NAMES[self.0];
    let mut at = s.len() / 2;
    while !s.is_char_boundary(at) {
      at += 1;
    }
    f.write_str(&s[..at])?;
    f.write_str(&s[at..])
  }
}

struct Shown;
impl Lang for Shown {
  type Cx = ();
  type PatIdx = u32;
  type Con = Name;
  type Ty = ();
  fn any() -> Name {
    Name(3)
  }
  fn split<'a, I>((): &mut (), (): &(), _: &Name, _: I, _: usize) -> pattern_match::Result<Vec<Name>>
  where
    I: Iterator<Item = &'a Name>,
  {
    Err(CheckError("no"))
  }
  fn get_arg_tys((): &mut (), (): &(), _: &Name) -> pattern_match::Result<Vec<()>> {
    Err(CheckError("no"))
  }
  fn covers(lhs: &Name, rhs: &Name) -> bool {
    lhs == rhs
  }
}
type Pat = pattern_match::Pat<Shown>;

/// What a pattern is, apart from the type under test.
#[derive(Debug, Clone, Hash, PartialEq)]
enum Tree {
  Con(usize, Vec<Tree>),
  Or(Vec<Tree>),
}

impl Tree {
  fn build(&self, next: &mut u32, how: usize) -> Pat {
    *next += 1;
    let idx = *next;
    match self {
      Tree::Con(n, ts) => {
        let args: Vec<_> = ts.iter().map(|t| t.build(next, how)).collect();
        match how {
          0 if args.is_empty() && *n == 3 => Pat::any_no_idx(),
          0 if args.is_empty() => Pat::zero(Name(*n), idx),
          0 => Pat::con(Name(*n), args, idx),
          _ => Pat { raw: RawPat::Con(ConPat { con: Name(*n), args }), idx: None },
        }
      }
      Tree::Or(ts) => {
        let pats: Vec<_> = ts.iter().map(|t| t.build(next, how)).collect();
        match how {
          0 => Pat::or(pats, idx),
          _ => Pat { raw: RawPat::Or(pats), idx: None },
        }
      }
    }
  }

  fn text(&self, out: &mut String) {
    match self {
      Tree::Con(n, ts) => {
        out.push_str(NAMES[*n]);
        for (i, t) in ts.iter().enumerate() {
          out.push_str(if i == 0 { "(" } else { ", " });
          t.text(out);
        }
        if !ts.is_empty() {
          out.push(')');
        }
      }
      Tree::Or(ts) => {
        for (i, t) in ts.iter().enumerate() {
          if i > 0 {
            out.push_str(" | ");
          }
          t.text(out);
        }
        if ts.is_empty() {
          out.push_str("<NEVER>");
        }
      }
    }
  }

  /// Whether a pattern is this (and, if it was made by the constructors, has the index it was given).
  fn is(&self, p: &Pat, next: &mut u32, how: usize) -> bool {
    *next += 1;
    let any = matches!(self, Tree::Con(3, ts) if ts.is_empty());
    let idx = if how == 0 && !any { Some(*next) } else { None };
    p.idx == idx
      && match (self, &p.raw) {
        (Tree::Con(n, ts), RawPat::Con(c)) => {
          c.con == Name(*n) && c.args.len() == ts.len() && ts.iter().zip(&c.args).all(|(t, p)| t.is(p, next, how))
        }
        (Tree::Or(ts), RawPat::Or(ps)) => ps.len() == ts.len() && ts.iter().zip(ps).all(|(t, p)| t.is(p, next, how)),
        _ => false,
      }
  }
}

/// Takes so many bytes (whole pieces only) and fails from then on; counts what is written after that.
struct Limited {
  left: usize,
  got: String,
  failed: bool,
  after: usize,
}
impl fmt::Write for Limited {
  fn write_str(&mut self, s: &str) -> fmt::Result {
    if self.failed {
      self.after += 1;
      return Err(fmt::Error);
    }
    if s.len() > self.left {
      self.failed = true;
      return Err(fmt::Error);
    }
    self.left -= s.len();
    self.got.push_str(s);
    Ok(())
  }
}

fn tree(c: &mut Ch<'_>, budget: &mut usize, names: &[usize], width: usize) -> Tree {
  *budget -= 1;
  let k = c.pick(names.len() + 1);
  let mut ts = vec![];
  while *budget > 0 && ts.len() < width && c.flag() {
    ts.push(tree(c, budget, names, width));
  }
  if k == names.len() { Tree::Or(ts) } else { Tree::Con(names[k], ts) }
}

fn verify(c: &mut Ch<'_>, t: &Tree) -> Res {
  let mut want = String::new();
  t.text(&mut want);
  c.state(t);
  c.log(|| format!("{t:?}"));
  for how in 0..2 {
    let pat = t.build(&mut 0, how);
    ensure!(t.is(&pat, &mut 0, how), "{t:?} built as {pat:?}");
    let copy = pat.clone();
    ensure!(t.is(&copy, &mut 0, how), "the clone of {pat:?} is {copy:?}");
    let got = match catch(|| copy.to_string()) {
      Ok(got) => got,
      Err(p) => bail!("display of {t:?}: panic: {p}"),
    };
    ensure_eq!(got, want, "display of {t:?}");
    ensure_eq!(copy.raw.to_string(), want, "display of the raw pattern of {t:?}");
    if let RawPat::Con(con) = &copy.raw {
      ensure_eq!(con.to_string(), want, "display of the constructor pattern of {t:?}");
    }
    c.checks(5);
    if how == 1 {
      continue;
    }
    for left in 0..=want.len() {
      let mut w = Limited { left, got: String::new(), failed: false, after: 0 };
      let r = write!(w, "{pat}");
      c.checks(3);
      ensure_eq!(r.is_err(), w.failed, "{t:?} with room for {left} bytes: the display fails");
      ensure_eq!(w.failed, left < want.len(), "{t:?} with room for {left} bytes: the writer fails");
      ensure!(want.starts_with(&w.got), "{t:?} with room for {left} bytes: wrote {:?}, not a start of {want:?}", w.got);
      ensure_eq!(w.after, 0, "{t:?} with room for {left} bytes: writes after the first failure");
    }
  }
  c.outcome(if want.contains('|') { "with alternatives" } else { "without alternatives" });
  Ok(())
}

pub fn p40(x: &mut Ctx) {
  let n = x.by(8, 9);
  x.space(
    "trees",
    format!("every pattern of at most {n} nodes, each a constructor (the wildcard among them) or an or-pattern with any number of parts; made by the constructors and by hand, displayed whole and in parts, copied, and written with a failure after every number of bytes"),
    move |c| {
      let mut b = n;
      let t = tree(c, &mut b, &[0, 3], usize::MAX);
      verify(c, &t)
    },
  );
  let n = x.by(5, 6);
  x.space(
    "names",
    format!("the same with at most {n} nodes and 8 constructor names (empty, containing the separators, not ASCII)"),
    move |c| {
      let mut b = n;
      let t = tree(c, &mut b, &[0, 1, 2, 3, 4, 5, 6, 7], usize::MAX);
      verify(c, &t)
    },
  );
  let n = x.by(70, 300);
  x.space(
    "wide and deep",
    format!("constructors and or-patterns of 0..={n} parts, each a constructor, a constructor with an argument, an or-pattern or an empty one; and nested 0..={n} deep, all or every other a constructor or an or-pattern"),
    move |c| {
      let k = c.pick(n + 1);
      let or = c.flag();
      let mk = |or, ts| if or { Tree::Or(ts) } else { Tree::Con(1, ts) };
      let t = if c.flag() {
        let part = match c.pick(4) {
          0 => Tree::Con(0, vec![]),
          1 => Tree::Con(0, vec![Tree::Con(3, vec![])]),
          2 => Tree::Or(vec![Tree::Con(0, vec![]), Tree::Con(1, vec![])]),
          _ => Tree::Or(vec![]),
        };
        mk(or, vec![part; k])
      } else {
        let both = c.flag();
        let mut t = Tree::Con(0, vec![]);
        for i in 0..k {
          t = mk(or ^ (both && i % 2 == 0), vec![t]);
        }
        t
      };
      verify(c, &t)
    },
  );
  x.space("errors", "errors with 12 messages display their message", |c| {
    let msg = *c.of(&["", "x", "no such constructor", "a\nb", "é", "{}", "{0}", "%s", "'q'", "\"", "😀", "could not"]);
    let e = CheckError(msg);
    let got = e.to_string();
    c.checks(1);
    ensure!(got.ends_with(msg), "the error {msg:?} displays as {got:?}");
    let dy: Box<dyn std::error::Error> = Box::new(e);
    ensure_eq!(dy.to_string(), got, "display of the boxed error");
    Ok(())
  });
}
