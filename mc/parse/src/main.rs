//! P07-P13: the event parser.

mod dual;
mod stack;

use dual::{Attempt, COMMENT, Dual, Item, K, Source, WS, class};
use mcx::{Ch, Ctx, Prop, Res};

fn main() {
  mcx::main_with_stack(256, &[
    Prop { id: "P07", run: p07 },
    Prop { id: "P08", run: p08 },
    Prop { id: "P09", run: p09 },
    Prop { id: "P10", run: p10 },
    Prop { id: "P11", run: p11 },
    Prop { id: "P12", run: p12 },
    Prop { id: "P13", run: p13 },
  ]);
}

const A: K = K(2);
const PLUS: K = K(3);
const OPEN: K = K(4);
const CLOSE: K = K(5);
const SEMI: K = K(6);

// ---------------------------------------------------------------------------------------------
// all sequences of calls

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
  Enter,
  Exit,
  Abandon,
  Precede(u32),
  Bump,
  Error,
  EatHit,
  EatMiss,
  Peek,
  PeekN(usize),
  At,
  AtN(usize),
  Save,
  Resolve,
  BumpNone,
  Stop,
}

mod ops {
  pub const STRUCT: u32 = 1;
  pub const ABANDON: u32 = 2;
  pub const PRECEDE: u32 = 4;
  pub const ERROR: u32 = 8;
  pub const EAT: u32 = 16;
  pub const PEEK: u32 = 32;
  pub const LOOK: u32 = 64;
  pub const SAVE: u32 = 128;
  pub const BUMP_NONE: u32 = 256;
  /// precede any child, not only the last
  pub const ANY: u32 = 512;
}

/// Picks a token list: the number of significant tokens and which gaps hold trivia (one or two).
fn source(c: &mut Ch<'_>, max_sig: usize, gaps: Gaps) -> Source {
  let n = c.pick(max_sig + 1);
  let mut kinds = vec![];
  let wide = match gaps {
    Gaps::All12 => 1 + c.pick(2),
    _ => 1,
  };
  let all = matches!(gaps, Gaps::NoneOrAll) && c.flag();
  for i in 0..=n {
    let here = match gaps {
      Gaps::NoneOrAll => all,
      _ => c.flag(),
    };
    if here {
      for j in 0..wide {
        kinds.push(if (i + j) % 2 == 0 { WS } else { COMMENT });
      }
    }
    if i < n {
      kinds.push([A, PLUS][i % 2]);
    }
  }
  Source::new(&kinds)
}

#[derive(Clone, Copy)]
enum Gaps {
  /// no trivia, or one in every gap
  NoneOrAll,
  /// every subset of the gaps, one trivia token each
  All1,
  /// every subset of the gaps, one or two trivia tokens each
  All12,
}

fn legal(d: &Dual<'_>, mask: u32) -> Vec<Op> {
  let on = |m: u32| mask & m != 0;
  let mut v = vec![];
  let depth = d.depth();
  let has_root = d.m.frames[0].items.iter().any(|i| matches!(i, Item::Node(..)));
  if depth == 0 && has_root && d.saves.is_empty() {
    v.push(Op::Stop);
  }
  if d.can_close() {
    v.push(Op::Exit);
    let f = d.m.frames.last().unwrap();
    // a root is only abandoned for another root
    let ok = depth > 1
      || (f.items.iter().all(|i| !matches!(i, Item::Tok))
        && f.items.iter().filter(|i| matches!(i, Item::Node(..))).count() <= 1);
    if on(ops::ABANDON) && ok {
      v.push(Op::Abandon);
    }
  }
  if depth > 0 || !has_root {
    v.push(Op::Enter);
  }
  if depth > 0 && d.left() > 0 {
    v.push(Op::Bump);
  }
  if on(ops::PRECEDE) {
    let p = d.precedable();
    if on(ops::ANY) {
      v.extend(p.into_iter().map(Op::Precede));
    } else {
      v.extend(p.last().map(|&i| Op::Precede(i)));
    }
  }
  if on(ops::ERROR) {
    v.push(Op::Error);
  }
  if on(ops::EAT) && depth > 0 {
    if d.left() > 0 {
      v.push(Op::EatHit);
    }
    v.push(Op::EatMiss);
  }
  if on(ops::PEEK) {
    v.push(Op::Peek);
  }
  if on(ops::LOOK) {
    v.extend([Op::PeekN(0), Op::PeekN(1), Op::PeekN(2), Op::At, Op::AtN(1), Op::AtN(3)]);
  }
  if on(ops::SAVE) {
    if d.saves.len() < 3 {
      v.push(Op::Save);
    }
    if d.can_resolve() {
      v.push(Op::Resolve);
    }
  }
  if on(ops::BUMP_NONE) && d.left() == 0 {
    v.push(Op::BumpNone);
  }
  v
}

fn apply(c: &mut Ch<'_>, d: &mut Dual<'_>, op: Op) {
  c.log(|| format!("{op:?}"));
  match op {
    Op::Enter => d.enter(),
    Op::Exit => {
      d.exit();
    }
    Op::Abandon => d.abandon(),
    Op::Precede(i) => d.precede(i),
    Op::Bump => {
      d.bump();
    }
    Op::Error => d.error(),
    Op::EatHit => {
      let k = d.sig_at(0).unwrap().kind;
      d.eat(k);
    }
    Op::EatMiss => {
      d.eat(CLOSE);
    }
    Op::Peek => {
      d.peek();
    }
    Op::PeekN(n) => d.peek_n(n),
    Op::At => {
      d.at(A);
      d.at(PLUS);
      d.at(WS);
    }
    Op::AtN(n) => {
      d.at_n(n, A);
      d.at_n(n, PLUS);
    }
    Op::Save => d.save(),
    Op::Resolve => {
      d.ok_since();
    }
    Op::BumpNone => d.bump_none(),
    Op::Stop => {}
  }
}

fn show(s: &Source) -> String {
  let k: Vec<String> =
    s.toks.iter().map(|t| format!("{}{:?}", if t.kind.0 < 2 { "~" } else { "" }, t.text)).collect();
  k.join(" ")
}

/// Ends whatever is open: exits every construct, resolving saves where they become resolvable.
fn close(c: &mut Ch<'_>, d: &mut Dual<'_>) -> Res {
  loop {
    if d.can_resolve() {
      apply(c, d, Op::Resolve);
    } else if d.can_close() {
      apply(c, d, Op::Exit);
    } else if !d.m.frames[0].items.iter().any(|i| matches!(i, Item::Node(..))) {
      // nothing was entered, or all of it was undone
      apply(c, d, Op::Enter);
    } else {
      break;
    }
    if let Some(e) = d.err.take() {
      return Err(e);
    }
  }
  Ok(())
}

#[derive(Clone, Copy)]
struct Cfg {
  depth: usize,
  max_sig: usize,
  gaps: Gaps,
  mask: u32,
  judge: u32,
  /// choose once whether to peek before every call
  peeky: bool,
}

fn calls(c: &mut Ch<'_>, g: Cfg) -> Res {
  let s = source(c, g.max_sig, g.gaps);
  let peeky = g.peeky && c.flag();
  c.log(|| format!("tokens {} {}", show(&s), if peeky { "(peeking before every call)" } else { "" }));
  let mut d = Dual::new(&s.toks, g.judge);
  for _ in 0..g.depth {
    // the first call need not enter the root
    let v = legal(&d, g.mask);
    let op = *c.of(&v);
    if op == Op::Stop {
      break;
    }
    if peeky {
      d.peek();
    }
    apply(c, &mut d, op);
    c.state(&(&d.m, s.toks.len(), d.saves.len()));
    c.checks(1);
    if let Some(e) = d.err.take() {
      return Err(e);
    }
  }
  close(c, &mut d)?;
  d.finish(c)
}

fn gaps_text(g: Gaps) -> &'static str {
  match g {
    Gaps::NoneOrAll => "trivia nowhere or in every gap",
    Gaps::All1 => "trivia in every subset of the gaps",
    Gaps::All12 => "one or two trivia tokens in every subset of the gaps",
  }
}

fn space(x: &mut Ctx, name: &str, what: &str, g: Cfg) {
  x.space(
    name,
    format!(
      "all legal sequences of up to {} calls ({what}), then closing everything; up to {} significant tokens, {}{}",
      g.depth,
      g.max_sig,
      gaps_text(g.gaps),
      if g.peeky { "; with and without peeking before every call" } else { "" }
    ),
    move |c| calls(c, g),
  );
}

// ---------------------------------------------------------------------------------------------
// a recursive descent parser for a small language, as users write them

/// file = stmt* ; stmt = speculative (expr ';') or, failing that, a bad token
/// expr = atom ('+' atom)* with precede ; atom = A | '(' expr ')'
struct G<'d, 's, 'c, 'x> {
  d: &'d mut Dual<'s>,
  c: &'c mut Ch<'x>,
  style: usize,
}

impl G<'_, '_, '_, '_> {
  fn file(&mut self) {
    if self.style >= 3 {
      // the whole file as one attempt, from before anything was recorded
      self.d.save();
      self.d.enter();
      if self.expr().is_none() {
        self.d.error();
      }
      if self.d.peek().is_some() {
        self.d.error();
      }
      self.d.exit();
      if self.d.ok_since() {
        return;
      }
      // a complaint about the whole
      self.d.error();
    }
    self.d.enter();
    while self.d.peek().is_some() {
      self.stmt();
    }
    self.d.exit();
  }

  fn stmt(&mut self) {
    match self.style % 3 {
      // speculate, fall back to an error construct
      0 => {
        self.d.save();
        self.d.enter();
        self.expr();
        self.d.eat(SEMI);
        self.d.exit();
        if !self.d.ok_since() {
          self.d.enter();
          self.d.error();
          self.d.bump();
          self.d.exit();
        }
      }
      // error recovery without speculation: skip to after the next semicolon
      1 => {
        self.d.enter();
        if self.expr().is_none() {
          self.d.error();
        }
        if !self.d.eat(SEMI) {
          while let Some(t) = self.d.peek() {
            self.d.bump();
            if t.kind == SEMI {
              break;
            }
          }
        }
        self.d.exit();
      }
      // statements are only constructs when they end in a semicolon: precede the expression or
      // abandon; lone tokens go to the file
      _ => match self.expr() {
        Some(ex) => {
          self.d.precede(ex);
          if self.d.at(SEMI) {
            self.d.bump();
            self.d.exit();
          } else {
            self.d.abandon();
            // ...and again with a second attempt
            self.d.precede(ex);
            if self.d.at(OPEN) || self.d.at(CLOSE) {
              self.d.bump();
              self.d.error();
              self.d.exit();
            } else {
              self.d.abandon();
            }
          }
        }
        None => {
          self.d.error();
          if self.d.peek().is_some() {
            self.d.bump();
          }
        }
      },
    }
  }

  fn expr(&mut self) -> Option<u32> {
    self.c.progress();
    let mut ex = self.atom()?;
    loop {
      // the loop in the documentation of `Exited`
      self.d.precede(ex);
      if self.d.at(PLUS) {
        self.d.bump();
        if self.atom().is_none() {
          self.d.error();
        }
        ex = self.d.exit();
      } else {
        self.d.abandon();
        return Some(ex);
      }
    }
  }

  fn atom(&mut self) -> Option<u32> {
    self.d.enter();
    if self.d.at(A) {
      self.d.bump();
      Some(self.d.exit())
    } else if self.d.at(OPEN) {
      self.d.bump();
      if self.expr().is_none() {
        self.d.error();
      }
      self.d.eat(CLOSE);
      Some(self.d.exit())
    } else {
      self.d.abandon();
      None
    }
  }
}

fn with_trivia(sig: &[K], how: usize) -> Vec<K> {
  let mut v = vec![];
  for (i, &k) in sig.iter().enumerate() {
    match how {
      1 => v.push(WS),
      2 if i % 2 == 0 => v.extend([COMMENT, WS]),
      3 if i % 3 == 1 => v.push(WS),
      _ => {}
    }
    v.push(k);
  }
  match how {
    1 | 3 => v.push(COMMENT),
    2 => v.extend([WS, WS]),
    _ => {}
  }
  v
}

fn grammar(c: &mut Ch<'_>, len: usize, judge: u32) -> Res {
  let style = c.pick(4);
  let how = c.pick(4);
  let mut sig = vec![];
  for _ in 0..len {
    let k = c.pick(6);
    if k == 0 {
      break;
    }
    sig.push([A, PLUS, OPEN, CLOSE, SEMI][k - 1]);
  }
  let s = Source::new(&with_trivia(&sig, how));
  c.log(|| format!("grammar style {style}, tokens {}", show(&s)));
  run_grammar(c, &s, style, judge)
}

fn run_grammar(c: &mut Ch<'_>, s: &Source, style: usize, judge: u32) -> Res {
  let mut d = Dual::new(&s.toks, judge);
  G { d: &mut d, c, style }.file();
  if let Some(e) = d.err.take() {
    return Err(e);
  }
  c.state(&(&d.m, style));
  d.finish(c)
}

/// A long program of the small language with up to `budget` tokens replaced, deleted or inserted.
fn grammar_long(c: &mut Ch<'_>, n: usize, mut budget: usize, judge: u32) -> Res {
  let style = c.pick(6);
  let how = c.pick(4);
  let pattern: &[K] = match c.pick(3) {
    0 => &[A, PLUS, OPEN, A, PLUS, A, CLOSE, SEMI],
    1 => &[OPEN, OPEN, A, CLOSE, PLUS, A, CLOSE, PLUS, A, SEMI, A, SEMI],
    _ => &[A, PLUS, A, PLUS, A, PLUS],
  };
  let mut sig = vec![];
  for i in 0..n {
    let k = pattern[i % pattern.len()];
    match c.deviate(&mut budget, 7) {
      0 => sig.push(k),
      1 => {}
      j => sig.push([A, PLUS, OPEN, CLOSE, SEMI][j - 2]),
    }
  }
  let s = Source::new(&with_trivia(&sig, how));
  c.log(|| format!("grammar style {style}, tokens {}", show(&s)));
  run_grammar(c, &s, style, judge)
}

fn grammar_spaces(x: &mut Ctx, judge: u32) {
  let n = x.by(6, 8);
  x.space(
    "grammar",
    format!("a recursive-descent expression parser in 4 styles (speculation, recovery, precede/abandon, a first attempt at the whole file) on all token lists of up to {n} of 5 kinds x 4 trivia placements"),
    move |c| grammar(c, n, judge),
  );
  let (n, b) = x.by((36, 2), (60, 2));
  x.space(
    "grammar-long",
    format!("the same parser on programs of {n} tokens (3 patterns) with up to {b} tokens changed, dropped or inserted anywhere x 4 trivia placements"),
    move |c| grammar_long(c, n, b, judge),
  );
  let (n, depth) = x.by((2, 6), (3, 7));
  x.space(
    "texts",
    format!("all lists of up to {n} significant tokens with trivia in every subset of the gaps, each token with no text, a short one or (at most one of them) one of 70000 bytes; all legal sequences of up to {depth} calls (enter, exit, bump, error), then closing everything"),
    move |c| texts(c, n, depth, judge),
  );
  x.space(
    "huge",
    "around 2^16 and 2^17 tokens in a construct, constructs in a row, errors at a place, tokens of one attempt, preceding constructs, nested constructs, trivia tokens in a gap, tokens of lookahead, looks at one token (8 times as many), attempts or empty or abandoned constructs at one place; with and without trivia",
    move |c| huge(c, judge),
  );
  let n = x.by(300, 1500);
  x.space(
    "deep",
    format!("programs of up to {n}-fold repeated shapes: nesting, long sums, chains of preceding constructs with an abandoned one anywhere, long files, long trivia"),
    move |c| deep(c, n, judge),
  );
}

/// Tokens with and without text.
fn texts(c: &mut Ch<'_>, max_sig: usize, depth: usize, judge: u32) -> Res {
  let n = c.pick(max_sig + 1);
  let mut kinds = vec![];
  for i in 0..=n {
    if c.flag() {
      kinds.push([WS, COMMENT][i % 2]);
    }
    if i < n {
      kinds.push([A, PLUS][i % 2]);
    }
  }
  let long = "l".repeat(70_000);
  let mut longs = 1;
  let of: Vec<usize> = kinds
    .iter()
    .map(|_| {
      let k = c.pick(2 + longs);
      if k == 2 {
        longs = 0;
      }
      k
    })
    .collect();
  let s = Source::with_texts(&kinds, |i, _| match of[i] {
    0 => "",
    1 => ["t", "é"][i % 2],
    _ => &long,
  });
  c.log(|| format!("tokens of kinds {kinds:?} with texts {of:?} (0 none, 1 short, 2 long)"));
  let mut d = Dual::new(&s.toks, judge);
  for _ in 0..depth {
    let v = legal(&d, STRUCT | ERROR);
    let op = *c.of(&v);
    if op == Op::Stop {
      break;
    }
    apply(c, &mut d, op);
    c.checks(1);
    if let Some(e) = d.err.take() {
      return Err(e);
    }
  }
  c.state(&(&d.m, &of));
  close(c, &mut d)?;
  d.finish(c)
}

/// Programs beyond what fits into 16 bits.
fn huge(c: &mut Ch<'_>, judge: u32) -> Res {
  let shape = c.pick(12);
  let n = *c.of(&[1000usize, 65_535, 65_536, 65_537, 131_072]);
  let trivia = c.flag();
  let sig = match shape {
    2 | 6 | 7 | 9.. => 3,
    _ => n + 2,
  };
  let mut kinds = vec![];
  for i in 0..sig {
    if trivia && (sig == 3 || i % 1000 == 0) {
      kinds.push(WS);
    }
    if shape == 7 && i == 1 {
      kinds.extend(std::iter::repeat_n(COMMENT, n));
    }
    kinds.push([A, PLUS][i % 2]);
  }
  if trivia {
    kinds.push(WS);
  }
  let s = Source::new(&kinds);
  // rowan takes time quadratic in the depth to tell where a node is
  let deepest = if judge & class::ROWAN != 0 { 1000 } else { 70_000 };
  c.log(|| format!("shape {shape}, size {n}, trivia {trivia}"));
  let mut d = Dual::new(&s.toks, judge);
  let mut tick = 0;
  let mut step = |c: &mut Ch<'_>| {
    tick += 1;
    if tick % 256 == 0 {
      c.progress();
    }
  };
  match shape {
    // one construct with many tokens
    0 => {
      d.enter();
      d.enter();
      for _ in 0..n {
        d.bump();
        step(c);
      }
      let ex = d.exit();
      d.precede(ex);
      d.exit();
      d.bump();
      d.exit();
    }
    // many constructs
    1 => {
      d.enter();
      for _ in 0..n {
        d.enter();
        d.bump();
        d.exit();
        step(c);
      }
      d.exit();
    }
    // many errors at a place
    2 => {
      d.enter();
      d.enter();
      d.bump();
      for _ in 0..n {
        d.error();
        step(c);
      }
      d.exit();
      for _ in 0..3 {
        d.error();
      }
      d.bump();
      d.error();
      d.exit();
    }
    // long attempts: the error first, last, or none
    3 => {
      let at = c.pick(3);
      d.enter();
      d.save();
      d.enter();
      if at == 0 {
        d.error();
      }
      for _ in 0..n {
        d.bump();
        step(c);
      }
      if at == 1 {
        d.error();
      }
      d.exit();
      d.ok_since();
      d.enter();
      d.bump();
      d.exit();
      d.exit();
    }
    // many failed attempts
    4 => {
      d.enter();
      d.enter();
      for i in 0..n {
        if i % 1024 == 0 {
          d.exit();
          d.enter();
        }
        let real = i % 4096 == 5;
        if real {
          d.save();
        }
        d.bump();
        if real {
          d.error();
          d.ok_since();
          d.bump();
        }
        step(c);
      }
      d.exit();
      d.exit();
    }
    // many constructs each preceding the one before
    5 => {
      d.enter();
      d.enter();
      d.bump();
      let mut ex = d.exit();
      for _ in 0..n.min(deepest) {
        d.precede(ex);
        d.bump();
        ex = d.exit();
        step(c);
      }
      d.exit();
    }
    // many nested constructs
    6 => {
      let m = n.min(deepest);
      for i in 0..m {
        d.enter();
        if i == m / 2 {
          d.bump();
        }
        step(c);
      }
      d.bump();
      for i in 0..m {
        d.exit();
        if i == m / 2 {
          d.bump();
        }
        step(c);
      }
    }
    // much trivia
    7 => {
      d.enter();
      d.enter();
      d.bump();
      d.peek();
      d.exit();
      d.enter();
      d.bump();
      d.exit();
      d.bump();
      d.exit();
    }
    // looking at a token many times
    9 => {
      let how = c.pick(5);
      d.enter();
      d.bump();
      for i in 0..n * 8 {
        match how {
          0 => drop(d.peek()),
          1 => d.peek_n(i % 4),
          2 => drop(d.at([A, PLUS][i % 2])),
          3 => d.at_n(i % 4, [A, PLUS][i % 3 % 2]),
          _ => drop(d.peek()),
        }
        step(c);
        // after all but the last token
        if how == 4 && i == n {
          d.bump();
          d.bump();
        }
      }
      if how != 4 {
        d.enter();
        d.bump();
        d.exit();
        d.bump();
      }
      d.exit();
    }
    // many attempts that fail at a token, or that see nothing
    10 => {
      let fail = c.flag();
      d.enter();
      d.bump();
      for _ in 0..n {
        d.save();
        d.enter();
        if fail {
          d.eat(A);
          d.exit();
        } else {
          d.at(A);
          d.abandon();
        }
        d.ok_since();
        step(c);
      }
      d.bump();
      d.bump();
      d.exit();
    }
    // constructs that are given up, or that are empty
    11 => {
      let give_up = c.flag();
      d.enter();
      for i in 0..n {
        if i == n / 2 {
          d.bump();
        }
        d.enter();
        if give_up {
          d.abandon();
        } else {
          d.exit();
        }
        step(c);
      }
      d.bump();
      d.bump();
      d.exit();
    }
    // looking far ahead
    _ => {
      d.enter();
      for i in [n - 1, n, n + 1, n + 2, n + 3] {
        d.peek_n(i);
        d.at_n(i, A);
        step(c);
      }
      d.bump();
      d.peek_n(n);
      d.exit();
    }
  }
  if let Some(e) = d.err.take() {
    return Err(e);
  }
  d.finish(c)
}

/// Large uniform programs.
fn deep(c: &mut Ch<'_>, max: usize, judge: u32) -> Res {
  let n = *c.of(&[15usize, 16, 17, 64, 255, 256, 257, max]);
  let shape = c.pick(9);
  let how = c.pick(3);
  let mut sig = vec![];
  match shape {
    0 => {
      sig.extend(std::iter::repeat_n(OPEN, n));
      sig.push(A);
      sig.extend(std::iter::repeat_n(CLOSE, n));
      sig.push(SEMI);
    }
    1 => {
      for _ in 0..n {
        sig.extend([A, PLUS]);
      }
      sig.extend([A, SEMI]);
    }
    2 => {
      for _ in 0..n.min(300) {
        sig.extend([A, SEMI]);
      }
    }
    _ => sig.extend(std::iter::repeat_n(A, 4)),
  }
  let mut kinds = with_trivia(&sig, how);
  if shape == 8 {
    // long trivia in one of the gaps
    let g = c.pick(5);
    kinds = vec![];
    for (i, &k) in [A, PLUS, A, SEMI].iter().enumerate() {
      if i == g {
        kinds.extend(std::iter::repeat_n(WS, n));
      }
      kinds.push(k);
    }
    if g == 4 {
      kinds.extend(std::iter::repeat_n(WS, n));
    }
  }
  let s = Source::new(&kinds);
  c.log(|| format!("shape {shape}, size {n}, trivia style {how}, {} tokens", s.toks.len()));
  if shape <= 2 || shape == 8 {
    let style = c.pick(6);
    return run_grammar(c, &s, style, judge);
  }
  let mut d = Dual::new(&s.toks, judge);
  match shape {
    // a chain of constructs, each preceding the one before; one of them abandoned or erroneous
    3 | 4 => {
      let odd = *c.of(&[0, 1, n / 2, n - 1, n]);
      let inner_toks = c.pick(2);
      d.enter();
      d.enter();
      for _ in 0..inner_toks {
        d.bump();
      }
      let mut ex = d.exit();
      for i in 0..n {
        if i % 64 == 0 {
          c.progress();
        }
        d.precede(ex);
        if i == odd {
          d.abandon();
          d.precede(ex);
        }
        if shape == 4 && i % 7 == 3 && d.left() > 1 {
          d.bump();
        }
        ex = d.exit();
      }
      d.exit();
    }
    // nested constructs, tokens only at the bottom, errors on the way; half of them abandoned
    5 | 6 => {
      let at = c.pick(3);
      for i in 0..n {
        d.enter();
        if i % 50 == 0 {
          d.error();
          c.progress();
        }
      }
      if at == 0 {
        d.bump();
      }
      for i in 0..n {
        if at == 1 && i == n / 2 {
          d.bump();
        }
        if at == 2 && i + 1 == n {
          d.bump();
          d.bump();
        }
        if shape == 6 && i % 2 == 1 && i + 1 < n {
          d.abandon();
        } else {
          d.exit();
        }
      }
    }
    // many empty constructs and failed speculations before a token
    _ => {
      d.enter();
      for i in 0..n {
        d.save();
        d.enter();
        if i % 3 == 0 {
          d.bump();
        }
        d.exit();
        d.error();
        d.ok_since();
        if i % 64 == 0 {
          c.progress();
        }
      }
      for _ in 0..n {
        d.enter();
        d.peek();
        d.exit();
      }
      d.bump();
      d.exit();
    }
  }
  if let Some(e) = d.err.take() {
    return Err(e);
  }
  d.finish(c)
}

// ---------------------------------------------------------------------------------------------

use ops::*;

fn p07(x: &mut Ctx) {
  let judge = class::TOKENS;
  stack::space(x, judge);
  let depth = x.by(9, 10);
  space(x, "calls", "enter, exit, abandon, precede, bump, error, peek", Cfg {
    depth, max_sig: 2, gaps: Gaps::All1, mask: STRUCT | ABANDON | PRECEDE | ERROR | PEEK, judge, peeky: false,
  });
  let depth = x.by(8, 9);
  space(x, "backtracking", "enter, exit, bump, eat, error, save, ok_since", Cfg {
    depth, max_sig: 2, gaps: Gaps::All1, mask: STRUCT | EAT | ERROR | SAVE, judge, peeky: false,
  });
  let depth = x.by(8, 9);
  space(x, "trivia", "enter, exit, bump, lookahead", Cfg {
    depth, max_sig: 3, gaps: Gaps::All12, mask: STRUCT | PEEK, judge, peeky: true,
  });
  grammar_spaces(x, judge);
}

fn p08(x: &mut Ctx) {
  let judge = class::SHAPE;
  stack::space(x, judge);
  let depth = x.by(11, 13);
  space(x, "calls", "enter, exit, abandon, precede of the last construct, bump", Cfg {
    depth, max_sig: 3, gaps: Gaps::NoneOrAll, mask: STRUCT | ABANDON | PRECEDE, judge, peeky: false,
  });
  let depth = x.by(11, 12);
  space(x, "any-precede", "enter, exit, abandon, precede of any completed construct, bump", Cfg {
    depth, max_sig: 2, gaps: Gaps::NoneOrAll, mask: STRUCT | ABANDON | PRECEDE | ANY, judge, peeky: true,
  });
  let depth = x.by(9, 10);
  space(x, "errors", "enter, exit, abandon, precede, bump, error, peek", Cfg {
    depth, max_sig: 2, gaps: Gaps::All1, mask: STRUCT | ABANDON | PRECEDE | ERROR | PEEK, judge, peeky: false,
  });
  let depth = x.by(9, 10);
  space(x, "backtracking", "enter, exit, abandon, precede, bump, error, save, ok_since", Cfg {
    depth, max_sig: 2, gaps: Gaps::NoneOrAll, mask: STRUCT | ABANDON | PRECEDE | ERROR | SAVE, judge, peeky: false,
  });
  grammar_spaces(x, judge);
}

fn p09(x: &mut Ctx) {
  let judge = class::TRIVIA;
  stack::space(x, judge);
  let depth = x.by(11, 13);
  space(x, "calls", "enter, exit, bump", Cfg {
    depth, max_sig: 3, gaps: Gaps::All1, mask: STRUCT, judge, peeky: false,
  });
  let depth = x.by(10, 12);
  space(x, "precede", "enter, exit, abandon, precede, bump", Cfg {
    depth, max_sig: 2, gaps: Gaps::All1, mask: STRUCT | ABANDON | PRECEDE | ANY, judge, peeky: false,
  });
  let depth = x.by(9, 10);
  space(x, "wide", "enter, exit, abandon, precede, bump, error", Cfg {
    depth, max_sig: 2, gaps: Gaps::All12, mask: STRUCT | ABANDON | PRECEDE | ERROR, judge, peeky: true,
  });
  grammar_spaces(x, judge);
}

fn p10(x: &mut Ctx) {
  let judge = class::TOKENS | class::SHAPE | class::TRIVIA | class::ERRORS | class::LOOK | class::SAVE;
  stack::space(x, judge);
  let depth = x.by(10, 11);
  space(x, "calls", "enter, exit, bump, error, save, ok_since; up to 3 nested saves", Cfg {
    depth, max_sig: 2, gaps: Gaps::NoneOrAll, mask: STRUCT | ERROR | SAVE, judge, peeky: true,
  });
  let depth = x.by(8, 9);
  space(x, "all", "enter, exit, abandon, precede, bump, eat, error, peek, save, ok_since", Cfg {
    depth, max_sig: 2, gaps: Gaps::NoneOrAll, mask: STRUCT | ABANDON | PRECEDE | EAT | ERROR | PEEK | SAVE, judge, peeky: false,
  });
  let depth = x.by(8, 9);
  space(x, "trivia", "enter, exit, bump, eat, error, peek, save, ok_since", Cfg {
    depth, max_sig: 2, gaps: Gaps::All1, mask: STRUCT | EAT | ERROR | PEEK | SAVE, judge, peeky: false,
  });
  grammar_spaces(x, judge);
}

fn p11(x: &mut Ctx) {
  let judge = class::LOOK | class::TOKENS | class::TRIVIA | class::ERRORS | class::EMPTY;
  stack::space(x, judge);
  let depth = x.by(7, 8);
  space(x, "calls", "enter, exit, bump, eat hit and miss, peek, peek_n 0..2, at, at_n; bump at the end", Cfg {
    depth, max_sig: 2, gaps: Gaps::NoneOrAll, mask: STRUCT | EAT | LOOK | PEEK | BUMP_NONE, judge, peeky: false,
  });
  let depth = x.by(6, 7);
  space(x, "trivia", "enter, exit, bump, eat, all lookahead", Cfg {
    depth, max_sig: 3, gaps: Gaps::All12, mask: STRUCT | EAT | LOOK | PEEK | BUMP_NONE, judge, peeky: false,
  });
  let depth = x.by(6, 7);
  space(x, "backtracking", "enter, exit, bump, eat, all lookahead, save, ok_since", Cfg {
    depth, max_sig: 2, gaps: Gaps::NoneOrAll, mask: STRUCT | EAT | LOOK | PEEK | SAVE, judge, peeky: false,
  });
  let n = x.by(5, 6);
  x.space(
    "distances",
    format!("all lists of up to {n} tokens of 4 kinds (2 trivia); at every cursor position: peek_n and at_n at every distance 0..=len+2, in both orders and twice"),
    move |c| {
      let mut kinds = vec![];
      for _ in 0..n {
        let k = c.pick(5);
        if k == 0 {
          break;
        }
        kinds.push([WS, COMMENT, A, PLUS][k - 1]);
      }
      let s = Source::new(&kinds);
      c.log(|| format!("tokens {}", show(&s)));
      let mut d = Dual::new(&s.toks, judge);
      d.enter();
      loop {
        let max = s.toks.len() + 2;
        for i in (0..=max).chain((0..=max).rev()) {
          d.peek_n(i);
          for k in [WS, A, PLUS] {
            d.at_n(i, k);
          }
        }
        d.peek();
        c.checks(8 * max as u64);
        c.state(&(&kinds, d.m.cur));
        if let Some(e) = d.err.take() {
          return Err(e);
        }
        if d.left() == 0 {
          break;
        }
        d.bump();
      }
      d.exit();
      d.finish(c)
    },
  );
  x.space(
    "far",
    "lists of up to 600 tokens with trivia runs; lookahead at distances around powers of two from every tenth cursor position",
    move |c| {
      let run = *c.of(&[0usize, 1, 3, 40]);
      let n = *c.of(&[1usize, 17, 130, 600]);
      let mut kinds = vec![];
      for i in 0..n {
        if run > 0 && i % 5 == 0 {
          kinds.extend(std::iter::repeat_n(WS, run));
        }
        kinds.push([A, PLUS, SEMI][i % 3]);
      }
      kinds.extend(std::iter::repeat_n(COMMENT, run));
      let s = Source::new(&kinds);
      let mut d = Dual::new(&s.toks, judge);
      d.enter();
      while d.left() > 0 {
        if d.m.cur % 10 == 0 || d.left() < 3 {
          for i in [0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 599, 600] {
            d.peek_n(i);
            d.at_n(i, A);
          }
          c.progress();
        }
        d.bump();
      }
      d.bump_none();
      d.peek_n(3);
      d.exit();
      d.finish(c)
    },
  );
  grammar_spaces(x, judge);
}

fn p12(x: &mut Ctx) {
  let judge = class::ERRORS | class::ROWAN;
  stack::space(x, judge);
  let depth = x.by(9, 10);
  space(x, "calls", "enter, exit, bump, error, eat hit and miss", Cfg {
    depth, max_sig: 2, gaps: Gaps::NoneOrAll, mask: STRUCT | EAT | ERROR, judge, peeky: false,
  });
  let depth = x.by(9, 10);
  space(x, "trivia", "enter, exit, bump, error", Cfg {
    depth, max_sig: 3, gaps: Gaps::All12, mask: STRUCT | ERROR, judge, peeky: true,
  });
  let depth = x.by(9, 10);
  space(x, "structure", "enter, exit, abandon, precede, bump, error, peek", Cfg {
    depth, max_sig: 2, gaps: Gaps::NoneOrAll, mask: STRUCT | ABANDON | PRECEDE | ERROR | PEEK, judge, peeky: false,
  });
  let depth = x.by(9, 10);
  space(x, "backtracking", "enter, exit, bump, error, save, ok_since", Cfg {
    depth, max_sig: 2, gaps: Gaps::All1, mask: STRUCT | ERROR | SAVE, judge, peeky: false,
  });
  grammar_spaces(x, judge);
}

fn p13(x: &mut Ctx) {
  let judge = class::EMPTY;
  let depth = x.by(10, 12);
  space(x, "empty", "enter, exit, abandon, precede of any completed construct, bump, peek", Cfg {
    depth, max_sig: 2, gaps: Gaps::NoneOrAll, mask: STRUCT | ABANDON | PRECEDE | ANY | PEEK, judge, peeky: false,
  });
  let depth = x.by(6, 7);
  space(x, "empty-trivia", "enter, exit, precede, bump, eat, error, all lookahead", Cfg {
    depth, max_sig: 2, gaps: Gaps::All12, mask: STRUCT | PRECEDE | EAT | ERROR | LOOK | PEEK, judge, peeky: false,
  });
  let depth = x.by(9, 10);
  space(x, "empty-backtracking", "enter, exit, precede, bump, error, save, ok_since", Cfg {
    depth, max_sig: 2, gaps: Gaps::NoneOrAll, mask: STRUCT | PRECEDE | ERROR | SAVE, judge, peeky: true,
  });
  let depth = x.by(9, 10);
  x.space(
    "dropped",
    format!("all legal sequences of up to {depth} calls that leave a construct open, whose marker is then dropped, by itself or all of them by a panic of the caller's own"),
    move |c| {
      let s = source(c, 2, Gaps::NoneOrAll);
      c.log(|| format!("tokens {}", show(&s)));
      let mut d = Dual::new(&s.toks, judge);
      apply(c, &mut d, Op::Enter);
      for _ in 1..depth {
        let v = legal(&d, STRUCT | ABANDON | PRECEDE | ERROR);
        let k = c.pick(v.len() + 1);
        if k == v.len() {
          break;
        }
        if v[k] == Op::Stop {
          return Ok(());
        }
        apply(c, &mut d, v[k]);
      }
      if d.depth() > 0 {
        c.checks(1);
        if c.flag() {
          c.log(|| "the caller panics".into());
          c.outcome("markers unwound");
          d.unwind()?;
        } else {
          c.outcome("marker dropped");
          d.drop_open()?;
        }
      }
      Ok(())
    },
  );
  let depth = x.by(10, 11);
  x.space(
    "again",
    format!("all legal sequences of up to {depth} calls, after which a construct that was or is being preceded is preceded again"),
    move |c| {
      let s = source(c, 1, Gaps::NoneOrAll);
      c.log(|| format!("tokens {}", show(&s)));
      let mut d = Dual::new(&s.toks, judge);
      apply(c, &mut d, Op::Enter);
      for _ in 1..depth {
        let taken: Vec<u32> = (0..d.m.attempts.len() as u32)
          .filter(|&i| d.m.attempts[i as usize] != Attempt::No)
          .collect();
        let v = legal(&d, STRUCT | ABANDON | PRECEDE | ANY);
        let k = c.pick(v.len() + taken.len());
        if k >= v.len() {
          c.checks(1);
          let id = taken[k - v.len()];
          c.log(|| format!("precede {id} again"));
          c.outcome(match d.m.attempts[id as usize] {
            Attempt::Open => "again while the first attempt is open",
            _ => "again after the first attempt was closed",
          });
          return d.precede_again(id);
        }
        if v[k] == Op::Stop {
          return Ok(());
        }
        apply(c, &mut d, v[k]);
        c.state(&d.m);
      }
      Ok(())
    },
  );
  grammar_spaces(x, judge);
}
