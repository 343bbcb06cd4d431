//! The real parser and the reference, driven together.
//!
//! The reference keeps what the calls *mean*: a stack of open constructs, each a list of tokens,
//! errors and completed constructs. From that, and the token list, it computes what a sink is to
//! receive (see `expected`).

use event_parse::rowan_sink::RowanSink;
use event_parse::{Entered, Exited, Expected, Parser, Save, Sink};
use mcx::{Ch, catch};
use std::mem::ManuallyDrop;
use token::{Token, Triviable};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct K(pub u16);
pub const WS: K = K(0);
pub const COMMENT: K = K(1);
pub const FIRST_NODE: u16 = 100;

/// The kind of the construct with an identifier: another one for each, except in huge programs.
pub fn node_kind(id: u32) -> K {
  K(FIRST_NODE + (id % 60_000) as u16)
}

impl Triviable for K {
  fn is_trivia(&self) -> bool {
    self.0 < 2
  }
}
impl std::fmt::Display for K {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "k{}", self.0)
  }
}
impl From<K> for rowan::SyntaxKind {
  fn from(k: K) -> Self {
    rowan::SyntaxKind(k.0)
  }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum E {
  Expected(K),
  Msg(u32),
}
impl Expected<K> for E {
  fn expected(kind: K) -> Self {
    E::Expected(kind)
  }
}

pub type Tok = Token<'static, K>;

/// Texts of several lengths in bytes and characters. Each use is a distinct place in memory.
pub struct Source {
  pub toks: Vec<Tok>,
}

const SIG_TEXT: [&str; 4] = ["a", "é", "b😀", "xyz"];
const TRIVIA_TEXT: [&str; 3] = [" ", "\n", "#é"];

impl Source {
  pub fn new(kinds: &[K]) -> Self {
    Self::with_texts(kinds, |i, k| {
      if k.is_trivia() { TRIVIA_TEXT[i % 3] } else { SIG_TEXT[(i + usize::from(k.0)) % 4] }
    })
  }

  /// Makes tokens of the kinds, over one leaked-and-reclaimed buffer.
  pub fn with_texts<'t>(kinds: &[K], mut text: impl FnMut(usize, K) -> &'t str) -> Self {
    let mut buf = String::new();
    let mut spans = vec![];
    for (i, k) in kinds.iter().enumerate() {
      let t = text(i, *k);
      spans.push((buf.len(), buf.len() + t.len()));
      buf.push_str(t);
    }
    let buf: &'static str = Box::leak(buf.into_boxed_str());
    Source {
      toks: kinds.iter().zip(spans).map(|(&kind, (a, b))| Token { kind, text: &buf[a..b] }).collect(),
    }
  }
}

impl Drop for Source {
  fn drop(&mut self) {
    let (Some(f), Some(l)) = (self.toks.first(), self.toks.last()) else { return };
    let p = f.text.as_ptr();
    let n = l.text.as_ptr() as usize + l.text.len() - p as usize;
    self.toks.clear();
    // SAFETY: the buffer was made by `new` from exactly this box, and no token outlives the source.
    unsafe { drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(p.cast_mut(), n))) }
  }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Item {
  Tok,
  Err(E),
  Node(u32, Vec<Item>),
}

fn count_toks(items: &[Item]) -> usize {
  items
    .iter()
    .map(|i| match i {
      Item::Tok => 1,
      Item::Err(_) => 0,
      Item::Node(_, it) => count_toks(it),
    })
    .sum()
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Frame {
  pub items: Vec<Item>,
  /// significant tokens anywhere inside
  pub toks: usize,
  /// the construct this one precedes
  pub of: Option<u32>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Attempt {
  No,
  Open,
  Closed,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Model {
  /// `frames[0]` is what is outside any construct.
  pub frames: Vec<Frame>,
  /// significant tokens consumed
  pub cur: usize,
  pub errs: usize,
  pub attempts: Vec<Attempt>,
}

pub struct SaveRec {
  real: Save,
  model: Model,
  pub depth: usize,
  pub next_id: u32,
}

/// What an execution is judged on.
pub mod class {
  pub const TOKENS: u32 = 1;
  pub const SHAPE: u32 = 2;
  pub const TRIVIA: u32 = 4;
  pub const ERRORS: u32 = 8;
  pub const LOOK: u32 = 16;
  pub const SAVE: u32 = 32;
  pub const EMPTY: u32 = 64;
  pub const ROWAN: u32 = 128;
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Ev {
  Enter(K),
  Tok(usize),
  Exit,
  Err(E),
  /// a token that is not one of the input's
  Alien(K),
}

/// Whether a projection of the sink's events keeps an event.
pub fn keeps(cl: u32, ev: Ev, toks: &[Tok]) -> bool {
  match ev {
    Ev::Alien(_) => true,
    Ev::Tok(i) => match cl {
      class::TOKENS | class::TRIVIA => true,
      _ => !toks[i].kind.is_trivia(),
    },
    Ev::Enter(_) | Ev::Exit => cl == class::SHAPE || cl == class::TRIVIA,
    Ev::Err(_) => cl == class::ERRORS,
  }
}

struct Rec<'a> {
  toks: &'a [Tok],
  evs: Vec<Ev>,
  last: usize,
  rowan: Option<RowanSink<K, E>>,
}

impl Sink<K, E> for Rec<'_> {
  fn enter(&mut self, kind: K) {
    self.evs.push(Ev::Enter(kind));
    if let Some(r) = &mut self.rowan {
      r.enter(kind);
    }
  }
  fn token(&mut self, token: Token<'_, K>) {
    let is = |t: &Tok| {
      t.text.as_ptr() == token.text.as_ptr() && t.text.len() == token.text.len() && t.kind == token.kind
    };
    let i = if self.toks.get(self.last).is_some_and(is) {
      Some(self.last)
    } else {
      self.toks.iter().position(is)
    };
    match i {
      Some(i) => {
        self.evs.push(Ev::Tok(i));
        self.last = i + 1;
      }
      None => self.evs.push(Ev::Alien(token.kind)),
    }
    if let Some(r) = &mut self.rowan {
      r.token(token);
    }
  }
  fn exit(&mut self) {
    self.evs.push(Ev::Exit);
    if let Some(r) = &mut self.rowan {
      r.exit();
    }
  }
  fn error(&mut self, error: E) {
    self.evs.push(Ev::Err(error));
    if let Some(r) = &mut self.rowan {
      r.error(error);
    }
  }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Lang {}
impl rowan::Language for Lang {
  type Kind = u16;
  fn kind_from_raw(raw: rowan::SyntaxKind) -> u16 {
    raw.0
  }
  fn kind_to_raw(kind: u16) -> rowan::SyntaxKind {
    rowan::SyntaxKind(kind)
  }
}

pub struct Dual<'s> {
  pub toks: &'s [Tok],
  /// indices of the significant tokens
  pub sig: Vec<usize>,
  p: Option<Parser<'s, K, E>>,
  pub m: Model,
  marks: Vec<ManuallyDrop<Entered>>,
  exited: Vec<Option<Exited>>,
  pub saves: Vec<SaveRec>,
  judge: u32,
  pub err: Option<String>,
  next_msg: u32,
}

impl<'s> Dual<'s> {
  pub fn new(toks: &'s [Tok], judge: u32) -> Self {
    Self {
      toks,
      sig: (0..toks.len()).filter(|&i| !toks[i].kind.is_trivia()).collect(),
      p: Some(Parser::new(toks)),
      m: Model {
        frames: vec![Frame { items: vec![], toks: 0, of: None }],
        cur: 0,
        errs: 0,
        attempts: vec![],
      },
      marks: vec![],
      exited: vec![],
      saves: vec![],
      judge,
      err: None,
      next_msg: 0,
    }
  }

  fn differ(&mut self, cl: u32, f: impl FnOnce() -> String) {
    if self.judge & cl != 0 && self.err.is_none() {
      self.err = Some(f());
    }
  }

  fn p(&mut self) -> &mut Parser<'s, K, E> {
    self.p.as_mut().unwrap()
  }

  pub fn top(&mut self) -> &mut Frame {
    self.m.frames.last_mut().unwrap()
  }
  pub fn depth(&self) -> usize {
    self.m.frames.len() - 1
  }
  pub fn left(&self) -> usize {
    self.sig.len() - self.m.cur
  }
  pub fn sig_at(&self, n: usize) -> Option<Tok> {
    self.m.cur.checked_add(n).and_then(|i| self.sig.get(i)).map(|&i| self.toks[i])
  }

  fn cmp_tok(&mut self, what: &str, got: Option<Token<'_, K>>, want: Option<Tok>) {
    let same = match (got, want) {
      (None, None) => true,
      (Some(g), Some(w)) => g.kind == w.kind && g.text.as_ptr() == w.text.as_ptr() && g.text.len() == w.text.len(),
      _ => false,
    };
    if !same {
      let cur = self.m.cur;
      self.differ(class::LOOK, || {
        format!("{what} after {cur} significant tokens: got {got:?}, the reference says {want:?}")
      });
    }
  }

  // ---- operations

  pub fn enter(&mut self) {
    let en = self.p().enter();
    self.marks.push(ManuallyDrop::new(en));
    self.m.frames.push(Frame { items: vec![], toks: 0, of: None });
  }

  /// Closes the innermost open construct; returns its id. Its kind is unique to it.
  pub fn exit(&mut self) -> u32 {
    let id = self.exited.len() as u32;
    let mark = ManuallyDrop::into_inner(self.marks.pop().unwrap());
    let ex = self.p().exit(mark, node_kind(id));
    let f = self.m.frames.pop().unwrap();
    if ex.is_empty() != (f.toks == 0) {
      let got = ex.is_empty();
      self.differ(class::EMPTY, || {
        format!("is_empty of construct {id}: got {got}, but it contains {} significant tokens", f.toks)
      });
    }
    self.exited.push(Some(ex));
    self.m.attempts.push(Attempt::No);
    self.m.attempts.resize(self.exited.len(), Attempt::No);
    if let Some(o) = f.of {
      self.m.attempts[o as usize] = Attempt::Closed;
    }
    let t = self.top();
    t.toks += f.toks;
    t.items.push(Item::Node(id, f.items));
    id
  }

  pub fn abandon(&mut self) {
    let mark = ManuallyDrop::into_inner(self.marks.pop().unwrap());
    self.p().abandon(mark);
    let f = self.m.frames.pop().unwrap();
    if let Some(o) = f.of {
      self.m.attempts[o as usize] = Attempt::No;
    }
    let t = self.top();
    t.toks += f.toks;
    t.items.extend(f.items);
  }

  /// Ids of the completed constructs that may be preceded now.
  pub fn precedable(&self) -> Vec<u32> {
    let min = self.saves.last().map_or(0, |s| s.next_id);
    let t = self.m.frames.last().unwrap();
    t.items
      .iter()
      .filter_map(|i| match i {
        Item::Node(id, _) if *id >= min && self.m.attempts[*id as usize] == Attempt::No => Some(*id),
        _ => None,
      })
      .collect()
  }

  pub fn precede(&mut self, id: u32) {
    let ex = self.exited[id as usize].unwrap();
    let en = self.p().precede(ex);
    self.marks.push(ManuallyDrop::new(en));
    let t = self.top();
    let i = t.items.iter().rposition(|x| matches!(x, Item::Node(j, _) if *j == id)).unwrap();
    let items = t.items.split_off(i);
    let toks = count_toks_fast(&items, t, i);
    t.toks -= toks;
    self.m.attempts[id as usize] = Attempt::Open;
    self.m.frames.push(Frame { items, toks, of: Some(id) });
  }

  pub fn bump(&mut self) {
    let got = self.p().bump();
    let want = self.sig_at(0);
    self.cmp_tok("bump", Some(got), want);
    self.m.cur += 1;
    let t = self.top();
    t.items.push(Item::Tok);
    t.toks += 1;
  }

  pub fn error(&mut self) {
    self.next_msg += 1;
    let e = E::Msg(self.next_msg);
    self.p().error(e);
    self.m.errs += 1;
    self.top().items.push(Item::Err(e));
  }

  pub fn peek(&mut self) -> Option<Tok> {
    let got = self.p().peek();
    let want = self.sig_at(0);
    self.cmp_tok("peek", got, want);
    want
  }

  pub fn peek_n(&mut self, n: usize) {
    let got = self.p().peek_n(n);
    let want = self.sig_at(n);
    self.cmp_tok(&format!("peek_n({n})"), got, want);
  }

  pub fn at(&mut self, k: K) -> bool {
    let got = self.p().at(k);
    let want = self.sig_at(0).is_some_and(|t| t.kind == k);
    let cur = self.m.cur;
    if got != want {
      self.differ(class::LOOK, || format!("at({k}) after {cur} tokens: got {got}, the reference says {want}"));
    }
    want
  }

  pub fn at_n(&mut self, n: usize, k: K) {
    let got = self.p().at_n(n, k);
    let want = self.sig_at(n).is_some_and(|t| t.kind == k);
    let cur = self.m.cur;
    if got != want {
      self.differ(class::LOOK, || {
        format!("at_n({n}, {k}) after {cur} tokens: got {got}, the reference says {want}")
      });
    }
  }

  pub fn eat(&mut self, k: K) -> bool {
    let got = self.p().eat(k);
    let want = self.sig_at(0).filter(|t| t.kind == k);
    self.cmp_tok(&format!("eat({k})"), got, want);
    if want.is_some() {
      self.m.cur += 1;
      let t = self.top();
      t.items.push(Item::Tok);
      t.toks += 1;
      true
    } else {
      self.m.errs += 1;
      self.top().items.push(Item::Err(E::Expected(k)));
      false
    }
  }

  /// `bump` when there is nothing to bump is documented to panic; nothing else may change.
  pub fn bump_none(&mut self) {
    let r = catch(|| self.p.as_mut().unwrap().bump());
    if let Ok(t) = r {
      self.differ(class::LOOK, || format!("bump at the end of the input returned {t:?}"));
    }
  }

  pub fn save(&mut self) {
    let real = self.p().save();
    self.saves.push(SaveRec {
      real,
      model: self.m.clone(),
      depth: self.depth(),
      next_id: self.exited.len() as u32,
    });
  }

  pub fn can_resolve(&self) -> bool {
    self.saves.last().is_some_and(|s| s.depth == self.depth())
  }

  /// The open constructs that may be closed: those opened since the last save.
  pub fn can_close(&self) -> bool {
    self.depth() > self.saves.last().map_or(0, |s| s.depth)
  }

  pub fn ok_since(&mut self) -> bool {
    let s = self.saves.pop().unwrap();
    let want = self.m.errs == s.model.errs;
    let got = self.p().ok_since(s.real);
    if got != want {
      let n = self.m.errs - s.model.errs;
      self.differ(class::SAVE, || format!("ok_since: got {got}, but {n} errors were recorded since the save"));
    }
    if !want {
      self.m = s.model;
      let n = self.exited.len();
      self.m.attempts.resize(n, Attempt::No);
    }
    want
  }

  /// Drops the marker of the innermost construct without closing it: must panic.
  pub fn drop_open(&mut self) -> Result<(), String> {
    let mark = ManuallyDrop::into_inner(self.marks.pop().unwrap());
    match catch(move || drop(mark)) {
      Err(_) => Ok(()),
      Ok(()) => Err("dropping the marker of an open construct did not panic".into()),
    }
  }

  /// A panic of the caller's own while constructs are open: the markers are dropped on the way out and
  /// must let it through (a second panic would abort the process).
  pub fn unwind(&mut self) -> Result<(), String> {
    let marks: Vec<_> = self.marks.drain(..).map(ManuallyDrop::into_inner).collect();
    match catch(move || {
      let _marks = marks;
      panic!("the caller's own panic");
    }) {
      Err(p) if p.contains("the caller's own panic") => Ok(()),
      Err(p) => Err(format!("the caller's own panic in an open construct came out as {p:?}")),
      Ok(()) => unreachable!("it panics"),
    }
  }

  /// Precedes a construct that already has (or is getting) a parent: must panic.
  pub fn precede_again(&mut self, id: u32) -> Result<(), String> {
    let ex = self.exited[id as usize].unwrap();
    let p = self.p.as_mut().unwrap();
    match catch(|| ManuallyDrop::new(p.precede(ex))) {
      Err(_) => Ok(()),
      Ok(_) => Err(format!("preceding construct {id} again was not rejected")),
    }
  }

  // ---- the end

  /// What the sink is to receive.
  pub fn expected(&self) -> Vec<Ev> {
    // 1. the calls in tree order, with trivia put at the first opportunity
    struct W<'w> {
      toks: &'w [Tok],
      at: usize,
      level: usize,
      out: Vec<Ev>,
    }
    impl W<'_> {
      fn trivia(&mut self) {
        while self.toks.get(self.at).is_some_and(|t| t.kind.is_trivia()) {
          self.out.push(Ev::Tok(self.at));
          self.at += 1;
        }
      }
      fn items(&mut self, items: &[Item]) {
        for i in items {
          match i {
            Item::Tok => {
              self.trivia();
              self.out.push(Ev::Tok(self.at));
              self.at += 1;
            }
            Item::Err(e) => self.out.push(Ev::Err(*e)),
            Item::Node(id, it) => {
              if self.level > 0 {
                // a construct nested in another one begins
                self.trivia();
              }
              self.out.push(Ev::Enter(node_kind(*id)));
              self.level += 1;
              self.items(it);
              if self.level == 1 {
                // the end of the root
                self.trivia();
              }
              self.level -= 1;
              self.out.push(Ev::Exit);
              if self.level == 1 {
                // a top-level construct of the root ended
                self.trivia();
              }
            }
          }
        }
      }
    }
    let mut w = W { toks: self.toks, at: 0, level: 0, out: vec![] };
    w.items(&self.m.frames[0].items);
    let all = w.out;
    // 2. constructs around no token disappear
    let mut keep = vec![true; all.len()];
    let mut open: Vec<(usize, bool)> = vec![];
    for (i, ev) in all.iter().enumerate() {
      match ev {
        Ev::Enter(_) => open.push((i, false)),
        Ev::Tok(_) => {
          for o in open.iter_mut().rev() {
            if o.1 {
              break;
            }
            o.1 = true;
          }
        }
        Ev::Exit => {
          let (j, any) = open.pop().unwrap();
          if !any {
            keep[i] = false;
            keep[j] = false;
          }
        }
        _ => {}
      }
    }
    let first = all.iter().find(|e| matches!(e, Ev::Enter(_))).copied();
    let any = all.iter().any(|e| matches!(e, Ev::Tok(_)));
    let mut out: Vec<Ev> = all.into_iter().zip(keep).filter(|x| x.1).map(|x| x.0).collect();
    // 3. ...unless nothing is left
    if !any {
      if let Some(e) = first {
        out.push(e);
        out.push(Ev::Exit);
      }
    }
    out
  }

  /// Finishes both and compares what is judged.
  pub fn finish(mut self, c: &mut Ch<'_>) -> Result<(), String> {
    if let Some(e) = self.err.take() {
      return Err(e);
    }
    let want = self.expected();
    let has_node = want.iter().any(|e| matches!(e, Ev::Enter(_)));
    let p = self.p.take().unwrap();
    let mut rec = Rec {
      toks: self.toks,
      evs: vec![],
      last: 0,
      rowan: (self.judge & class::ROWAN != 0 && has_node).then(RowanSink::default),
    };
    p.finish(&mut rec);
    for cl in [class::TOKENS, class::SHAPE, class::TRIVIA, class::ERRORS] {
      if self.judge & cl == 0 {
        continue;
      }
      c.checks(1);
      let g: Vec<Ev> = rec.evs.iter().copied().filter(|&e| keeps(cl, e, self.toks)).collect();
      let w: Vec<Ev> = want.iter().copied().filter(|&e| keeps(cl, e, self.toks)).collect();
      if g != w {
        let what = match cl {
          class::TOKENS => "tokens",
          class::SHAPE => "constructs and significant tokens",
          class::TRIVIA => "constructs and tokens",
          _ => "errors and significant tokens",
        };
        let i = (0..).find(|&i| g.get(i) != w.get(i)).unwrap();
        let cut = |v: &[Ev]| {
          let a = i.saturating_sub(6);
          format!("{:?}", &v[a.min(v.len())..(i + 8).min(v.len())])
        };
        return Err(format!(
          "the sink got the {what} (around number {i}) {}, the reference says {}",
          cut(&g),
          cut(&w)
        ));
      }
    }
    if let Some(r) = rec.rowan.take() {
      c.checks(1);
      self.check_rowan(r, &want)?;
    }
    Ok(())
  }

  fn check_rowan(&self, r: RowanSink<K, E>, want: &[Ev]) -> Result<(), String> {
    let (root, errors) = r.finish::<Lang>();
    // the tree
    let mut got = vec![];
    for e in root.preorder_with_tokens() {
      got.push(match e {
        rowan::WalkEvent::Enter(rowan::NodeOrToken::Node(n)) => (0, n.kind(), n.text_range(), String::new()),
        rowan::WalkEvent::Enter(rowan::NodeOrToken::Token(t)) => (1, t.kind(), t.text_range(), t.text().to_owned()),
        rowan::WalkEvent::Leave(rowan::NodeOrToken::Node(n)) => (2, n.kind(), n.text_range(), String::new()),
        rowan::WalkEvent::Leave(rowan::NodeOrToken::Token(_)) => continue,
      });
    }
    let mut exp: Vec<(i32, u16, (u32, u32), String)> = vec![];
    let mut at = 0u32;
    let mut open = vec![];
    for e in want {
      match *e {
        Ev::Enter(k) => {
          open.push(exp.len());
          exp.push((0, k.0, (at, at), String::new()));
        }
        Ev::Tok(i) => {
          let t = self.toks[i];
          exp.push((1, t.kind.0, (at, at + t.text.len() as u32), t.text.to_owned()));
          at += t.text.len() as u32;
        }
        Ev::Exit => {
          let o = open.pop().unwrap();
          exp[o].2.1 = at;
          let (k, r) = (exp[o].1, exp[o].2);
          exp.push((2, k, r, String::new()));
        }
        _ => {}
      }
    }
    let got: Vec<(i32, u16, (u32, u32), String)> =
      got.into_iter().map(|(a, k, r, t)| (a, k, (r.start().into(), r.end().into()), t)).collect();
    if got != exp {
      return Err(format!("the rowan tree is {got:?}, the reference says {exp:?}"));
    }
    // the errors
    let mut exp: Vec<((u32, u32), Option<K>, E)> = vec![];
    let mut pending = vec![];
    let mut at = 0u32;
    let mut last = ((0, 0), None);
    for e in want {
      match *e {
        Ev::Tok(i) => {
          let t = self.toks[i];
          last = ((at, at + t.text.len() as u32), Some(t.kind));
          at += t.text.len() as u32;
          if !t.kind.is_trivia() {
            exp.extend(pending.drain(..).map(|e| (last.0, last.1, e)));
          }
        }
        Ev::Err(e) => pending.push(e),
        _ => {}
      }
    }
    exp.extend(pending.drain(..).map(|e| (last.0, last.1, e)));
    let got: Vec<((u32, u32), Option<K>, E)> =
      errors.into_iter().map(|e| ((e.range.start().into(), e.range.end().into()), e.kind, e.inner)).collect();
    if got != exp {
      return Err(format!("the located errors are {got:?}, the reference says {exp:?}"));
    }
    Ok(())
  }
}

/// Significant tokens in `items`, which were split off `t` at `i`.
fn count_toks_fast(items: &[Item], t: &Frame, i: usize) -> usize {
  if i == 0 { t.toks } else { count_toks(items) }
}

