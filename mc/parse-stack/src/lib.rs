//! Long inputs on the stack that threads get by default: the calls go to the parser, and what is to be received is
//! listed by a loop. A package of its own, so that one of its builds is without optimisation, which can hide that
//! code calls itself.

use event_parse::{Expected, Parser, Sink};
use token::{Token, Triviable};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct K(pub u16);
pub const WS: K = K(0);
const A: K = K(2);
const PLUS: K = K(3);

impl Triviable for K {
  fn is_trivia(&self) -> bool {
    *self == WS
  }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum E {
  Expected(K),
  Msg(u32),
}

impl Expected<K> for E {
  fn expected(kind: K) -> Self {
    E::Expected(kind)
  }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Ev {
  Enter(K),
  /// the place of the token, and its kind
  Token(usize, K),
  Exit,
  Error(E),
}

const TEXT: &str = "abcdefgh";

struct Trace(Vec<Ev>);

impl Sink<K, E> for Trace {
  fn enter(&mut self, kind: K) {
    self.0.push(Ev::Enter(kind));
  }
  fn token(&mut self, token: Token<'_, K>) {
    self.0.push(Ev::Token(token.text.as_ptr() as usize, token.kind));
  }
  fn exit(&mut self) {
    self.0.push(Ev::Exit);
  }
  fn error(&mut self, error: E) {
    self.0.push(Ev::Error(error));
  }
}

pub const SHAPES: [&str; 8] =
  ["nested", "preceding", "abandoned", "trivia", "in a row", "attempts", "errors", "lookahead"];

/// What the sink received, what it should have, and what else went wrong.
pub type Ran = (Vec<Ev>, Vec<Ev>, Option<String>);

/// Runs the program of the shape.
pub fn on_small_stack(shape: usize, n: usize) -> std::thread::Result<Ran> {
  let mut kinds = vec![];
  match shape {
    3 => {
      kinds.extend(std::iter::repeat_n(WS, n));
      kinds.push(A);
      kinds.extend(std::iter::repeat_n(WS, n));
    }
    4 => kinds.extend((0..2 * n).map(|i| if i % 2 == 0 { WS } else { A })),
    5 | 7 => kinds.extend((0..=n).map(|i| [A, PLUS][i % 2])),
    _ => kinds.push(A),
  }
  // the texts lie in a row
  let text = TEXT.repeat(kinds.len() / TEXT.len() + 1);
  let toks: Vec<_> =
    kinds.iter().enumerate().map(|(i, &kind)| Token { kind, text: &text[i..=i] }).collect();
  std::thread::scope(|sc| {
    std::thread::Builder::new()
      .stack_size(2 << 20)
      .spawn_scoped(sc, || run(shape, n, &toks))
      .expect("spawn")
      .join()
  })
}

fn run(shape: usize, n: usize, toks: &[Token<'_, K>]) -> Ran {
  let tok = |i: usize| Ev::Token(toks[i].text.as_ptr() as usize, toks[i].kind);
  let k = |i: usize| K(100 + (i % 60_000) as u16);
  let mut w = vec![];
  let mut side = None;
  let mut p = Parser::<'_, K, E>::new(toks);
  match shape {
    0 => {
      let mut open = vec![];
      for i in 0..n {
        open.push(p.enter());
        w.push(Ev::Enter(k(i)));
      }
      p.bump();
      w.push(tok(0));
      for i in (0..n).rev() {
        p.exit(open.pop().expect("open"), k(i));
        w.push(Ev::Exit);
      }
    }
    1 | 2 => {
      let root = p.enter();
      w.push(Ev::Enter(k(n + 1)));
      let en = p.enter();
      p.bump();
      let mut ex = p.exit(en, k(0));
      for i in 1..=n {
        let en = p.precede(ex);
        if shape == 1 {
          ex = p.exit(en, k(i));
        } else {
          p.abandon(en);
        }
      }
      p.exit(root, k(n + 1));
      let last = if shape == 1 { n } else { 0 };
      w.extend((0..=last).rev().map(|i| Ev::Enter(k(i))));
      w.push(tok(0));
      w.extend((0..=last + 1).map(|_| Ev::Exit));
    }
    3 => {
      let root = p.enter();
      if p.peek().map(|t| t.kind) != Some(A) || !p.at(A) || p.peek_n(1).is_some() {
        side = Some("what lies behind the trivia is not seen".into());
      }
      p.bump();
      if p.peek().is_some() {
        side = Some("a token is seen in the trivia at the end".into());
      }
      p.exit(root, k(0));
      w.push(Ev::Enter(k(0)));
      w.extend((0..=2 * n).map(tok));
      w.push(Ev::Exit);
    }
    4 => {
      let root = p.enter();
      w.push(Ev::Enter(k(0)));
      for i in 0..n {
        let en = p.enter();
        p.bump();
        p.exit(en, k(i + 1));
        w.extend([tok(2 * i), Ev::Enter(k(i + 1)), tok(2 * i + 1), Ev::Exit]);
      }
      p.exit(root, k(0));
      w.push(Ev::Exit);
    }
    5 => {
      let root = p.enter();
      let mut saves = vec![];
      for _ in 0..n {
        saves.push(p.save());
        p.bump();
      }
      // the innermost attempt fails; the rest does not
      p.error(E::Msg(0));
      if p.ok_since(saves.pop().expect("saved")) {
        side = Some("an attempt with an error passed for one without".into());
      }
      // each looks through what was recorded since: a few of them
      let m = saves.len();
      for (i, save) in saves.into_iter().enumerate().rev() {
        if (m - i) % (n / 50) == 0 && !p.ok_since(save) {
          side = Some("an attempt failed for an error taken back".into());
        }
      }
      p.bump();
      p.bump();
      p.exit(root, k(0));
      w.push(Ev::Enter(k(0)));
      w.extend((0..=n).map(tok));
      w.push(Ev::Exit);
    }
    6 => {
      let root = p.enter();
      p.bump();
      w.extend([Ev::Enter(k(0)), tok(0)]);
      for i in 0..n {
        p.error(E::Msg(i as u32));
        w.push(Ev::Error(E::Msg(i as u32)));
      }
      p.exit(root, k(0));
      w.push(Ev::Exit);
    }
    _ => {
      let root = p.enter();
      for (at, there) in [(n, true), (n + 1, false), (n - 1, true)] {
        let got = p.peek_n(at);
        if got.map(|t| t.text.as_ptr()) != toks.get(at).filter(|_| there).map(|t| t.text.as_ptr()) {
          side = Some(format!("not the token {at} ahead"));
        }
      }
      w.push(Ev::Enter(k(0)));
      for i in 0..=n {
        p.bump();
        w.push(tok(i));
      }
      p.exit(root, k(0));
      w.push(Ev::Exit);
    }
  }
  let mut t = Trace(vec![]);
  p.finish(&mut t);
  (t.0, w, side)
}
