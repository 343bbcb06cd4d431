//! Long inputs on the stack that threads get by default, which the reference does not do with: see `parse_stack`.

use crate::dual::class;
use mcx::{Ch, Ctx, Res, bail, ensure_eq};
use parse_stack::{Ev, SHAPES, WS, on_small_stack};

pub fn space(x: &mut Ctx, judge: u32) {
  x.space(
    "small stack",
    "on a thread with the default stack of 2 megabytes: 20000 and 200000 nested constructs, constructs preceding one another, abandoned attempts to precede one, trivia tokens in a row, constructs in a row, nested attempts, errors at a place, tokens looked over",
    move |c| small_stack(c, judge),
  );
}

fn small_stack(c: &mut Ch<'_>, judge: u32) -> Res {
  let shape = c.pick(SHAPES.len());
  let n = *c.of(&[20_000usize, 200_000]);
  c.log(|| format!("{} x {n}", SHAPES[shape]));
  let Ok((got, want, side)) = on_small_stack(shape, n) else { bail!("{} x {n}: panicked", SHAPES[shape]) };
  c.checks(1);
  if let Some(side) = side {
    bail!("{} x {n}: {side}", SHAPES[shape]);
  }
  let part = |v: &[Ev]| -> Vec<Ev> {
    v.iter()
      .copied()
      .filter(|e| match *e {
        Ev::Enter(_) | Ev::Exit => judge & (class::SHAPE | class::TRIVIA) != 0,
        Ev::Token(_, k) => k != WS || judge & (class::TOKENS | class::TRIVIA) != 0,
        Ev::Error(_) => judge & class::ERRORS != 0,
      })
      .collect()
  };
  let (got, want) = (part(&got), part(&want));
  for (i, (g, w)) in got.iter().zip(&want).enumerate() {
    ensure_eq!(g, w, "{} x {n}: the sink's event {i}", SHAPES[shape]);
  }
  ensure_eq!(got.len(), want.len(), "{} x {n}: events the sink received", SHAPES[shape]);
  Ok(())
}
