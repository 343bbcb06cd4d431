//! P01, P02: text positions. P03, P04: applying changes.

use apply_changes::Change;
use mcx::{Ch, Ctx, Prop, Res, bail, catch, ensure, ensure_eq};
use text_pos::{PositionDb, PositionUtf16, RangeUtf16};
use text_size_util::{TextRange, TextSize};

fn main() {
  mcx::main(&[
    Prop { id: "P01", run: p01 },
    Prop { id: "P02", run: p02 },
    Prop { id: "P03", run: p03 },
    Prop { id: "P04", run: p04 },
  ]);
}

// ---------------------------------------------------------------------------------------------
// the reference: scan the text, one character at a time

/// For each byte offset on a char boundary (0..=len), its `(line, utf16 col)`.
struct RefText {
  len: usize,
  /// indexed by byte offset; None inside a character
  at: Vec<Option<(u32, u32)>>,
  /// per line, the list of (utf16 col, offset), ascending
  lines: Vec<Vec<(u32, u32)>>,
}

impl RefText {
  fn new(s: &str) -> Self {
    let mut at = vec![None; s.len() + 1];
    let mut lines = vec![vec![]];
    let (mut line, mut col) = (0u32, 0u32);
    for (i, c) in s.char_indices() {
      at[i] = Some((line, col));
      lines[line as usize].push((col, i as u32));
      if c == '\n' {
        line += 1;
        col = 0;
        lines.push(vec![]);
      } else {
        col += c.len_utf16() as u32;
      }
    }
    at[s.len()] = Some((line, col));
    lines[line as usize].push((col, s.len() as u32));
    Self { len: s.len(), at, lines }
  }
  fn pos(&self, off: u64) -> Option<(u32, u32)> {
    usize::try_from(off).ok().and_then(|o| self.at.get(o).copied().flatten())
  }
  fn off(&self, line: u32, col: u32) -> Option<u32> {
    let l = self.lines.get(line as usize)?;
    l.binary_search_by_key(&col, |x| x.0).ok().map(|i| l[i].1)
  }
  fn end(&self) -> (u32, u32) {
    self.at[self.len].unwrap()
  }
}

fn pos(line: u32, col: u32) -> PositionUtf16 {
  PositionUtf16 { line, col }
}
fn tup(p: PositionUtf16) -> (u32, u32) {
  (p.line, p.col)
}

/// Compares both directions on all offsets given and all positions given.
fn check_points(
  c: &mut Ch<'_>,
  s: &str,
  r: &RefText,
  offs: &[u32],
  poss: &[(u32, u32)],
) -> Res {
  let db = PositionDb::new(s);
  for &o in offs {
    let got = db.position_utf16(TextSize::from(o)).map(tup);
    ensure_eq!(got, r.pos(u64::from(o)), "position of offset {o} in {}", show(s));
  }
  for &(l, k) in poss {
    let got = catch(|| db.text_size_utf16(pos(l, k)))
      .map_err(|p| format!("offset of line {l} col {k} in {}: panicked: {p}", show(s)))?
      .map(u32::from);
    ensure_eq!(got, r.off(l, k), "offset of line {l} col {k} in {}", show(s));
  }
  c.checks((offs.len() + poss.len()) as u64);
  Ok(())
}

fn show(s: &str) -> String {
  if s.len() <= 120 {
    format!("{s:?}")
  } else {
    let head: String = s.chars().take(40).collect();
    format!("{head:?}... ({} bytes)", s.len())
  }
}

const EXTREME: [u32; 6] = [0x7fff_ffff, 0x8000_0000, u32::MAX - 4, u32::MAX - 2, u32::MAX - 1, u32::MAX];

fn all_points(r: &RefText) -> (Vec<u32>, Vec<(u32, u32)>) {
  let mut offs: Vec<u32> = (0..=r.len as u32 + 3).collect();
  offs.extend([255, 256, 65535, 65536]);
  offs.extend(EXTREME);
  let mut poss = vec![];
  let nl = r.lines.len() as u32;
  for l in 0..nl + 2 {
    let max = r.lines.get(l as usize).and_then(|x| x.last()).map_or(0, |x| x.0);
    for k in 0..=max + 4 {
      poss.push((l, k));
    }
    for e in EXTREME {
      poss.push((l, e));
    }
    poss.push((l, r.len as u32));
    poss.push((l, r.len as u32 + 1));
  }
  for e in EXTREME {
    poss.extend([(e, 0), (e, 1), (e, e)]);
  }
  (offs, poss)
}

const ALPHA: [&str; 8] = ["a", "\n", "é", "😀", "\r", "メ", "\u{7f}", "\u{2028}"];

fn word(c: &mut Ch<'_>, max: usize, alpha: &[&str]) -> String {
  let mut s = String::new();
  for _ in 0..max {
    let k = c.pick(alpha.len() + 1);
    if k == 0 {
      break;
    }
    s.push_str(alpha[k - 1]);
  }
  s
}

/// Texts long enough to reach every block-wise or size-dependent path: filler of every length around
/// the 16-byte blocks, then a short word, then more filler.
fn padded(c: &mut Ch<'_>, max_pad: usize, word_len: usize, alpha: &[&str]) -> String {
  let filler = *c.of(&["x", "x\n", "é", "\n"]);
  let pre = c.pick(max_pad);
  let w = word(c, word_len, alpha);
  let post = *c.of(&[0usize, 3, 16, 17, 33]);
  let mut s = String::new();
  while s.len() < pre {
    s.push_str(filler);
  }
  s.push_str(&w);
  for _ in 0..post {
    s.push('y');
  }
  s
}

/// Large texts: an alphabet of long runs; up to three runs with a short word between them.
fn large(c: &mut Ch<'_>) -> String {
  const RUNS: [(&str, usize); 8] = [
    ("a", 70_000),
    ("\n", 66_000),
    ("é", 40_000),
    ("😀", 33_000),
    ("ab\n", 300),
    ("é\n", 258),
    ("a", 257),
    ("😀\n", 130),
  ];
  let mut s = String::new();
  for _ in 0..2 {
    let k = c.pick(RUNS.len() + 1);
    if k > 0 {
      let (u, n) = RUNS[k - 1];
      for _ in 0..n {
        s.push_str(u);
      }
    }
    s.push_str(["", "é", "\n", "😀b"][c.pick(4)]);
  }
  s
}

/// Interesting offsets and positions of a large text: everything near a run border, a line start,
/// a power of two and the end.
fn sparse_points(r: &RefText) -> (Vec<u32>, Vec<(u32, u32)>) {
  let mut offs = vec![];
  let mut near = |o: i64| {
    for d in -3..=3 {
      if let Ok(x) = u32::try_from(o + d) {
        offs.push(x);
      }
    }
  };
  for p in [0, 127, 128, 255, 256, 257, 512, 1024, 4096, 32768, 65535, 65536, 70000, 131072] {
    near(p);
  }
  near(r.len as i64);
  for l in [0usize, 1, 2, 127, 128, 255, 256, 257, 299, 300, 301, 32768, 65535, 65536] {
    if let Some(x) = r.lines.get(l) {
      near(i64::from(x[0].1));
      near(i64::from(x.last().unwrap().1));
    }
  }
  let nl = r.lines.len();
  for l in nl.saturating_sub(3)..nl {
    near(i64::from(r.lines[l][0].1));
  }
  offs.extend(EXTREME);
  offs.sort_unstable();
  offs.dedup();
  let mut poss = vec![];
  for &o in &offs {
    if let Some((l, k)) = r.pos(u64::from(o)) {
      for d in 0..3 {
        poss.push((l, k + d));
        poss.push((l + d, k));
      }
      let end = r.lines[l as usize].last().unwrap().0;
      poss.extend([(l, end), (l, end + 1), (l, u32::MAX), (l, 65536 + k), (l + 65536, k)]);
    }
  }
  (offs, poss)
}

/// Texts in which a character stands at the start, in the middle and at the end, alone and doubled.
fn around(ch: char) -> [String; 3] {
  [format!("{ch}"), format!("{ch}a\n{ch}"), format!("b{ch}{ch}\n\n{ch}z\n")]
}

/// The characters of one block of 256 code points.
fn block(hi: usize) -> impl Iterator<Item = char> {
  (0..256u32).filter_map(move |lo| char::from_u32((hi as u32) << 8 | lo))
}

fn p01(x: &mut Ctx) {
  let n = x.by(7, 8);
  x.space(
    "words",
    format!("all texts of up to {n} symbols over {ALPHA:?}; all offsets 0..=len+3 and extremes; all (line, col) up to 2 lines and 4 columns too far, and extremes"),
    |c| {
      let s = word(c, n, &ALPHA);
      let r = RefText::new(&s);
      c.state(&s);
      c.log(|| format!("text {s:?}"));
      let (o, p) = all_points(&r);
      check_points(c, &s, &r, &o, &p)
    },
  );
  let (mp, wl) = x.by((68, 2), (68, 4));
  x.space(
    "padded",
    format!("filler of every length < {mp} (4 kinds), then all words of up to {wl} symbols, then 5 tails; all offsets and positions"),
    |c| {
      let s = padded(c, mp, wl, &ALPHA);
      let r = RefText::new(&s);
      c.state(&s);
      c.log(|| format!("text {s:?}"));
      let (o, p) = all_points(&r);
      check_points(c, &s, &r, &o, &p)
    },
  );
  x.space(
    "large",
    "all texts made of up to 2 long runs (8 kinds, up to 70000 repetitions) each followed by one of 4 short words; offsets and positions near every border",
    |c| {
      let s = large(c);
      let r = RefText::new(&s);
      c.state(&s);
      c.log(|| format!("text {}", show(&s)));
      let (o, p) = sparse_points(&r);
      check_points(c, &s, &r, &o, &p)
    },
  );
  x.space("every character", "all characters of Unicode, in 3 texts each: at the start, the end, doubled, alone; all offsets and positions", |c| {
    let hi = c.pick(0x1100);
    for ch in block(hi) {
      for s in around(ch) {
        let r = RefText::new(&s);
        let (o, p) = all_points(&r);
        check_points(c, &s, &r, &o, &p)?;
      }
    }
    Ok(())
  });
}

// ---------------------------------------------------------------------------------------------

fn rng(a: u32, b: u32) -> TextRange {
  TextRange::new(a.into(), b.into())
}

fn check_ranges(c: &mut Ch<'_>, s: &str, r: &RefText, offs: &[u32], poss: &[(u32, u32)]) -> Res {
  let db = PositionDb::new(s);
  ensure_eq!(u64::from(u32::from(db.len())), r.len as u64, "length of {}", show(s));
  ensure_eq!(tup(db.end_position_utf16()), r.end(), "end position of {}", show(s));
  for (i, &a) in offs.iter().enumerate() {
    for &b in &offs[i..] {
      let got = db.range_utf16(rng(a, b)).map(|x| (tup(x.start), tup(x.end)));
      let want = r.pos(a.into()).zip(r.pos(b.into()));
      ensure_eq!(got, want, "UTF-16 range of {a}..{b} in {}", show(s));
      if b as usize <= r.len {
        let got: Vec<(u32, u32)> =
          db.lines(rng(a, b)).map(|x| (x.start().into(), x.end().into())).collect();
        let mut want = vec![];
        let mut st = a;
        // break after each newline strictly inside the range
        let first_line = match r.pos(a.into()) {
          Some((l, _)) => l,
          None => {
            let mut a = a;
            while r.pos(a.into()).is_none() {
              a -= 1;
            }
            r.pos(a.into()).unwrap().0
          }
        };
        for l in &r.lines[first_line as usize + 1..] {
          let o = l[0].1;
          if o >= b {
            break;
          }
          if o > st {
            want.push((st, o));
            st = o;
          }
        }
        if st < b {
          want.push((st, b));
        }
        ensure_eq!(got, want, "lines of {a}..{b} in {}", show(s));
      }
    }
  }
  let n = poss.len();
  for i in 0..n {
    for j in i..n {
      let (a, b) = (poss[i], poss[j]);
      let ru = RangeUtf16 { start: pos(a.0, a.1), end: pos(b.0, b.1) };
      let got = catch(|| db.text_range_utf16(ru))
        .map_err(|p| format!("byte range of {a:?}..{b:?} in {}: panicked: {p}", show(s)))?
        .map(|x| (u32::from(x.start()), u32::from(x.end())));
      let want = r.off(a.0, a.1).zip(r.off(b.0, b.1));
      ensure_eq!(got, want, "byte range of {a:?}..{b:?} in {}", show(s));
    }
    ensure_eq!(
      RangeUtf16::zero(pos(poss[i].0, poss[i].1)),
      RangeUtf16 { start: pos(poss[i].0, poss[i].1), end: pos(poss[i].0, poss[i].1) },
      "zero range"
    );
  }
  c.checks((offs.len() * offs.len() / 2 + n * n / 2) as u64);
  Ok(())
}

/// A sorted list of positions that exist and that do not.
fn some_positions(r: &RefText, per_line: u32) -> Vec<(u32, u32)> {
  let mut poss = vec![];
  let nl = r.lines.len() as u32;
  for l in 0..nl + 1 {
    let max = r.lines.get(l as usize).and_then(|x| x.last()).map_or(0, |x| x.0);
    for k in 0..=max + per_line {
      poss.push((l, k));
    }
    poss.push((l, u32::MAX));
  }
  poss.push((u32::MAX, 0));
  poss
}

fn p02(x: &mut Ctx) {
  let n = x.by(6, 7);
  x.space(
    "words",
    format!("all texts of up to {n} symbols over {ALPHA:?}; all ordered pairs of offsets 0..=len+1 and of positions up to one line and one column too far"),
    |c| {
      let s = word(c, n, &ALPHA);
      let r = RefText::new(&s);
      c.state(&s);
      c.log(|| format!("text {s:?}"));
      let mut offs: Vec<u32> = (0..=r.len as u32 + 1).collect();
      offs.push(u32::MAX);
      let poss = some_positions(&r, 1);
      check_ranges(c, &s, &r, &offs, &poss)
    },
  );
  let (mp, wl) = x.by((52, 1), (68, 2));
  x.space(
    "padded",
    format!("filler of every length < {mp} (4 kinds), then all words of up to {wl} symbols, then 5 tails; all pairs of offsets and positions"),
    |c| {
      let s = padded(c, mp, wl, &ALPHA);
      let r = RefText::new(&s);
      c.state(&s);
      c.log(|| format!("text {s:?}"));
      let offs: Vec<u32> = (0..=r.len as u32 + 1).collect();
      let mut poss = some_positions(&r, 1);
      if poss.len() > 120 {
        poss = poss.into_iter().step_by(3).collect();
      }
      check_ranges(c, &s, &r, &offs, &poss)
    },
  );
  x.space(
    "large",
    "all texts made of up to 2 long runs (8 kinds, up to 70000 repetitions) each followed by one of 4 short words; pairs of offsets and positions near every border",
    |c| {
      let s = large(c);
      let r = RefText::new(&s);
      c.state(&s);
      c.log(|| format!("text {}", show(&s)));
      let (mut o, mut p) = sparse_points(&r);
      o = o.into_iter().step_by(9).collect();
      // the lines iterator is linear in the range: keep some short and some long ones
      o.truncate(40);
      o.extend([r.len as u32 - u32::from(r.len > 0), r.len as u32]);
      o.sort_unstable();
      p = p.into_iter().step_by(17).collect();
      p.sort_unstable();
      p.truncate(60);
      check_ranges(c, &s, &r, &o, &p)
    },
  );
  let n_texts = x.by(1, 2);
  x.space("every character", "all characters of Unicode, in a text (thorough: 2) each; all ordered pairs of offsets and positions", |c| {
    let hi = c.pick(0x1100);
    for ch in block(hi) {
      for s in around(ch).into_iter().skip(1).take(n_texts) {
        let r = RefText::new(&s);
        let offs: Vec<u32> = (0..=r.len as u32 + 1).collect();
        let poss = some_positions(&r, 1);
        check_ranges(c, &s, &r, &offs, &poss)?;
      }
    }
    Ok(())
  });
}

// ---------------------------------------------------------------------------------------------
// changes

/// The reference: interpret one change in the text as it is now.
fn apply_ref(text: &mut String, range: Option<((u32, u32), (u32, u32))>, new: &str) {
  match range {
    None => *text = new.to_owned(),
    Some((a, b)) => {
      let r = RefText::new(text);
      if let (Some(i), Some(j)) = (r.off(a.0, a.1), r.off(b.0, b.1)) {
        text.replace_range(i as usize..j as usize, new);
      }
    }
  }
}

fn mk_change(range: Option<((u32, u32), (u32, u32))>, new: &str) -> Change {
  Change {
    range: range.map(|(a, b)| RangeUtf16 { start: pos(a.0, a.1), end: pos(b.0, b.1) }),
    text: new.to_owned(),
  }
}

fn finish_changes(c: &mut Ch<'_>, init: &str, model: &str, changes: Vec<Change>) -> Res {
  let mut got = init.to_owned();
  let desc = if c.tracing() { format!("{changes:?}") } else { String::new() };
  let r = catch(|| apply_changes::get(&mut got, changes));
  c.log(|| format!("initial {} changes {desc} -> {}", show(init), show(&got)));
  c.checks(1);
  if let Err(p) = r {
    bail!("applying the batch panicked: {p}");
  }
  ensure!(got == model, "applying the batch gives {}, one at a time gives {}", show(&got), show(model));
  Ok(())
}

/// Picks a valid range of the model text: the `i`-th boundary and a `j >= i`.
fn pick_valid(c: &mut Ch<'_>, text: &str) -> ((u32, u32), (u32, u32)) {
  let r = RefText::new(text);
  let all: Vec<(u32, u32)> = r.at.iter().filter_map(|x| *x).collect();
  let i = c.pick(all.len());
  let j = i + c.pick(all.len() - i);
  (all[i], all[j])
}

fn p03(x: &mut Ctx) {
  every_character(x);
  // one batch of up to n changes on tiny texts, everything possible
  let inits = ["", "a", "\n", "a\nb", "😀\n", "é\n\nb"];
  let repl = ["", "x", "\n", "y\n😀"];
  let n = x.by(3, 4);
  let m = x.by(7, 3);
  x.space(
    "tiny",
    format!("texts {inits:?} (those of more than {m} bytes with one change less) x all batches of up to {n} changes: whole-document or any valid range of the current text, replaced by any of {repl:?}"),
    |c| {
      let init = *c.of(&inits);
      let lim = if init.len() > m { n - 1 } else { n };
      let mut model = init.to_owned();
      let mut changes = vec![];
      for _ in 0..lim {
        let k = c.pick(3);
        if k == 0 {
          break;
        }
        let new = *c.of(&repl);
        let range = if k == 1 { Some(pick_valid(c, &model)) } else { None };
        apply_ref(&mut model, range, new);
        changes.push(mk_change(range, new));
        c.state(&(&model, changes.len()));
      }
      finish_changes(c, init, &model, changes)
    },
  );
  // line-structured texts and edits at line granularity: exercises the cached index thoroughly
  let n = x.by(3, 4);
  let texts = ["a\nb\nc\nd", "é\n😀\n\nx\n"];
  x.space(
    "lines",
    format!("texts {texts:?}; all batches of exactly {n} ranged edits whose ends are line starts or line ends, replaced by \"\", \"z\", \"\\n\" or \"é\\nw\""),
    |c| {
      let init = *c.of(&texts);
      let repl = ["", "z", "\n", "é\nw"];
      let mut model = init.to_owned();
      let mut changes = vec![];
      for step in 0..n {
        let r = RefText::new(&model);
        let mut pts: Vec<(u32, u32)> = vec![];
        for (l, cols) in r.lines.iter().enumerate() {
          pts.push((l as u32, 0));
          let e = cols.last().unwrap().0;
          if e != 0 {
            pts.push((l as u32, e));
          }
        }
        if step >= 2 {
          // later edits: line starts only
          pts.retain(|p| p.1 == 0);
        }
        let i = c.pick(pts.len());
        let j = i + c.pick(pts.len() - i);
        let new = *c.of(&repl);
        let range = Some((pts[i], pts[j]));
        apply_ref(&mut model, range, new);
        changes.push(mk_change(range, new));
        c.state(&(&model, changes.len()));
      }
      finish_changes(c, init, &model, changes)
    },
  );
  // all orders of touching lines, with single-point edits, many changes
  let n = x.by(5, 6);
  x.space(
    "orders",
    format!("text of 3 lines; all batches of exactly {n} edits, each on any line: insert a line break at its start, insert \"é\" at its end, delete it with its line break, or replace everything"),
    |c| {
      let init = "a\n😀\nb";
      let mut model = init.to_owned();
      let mut changes = vec![];
      for _ in 0..n {
        let r = RefText::new(&model);
        let l = c.pick(r.lines.len().min(4) + 1);
        let (range, new) = if l == r.lines.len().min(4) {
          (None, "p\nq\n")
        } else {
          let e = r.lines[l].last().unwrap().0;
          let lu = l as u32;
          match c.pick(3) {
            0 => (Some(((lu, 0), (lu, 0))), "\n"),
            1 => (Some(((lu, e), (lu, e))), "é"),
            _ => {
              let to = if l + 1 < r.lines.len() { (lu + 1, 0) } else { (lu, e) };
              (Some(((lu, 0), to)), "")
            }
          }
        };
        apply_ref(&mut model, range, new);
        changes.push(mk_change(range, new));
        c.state(&(&model, changes.len()));
      }
      finish_changes(c, init, &model, changes)
    },
  );
  // many changes in one batch: a default run of appends or prepends with up to 2 deviations
  let (len, dev) = x.by((24, 2), (40, 2));
  x.space(
    "batches",
    format!("batches of {len} edits, default direction bottom-up, top-down or all at the end, with up to {dev} deviating edits (8 kinds) at every place"),
    |c| {
      let dir = c.pick(3);
      let mut model = String::new();
      for i in 0..len {
        model.push_str(["l", "é", "😀", ""][i % 4]);
        model.push('\n');
      }
      let init = model.clone();
      let mut changes = vec![];
      let mut budget = dev;
      for i in 0..len as u32 {
        let d = c.deviate(&mut budget, 9);
        let r = RefText::new(&model);
        let last = r.lines.len() as u32 - 1;
        let line = match dir {
          0 => (len as u32 - 1 - i).min(last),
          1 => i.min(last),
          _ => last,
        };
        let e = r.lines[line as usize].last().unwrap().0;
        let end = r.end();
        let (range, new) = match d {
          0 => (Some(((line, 0), (line, 0))), "k"),
          1 => (None, "one\n😀two\n\nthree"),
          2 => (Some(((0, 0), (0, 0))), "top\n"),
          3 => (Some(((0, 0), end)), "all\ngone\n"),
          4 => (Some(((line, e), end)), ""),
          5 => (Some(((0, 0), (line, e))), "é"),
          6 => (Some((end, end)), "\nend"),
          7 => (Some(((line, 0), (line, e))), "a\r\nb\n"),
          _ => (Some(((last / 2, 0), (last, 0))), "mid\n"),
        };
        apply_ref(&mut model, range, new);
        changes.push(mk_change(range, new));
      }
      c.state(&model);
      finish_changes(c, &init, &model, changes)
    },
  );
  // sizes: long documents and long lines
  x.space(
    "sizes",
    "documents of 255..257, 1000 and 66000 lines or columns (4 line contents); all batches of 2 edits over all ordered pairs of 6 places (4 in the largest) x 2 replacements",
    |c| {
      let n = *c.of(&[255usize, 256, 257, 1000, 66_000]);
      let unit = *c.of(&["\n", "é\n", "a", "😀"]);
      let init = unit.repeat(n);
      let mut model = init.clone();
      let mut changes = vec![];
      for _ in 0..2 {
        let r = RefText::new(&model);
        let bounds: Vec<(u32, u32)> = r.at.iter().filter_map(|x| *x).collect();
        let k = bounds.len() - 1;
        let mut pts = if n > 1000 {
          vec![0, 256.min(k), 65_536.min(k), k]
        } else {
          vec![0, 1.min(k), 254.min(k), 256.min(k), k.saturating_sub(1), k]
        };
        pts.sort_unstable();
        pts.dedup();
        let i = c.pick(pts.len());
        let j = i + c.pick(pts.len() - i);
        let new = *c.of(&["", "x\né"]);
        let range = Some((bounds[pts[i]], bounds[pts[j]]));
        apply_ref(&mut model, range, new);
        changes.push(mk_change(range, new));
      }
      c.state(&model);
      finish_changes(c, &init, &model, changes)
    },
  );
}

/// Every character as (part of) a text, in a change and in what a change takes out.
fn every_character(x: &mut Ctx) {
  x.space("every character", "all characters of Unicode: in the text, in a change and in a whole-document change, followed by a change after it; 4 batches each", |c| {
    let hi = c.pick(0x1100);
    for ch in block(hi) {
      let init = format!("{ch}b\n{ch}d{ch}");
      let with = format!("{ch}\n{ch}{ch}");
      for kind in 0..4 {
        let mut model = init.clone();
        let mut changes = vec![];
        for step in 0..2 {
          let r = RefText::new(&model);
          let all: Vec<(u32, u32)> = r.at.iter().filter_map(|x| *x).collect();
          let n = all.len() - 1;
          let range = match (kind, step) {
            (0, 0) => Some((all[0], all[1])),
            (1, 0) => Some((all[1], all[2])),
            (2, 0) => None,
            (3, 0) => Some((all[0], all[0])),
            _ => Some((all[n - 1], all[n])),
          };
          apply_ref(&mut model, range, &with);
          changes.push(mk_change(range, &with));
        }
        finish_changes(c, &init, &model, changes)?;
      }
    }
    Ok(())
  });
}

fn p04(x: &mut Ctx) {
  // every position in and around the text, valid or not
  let inits = ["", "a", "a\n", "😀b", "é\nx", "a\n\n😀"];
  let n = x.by(2, 3);
  x.space(
    "around",
    format!("texts {inits:?}; all batches of up to {n} ranged edits whose ends are any (line, col) up to 1 line / 2 columns too far or huge, start <= end, replaced by \"\" or \"q\\nr\""),
    |c| {
      let init = *c.of(&inits);
      let mut model = init.to_owned();
      let mut changes = vec![];
      for step in 0..n {
        if step > 0 && c.flag() {
          break;
        }
        let r = RefText::new(&model);
        let mut pts = some_positions(&r, 2);
        if step == 2 {
          pts = pts.into_iter().step_by(3).collect();
        }
        let i = c.pick(pts.len());
        let j = i + c.pick(pts.len() - i);
        let new = *c.of(&["", "q\nr"]);
        let (a, b) = (pts[i], pts[j]);
        c.outcome(match (r.off(a.0, a.1), r.off(b.0, b.1)) {
          (Some(_), Some(_)) => "valid edit",
          (Some(_), None) => "end does not exist",
          (None, Some(_)) => "start does not exist",
          (None, None) => "neither end exists",
        });
        let range = Some((a, b));
        apply_ref(&mut model, range, new);
        changes.push(mk_change(range, new));
        c.state(&(&model, changes.len()));
      }
      finish_changes(c, init, &model, changes)
    },
  );
  let n = x.by(4, 5);
  x.space(
    "mixed",
    format!("text of 4 lines; all batches of exactly {n} edits out of 12 kinds, valid ones in any order of lines and ones whose start or end is past a line, past the text, inside a surrogate pair or huge, and whole-document replacement"),
    |c| {
      let init = "ab\n😀\n\nd\n";
      let mut model = init.to_owned();
      let mut changes = vec![];
      for _ in 0..n {
        let r = RefText::new(&model);
        let last = r.lines.len() as u32 - 1;
        let mid = last / 2;
        let e = |l: u32| r.lines[l as usize].last().unwrap().0;
        let (range, new) = match c.pick(12) {
          0 => (Some(((0, 0), (0, 0))), "x"),
          1 => (Some(((last, e(last)), (last, e(last)))), "é\n"),
          2 => (Some(((mid, 0), (mid, e(mid)))), "w"),
          3 => (Some(((0, e(0) + 1), (0, e(0) + 1))), "BAD"),
          4 => (Some(((mid, 0), (mid, e(mid) + 1))), "BAD"),
          5 => (Some(((mid, e(mid)), (last + 1, 0))), "BAD"),
          6 => (Some(((0, 1), (0, u32::MAX))), "BAD"),
          7 => (Some(((mid, 1), (mid, 1))), "s"),
          8 => (Some(((last, e(last) + 1), (u32::MAX, u32::MAX))), "BAD"),
          9 => (Some(((mid, 0), (last, e(last)))), "\n😀\n"),
          10 => (Some(((0, 0), (last, e(last) + 2))), "BAD"),
          _ => (None, "m\n😀\n"),
        };
        apply_ref(&mut model, range, new);
        changes.push(mk_change(range, new));
        c.state(&(&model, changes.len()));
      }
      finish_changes(c, init, &model, changes)
    },
  );
  let n = x.by(3, 4);
  x.space(
    "kinds",
    format!("text of 3 lines with wide characters; all batches of exactly {n} edits, each starting at any of: line start, line end, one past the line end, inside a pair, first missing line; ending there or at any later of those"),
    |c| {
      let init = "😀a\n\né";
      let mut model = init.to_owned();
      let mut changes = vec![];
      for step in 0..n {
        let r = RefText::new(&model);
        let nl = r.lines.len() as u32;
        let mut pts = vec![];
        for l in 0..nl.min(4) {
          let e = r.lines[l as usize].last().unwrap().0;
          pts.extend([(l, 0), (l, e), (l, e + 1)]);
          if r.off(l, 1).is_none() && e > 1 {
            pts.push((l, 1));
          }
        }
        pts.push((nl, 0));
        pts.sort_unstable();
        pts.dedup();
        if step > 1 {
          pts.retain(|p| p.1 != 0 || p.0 == nl);
        }
        if pts.is_empty() {
          break;
        }
        let i = c.pick(pts.len());
        let j = i + c.pick(pts.len() - i);
        let new = *c.of(&["", "v\n"]);
        let range = Some((pts[i], pts[j]));
        apply_ref(&mut model, range, new);
        changes.push(mk_change(range, new));
        c.state(&(&model, changes.len()));
      }
      finish_changes(c, init, &model, changes)
    },
  );
  // sizes: long documents and long lines
  x.space(
    "sizes",
    "documents of 255..257, 1000 and 66000 lines or columns (4 line contents), all but the largest with and without something at the end; all batches of 2 edits (thorough 3) between 12 places: existing ones, and ones one or many too far, modulo 2^8 and 2^16 too",
    {
      let n = x.by(2, 3);
      move |c| {
        let size = *c.of(&[255usize, 256, 257, 1000, 66_000]);
        let unit = *c.of(&["\n", "é\n", "a", "😀"]);
        let init = unit.repeat(size) + if size < 66_000 { *c.of(&["", "é"]) } else { "" };
        let mut model = init.clone();
        let mut changes = vec![];
        for _ in 0..n {
          let r = RefText::new(&model);
          let nl = r.lines.len() as u32;
          let last = nl - 1;
          let e = r.lines[last as usize].last().unwrap().0;
          let all = [
            ((0, 0), (0, 0)),
            ((last, e), (last, e)),
            ((last, 0), (last, e)),
            ((last, e), (last, e + 1)),
            ((last, e + 1), (last, e + 1)),
            ((nl, 0), (nl, 0)),
            ((0, 0), (nl, 0)),
            ((0, 256), (0, 256)),
            ((256, 0), (256, 0)),
            ((0, 65_536), (last, 65_536)),
            ((65_536, 0), (65_536, 1)),
            ((last, e + 65_536), (last + 65_536, e)),
          ];
          let range = Some(*c.of(&all));
          let new = *c.of(&["", "x\né"]);
          apply_ref(&mut model, range, new);
          changes.push(mk_change(range, new));
        }
        c.state(&model);
        finish_changes(c, &init, &model, changes)
      }
    },
  );
}
