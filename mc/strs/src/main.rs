// P23: string cursor. P24: identifier cases. P25: Markdown map. P29: character names.
// P30: separated formatting. P36: names.

use mcx::{Ch, Ctx, Prop, Res, bail, catch, ensure, ensure_eq};
use std::borrow::{Borrow, Cow};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use str_process::{Marker, St};
use str_util::{Name, SmolStr};

fn main() {
  mcx::main(&[
    Prop { id: "P23", run: p23 },
    Prop { id: "P24", run: p24 },
    Prop { id: "P25", run: p25 },
    Prop { id: "P29", run: p29 },
    Prop { id: "P30", run: p30 },
    Prop { id: "P36", run: p36 },
  ]);
}

fn text(c: &mut Ch<'_>, alpha: &[&str], max: usize) -> String {
  let n = c.pick(max + 1);
  (0..n).map(|_| *c.of(alpha)).collect()
}

// ---------------------------------------------------------------------------------------------
// P23

struct Cursor<'s> {
  st: St<'s>,
  s: &'s str,
  idx: usize,
  marks: Vec<(Marker, usize)>,
}

impl<'s> Cursor<'s> {
  fn new(s: &'s str) -> Self {
    let st = if s.is_empty() { St::default() } else { St::new(s) };
    Cursor { st, s, idx: 0, marks: vec![] }
  }

  fn observe(&self) -> Res {
    ensure_eq!(self.st.cur_idx(), self.idx, "{:?}: index", self.s);
    ensure_eq!(self.st.cur(), self.s.as_bytes().get(self.idx).copied(), "{:?} at {}: current byte", self.s, self.idx);
    Ok(())
  }

  fn settle(&mut self, i: usize, how: usize) -> Res {
    let (m, at) = self.marks.remove(i);
    let want = &self.s.as_bytes()[at..self.idx];
    let what = || format!("{:?}: mark at {at}, now at {}", self.s, self.idx);
    match how {
      0 => ensure_eq!(self.st.since(m), want, "{}: slice since", what()),
      1 => ensure_eq!(self.st.did_bump_since(m), !want.is_empty(), "{}: whether advanced since", what()),
      _ => match catch(|| self.st.non_empty_since(m)) {
        Ok(got) => {
          ensure!(!want.is_empty(), "{}: empty, but a non-empty slice {got:?} was given", what());
          ensure_eq!(got, want, "{}: non-empty slice since", what());
        }
        Err(e) => ensure!(want.is_empty(), "{}: demanding a non-empty slice panicked: {e}", what()),
      },
    }
    Ok(())
  }

  fn skip(&mut self, c: &mut Ch<'_>, how: usize) -> Res {
    // the condition: a class of bytes, or decided call by call
    let seen = RefCell::new(vec![]);
    let rest = &self.s.as_bytes()[self.idx..];
    let stop = if how == 4 { Some(c.pick(rest.len() + 1)) } else { None };
    let cond = |b: u8| -> bool {
      let k = seen.borrow().len();
      seen.borrow_mut().push(b);
      match how {
        0 => b == b'a',
        1 => b != b'a',
        2 => b >= 0x80,
        3 => b.is_ascii(),
        _ => k < stop.expect("set"),
      }
    };
    let n = match how {
      0 => rest.iter().take_while(|&&b| b == b'a').count(),
      1 => rest.iter().take_while(|&&b| b != b'a').count(),
      2 => rest.iter().take_while(|&&b| b >= 0x80).count(),
      3 => rest.iter().take_while(|b| b.is_ascii()).count(),
      _ => stop.expect("set"),
    };
    self.st.bump_while(cond);
    let seen = seen.into_inner();
    let want = &rest[..(n + 1).min(rest.len())];
    ensure_eq!(seen, want, "{:?} at {}: bytes the condition was asked about", self.s, self.idx);
    self.idx += n;
    Ok(())
  }

  fn eat(&mut self, p: &[u8]) -> Res {
    let want = self.s.as_bytes()[self.idx..].starts_with(p);
    ensure_eq!(self.st.eat_prefix(p), want, "{:?} at {}: eating {p:?}", self.s, self.idx);
    if want {
      self.idx += p.len();
    }
    Ok(())
  }

  /// Marks that are never settled: an oversight that debug builds point out, and nothing else.
  fn unsettled(mut self, c: &mut Ch<'_>) -> Res {
    c.checks(1);
    if c.flag() {
      c.log(|| "the last mark is dropped".into());
      let m = self.marks.pop().expect("there is one").0;
      let r = catch(move || drop(m));
      let s = self.s;
      while !self.marks.is_empty() {
        self.settle(0, 0)?;
      }
      match r {
        Ok(()) => ensure!(!cfg!(debug_assertions), "{s:?}: dropping a mark went unnoticed in a debug build"),
        Err(p) => ensure!(cfg!(debug_assertions), "{s:?}: dropping a mark panicked in a release build: {p}"),
      }
    } else {
      c.log(|| "the caller panics".into());
      let marks = std::mem::take(&mut self.marks);
      let r: Result<(), String> = catch(move || {
        let _marks = marks;
        panic!("the caller's own panic");
      });
      let p = r.expect_err("it panics");
      ensure!(p.contains("the caller's own panic"), "{:?}: the caller's own panic came out as {p:?}", self.s);
    }
    Ok(())
  }

  fn done(mut self) -> Res {
    self.observe()?;
    let mut k = 0;
    while !self.marks.is_empty() {
      self.settle(0, k % 3)?;
      k += 1;
    }
    Ok(())
  }
}

fn p23(x: &mut Ctx) {
  let (len, depth) = (x.by(3, 3), x.by(4, 5));
  x.space(
    "cursor histories",
    format!(
      "strings of up to {len} of a b \u{e9} \u{20ac} \u{1f600} and all sequences of up to {depth} of: bump, 5 conditional skips (one deciding call by call), \
       9 prefixes, next character, mark, settling any mark in 3 ways; marks still there in the end settled, dropped, or passed by a panic of the caller's own"
    ),
    move |c: &mut Ch<'_>| {
      let s = text(c, &["a", "b", "\u{e9}", "\u{20ac}", "\u{1f600}"], len);
      let s2 = s.clone();
      let mut cu = Cursor::new(&s2);
      c.log(|| format!("string {s:?}"));
      let r = cursor(c, &mut cu, depth);
      if r.is_err() {
        std::mem::forget(cu.marks);
        return r;
      }
      c.state(&(cu.idx, cu.marks.iter().map(|m| m.1).collect::<Vec<_>>(), &s2));
      if !cu.marks.is_empty() && c.flag() {
        return cu.unsettled(c);
      }
      cu.done()
    },
  );
  let rep = x.by(40, 200);
  x.space("long strings", format!("{rep} repetitions of a\u{e9}\u{1f600}b, walked by characters, bytes or skips, marks at every step, up to 2 deviations"), move |c: &mut Ch<'_>| {
    let s = "a\u{e9}\u{1f600}b".repeat(rep);
    let mut cu = Cursor::new(&s);
    let mode = c.pick(4);
    let mut budget = 1;
    let mut steps = 0;
    let r = (|| {
      while cu.idx < s.len() {
        steps += 1;
        let m = cu.st.mark();
        cu.marks.push((m, cu.idx));
        let dev = c.deviate(&mut budget, 4);
        match if dev == 0 { mode } else { dev - 1 } {
          0 => next_char(&mut cu),
          1 => {
            cu.st.bump();
            cu.idx += 1;
          }
          2 => cu.eat(if steps % 2 == 0 { b"a\xc3" } else { b"\xa9\xf0\x9f\x98\x80b" })?,
          _ => {
            let b = s.as_bytes()[cu.idx];
            cu.st.bump_while(|x| x == b);
            cu.idx += 1;
          }
        }
        if cu.marks.last().expect("pushed").1 == cu.idx {
          cu.st.bump();
          cu.idx += 1;
        }
        cu.observe()?;
        if steps % 5 > 0 {
          let i = if steps % 2 == 0 { 0 } else { cu.marks.len() - 1 };
          cu.settle(i, steps % 3)?;
        }
      }
      Ok(())
    })();
    if r.is_err() {
      std::mem::forget(cu.marks);
      return r;
    }
    c.checks(steps as u64);
    cu.done()
  });
  large_strings(x);
}

/// Large strings: everything that is passed over at once, eaten or sliced is long.
fn large_strings(x: &mut Ctx) {
  x.space(
    "large strings",
    "0, 1, 255..257, 65535..65537 or 200000 of 4 characters, then another; skipped with 3 conditions, eaten by a prefix that is right, too long or wrong at its end, or walked by characters or bytes; marks at the start, after that, at the end",
    |c: &mut Ch<'_>| {
      let n = *c.of(&[0usize, 1, 255, 256, 257, 65_535, 65_536, 65_537, 200_000]);
      let unit = *c.of(&["a", "\u{e9}", "\u{20ac}", "\u{1f600}"]);
      let tail = *c.of(&["", "b", "\u{e9}b"]);
      let s = unit.repeat(n) + tail;
      let fill = unit.len() * n;
      let mut cu = Cursor::new(&s);
      let r = (|| {
        for how in [c.pick(8), c.pick(8)] {
          let m = cu.st.mark();
          cu.marks.push((m, cu.idx));
          match how {
            0 => cu.skip(c, 1)?,
            1 => cu.skip(c, 2)?,
            2 => {
              // the condition counts
              let k = (s.len() - cu.idx).min(65_537);
              let mut left = k;
              cu.st.bump_while(|_| {
                left = left.wrapping_sub(1);
                left != usize::MAX
              });
              cu.idx += k;
            }
            3 => cu.eat(&s.as_bytes()[..fill])?,
            4 => cu.eat(s.as_bytes())?,
            5 => cu.eat(&[&s.as_bytes()[..fill], b"x"].concat())?,
            6 => {
              while cu.idx < s.len() {
                next_char(&mut cu);
                if cu.idx % 4096 < 4 {
                  cu.observe()?;
                }
              }
            }
            _ => {
              while cu.idx < fill {
                cu.st.bump();
                cu.idx += 1;
              }
            }
          }
          cu.observe()?;
        }
        Ok(())
      })();
      if r.is_err() {
        std::mem::forget(cu.marks);
        return r;
      }
      c.checks(8);
      let m = cu.st.mark();
      cu.marks.push((m, cu.idx));
      if c.flag() {
        cu.marks.reverse();
      }
      cu.done()
    },
  );
}

fn next_char(cu: &mut Cursor<'_>) {
  cu.st.next_str();
  cu.idx += 1;
  while !cu.s.is_char_boundary(cu.idx) {
    cu.idx += 1;
  }
}

fn cursor(c: &mut Ch<'_>, cu: &mut Cursor<'_>, depth: usize) -> Res {
  const PRE: &[&[u8]] = &[b"", b"a", b"b", b"ab", b"\xc3", b"\xc3\xa9", b"\xa9", b"\xe2\x82", b"\xf0\x9f\x98\x80a"];
  for _ in 0..depth {
    if c.fresh() {
      cu.observe()?;
      c.checks(1);
    }
    let more = usize::from(cu.idx < cu.s.len());
    let n = 1 + 5 + PRE.len() + 1 + 3 * cu.marks.len() + 2 * more;
    let k = c.pick(n);
    match k {
      0 => return Ok(()),
      1..6 => cu.skip(c, k - 1)?,
      _ if k < 6 + PRE.len() => cu.eat(PRE[k - 6])?,
      _ if k == 6 + PRE.len() => {
        let m = cu.st.mark();
        cu.marks.push((m, cu.idx));
      }
      _ => {
        let k = k - 7 - PRE.len();
        if k < 3 * cu.marks.len() {
          cu.settle(k / 3, k % 3)?;
        } else if k == 3 * cu.marks.len() {
          cu.st.bump();
          cu.idx += 1;
        } else {
          next_char(cu);
        }
      }
    }
  }
  Ok(())
}

// ---------------------------------------------------------------------------------------------
// P24

fn ref_pascal(s: &str) -> String {
  let mut ret = String::new();
  let mut prev = '_';
  for ch in s.chars() {
    if ch != '_' {
      let up = prev == '_';
      ret.push(match ch {
        'a'..='z' if up => (ch as u8 - 32) as char,
        'A'..='Z' if !up => (ch as u8 + 32) as char,
        _ => ch,
      });
    }
    prev = ch;
  }
  ret
}

fn ref_snake(s: &str) -> String {
  let mut ret = String::new();
  for (i, ch) in s.char_indices() {
    match ch {
      'A'..='Z' => {
        if i > 0 {
          ret.push('_');
        }
        ret.push((ch as u8 + 32) as char);
      }
      _ => ret.push(ch),
    }
  }
  ret
}

fn case(c: &mut Ch<'_>, s: &str) -> Res {
  c.state(&s);
  c.checks(2);
  c.log(|| format!("{s:?}"));
  ensure_eq!(identifier_case::snake_to_pascal(s), ref_pascal(s), "pascal case of {s:?}");
  ensure_eq!(identifier_case::pascal_to_snake(s), ref_snake(s), "snake case of {s:?}");
  Ok(())
}

fn p24(x: &mut Ctx) {
  let len = x.by(7, 9);
  x.space("all short strings", format!("strings of up to {len} of a z A Z _ 1 \u{e9} \u{c9}"), move |c: &mut Ch<'_>| {
    let s = text(c, &["a", "z", "A", "Z", "_", "1", "\u{e9}", "\u{c9}"], len);
    case(c, &s)
  });
  x.space("every character", "every character of the basic planes alone, first, in the middle, after an underscore", |c: &mut Ch<'_>| {
    let hi = c.pick(0x300);
    for lo in 0..0x100 {
      let Some(ch) = char::from_u32((hi * 0x100 + lo) as u32) else { continue };
      for s in [format!("{ch}"), format!("{ch}b"), format!("b{ch}"), format!("b{ch}B"), format!("_{ch}"), format!("B_{ch}_b")] {
        case(c, &s)?;
      }
    }
    Ok(())
  });
  let (words, wl) = (x.by(3, 4), 3);
  x.space("round trips", format!("names of up to {words} words of up to {wl} letters or digits"), move |c: &mut Ch<'_>| {
    let n = 1 + c.pick(words);
    let ws: Vec<String> = (0..n)
      .map(|_| {
        let mut w = (*c.of(&["a", "q", "z"])).to_owned();
        w += &text(c, &["b", "y", "7"], wl - 1);
        w
      })
      .collect();
    let snake = ws.join("_");
    let pascal: String = ws.iter().map(|w| w[..1].to_ascii_uppercase() + &w[1..]).collect();
    c.state(&snake);
    c.checks(4);
    c.log(|| format!("{snake:?} / {pascal:?}"));
    ensure_eq!(identifier_case::snake_to_pascal(&snake), pascal, "pascal case of {snake:?}");
    ensure_eq!(identifier_case::pascal_to_snake(&pascal), snake, "snake case of {pascal:?}");
    ensure_eq!(identifier_case::pascal_to_snake(&identifier_case::snake_to_pascal(&snake)), snake, "round trip of {snake:?}");
    ensure_eq!(identifier_case::snake_to_pascal(&identifier_case::pascal_to_snake(&pascal)), pascal, "round trip of {pascal:?}");
    ensure_eq!(identifier_case::snake_to_pascal(&snake.to_ascii_uppercase()), pascal, "pascal case of upper {snake:?}");
    Ok(())
  });
  x.space("long strings", "names of up to 5000 words", |c: &mut Ch<'_>| {
    let n = *c.of(&[30, 300, 5000]);
    let w = *c.of(&["ab", "Ab", "_ab", "a__", "\u{e9}A_"]);
    case(c, &w.repeat(n))
  });
}

// ---------------------------------------------------------------------------------------------
// P25

/// The code of a heading line.
fn heading(line: &str) -> Option<&str> {
  let b = line.as_bytes();
  if b.len() < 5 || &b[..4] != b"## `" || b[b.len() - 1] != b'`' {
    return None;
  }
  if line == "## `` ` ``" { Some("`") } else { Some(&line[4..line.len() - 1]) }
}

const LINES: &[&str] = &[
  "## `k`", "## `a b`", "## `` ` ``", "text", "", "# `k`", "### `k`", "## k", "## `k", "## k`", "## `k` x", " ## `k`", "## `k` ", "##  `k`", "##`k`",
  "## `\u{e9}`", "## `", "## `##`", "`k`", "\u{e9} `x`", " ", "## `=>`",
];

/// The starting text for the `n`th key.
fn starting(style: usize, k: &str, n: usize) -> String {
  match style {
    0 => format!("<{k}/{n}>"),
    1 => String::new(),
    2 => String::from("\n"),
    3 => format!("{k}\n\ntext\n"),
    _ => format!("## `{k}`"),
  }
}

fn markdown(c: &mut Ch<'_>, lines: &[&str], crlf: bool, last: bool, style: usize) -> Res {
  let nl = if crlf { "\r\n" } else { "\n" };
  let mut doc = lines.join(nl);
  if last && !lines.is_empty() {
    doc += nl;
  }
  // what is there: a last line without a break is dropped if it is empty
  let mut lines = lines.to_vec();
  if !last && lines.last().is_some_and(|l| l.is_empty()) {
    lines.pop();
  }
  let mut want: BTreeMap<String, String> = BTreeMap::new();
  let mut asked = vec![];
  let mut dup = false;
  let mut cur: Option<String> = None;
  for l in &lines {
    if let Some(k) = heading(l) {
      dup |= want.contains_key(k);
      want.insert(k.to_owned(), starting(style, k, asked.len()));
      asked.push(k.to_owned());
      cur = Some(k.to_owned());
    } else if let Some(k) = &cur {
      let v = want.get_mut(k).expect("inserted");
      v.push('\n');
      v.push_str(l);
    }
  }
  c.log(|| format!("document {doc:?}, starting texts of style {style}"));
  c.checks(1);
  c.state(&doc);
  let calls = RefCell::new(vec![]);
  let got = catch(|| {
    code_h2_md_map::get(&doc, |k| {
      let s = starting(style, k, calls.borrow().len());
      calls.borrow_mut().push(k.to_owned());
      s
    })
  });
  match got {
    Err(e) => {
      ensure!(dup, "document {doc:?}: panic: {e}");
      c.outcome("duplicate heading");
    }
    Ok(m) => {
      ensure!(!dup, "document {doc:?}: two headings with the same key, but no panic");
      let got: BTreeMap<String, String> = m.iter().map(|(k, v)| ((*k).to_owned(), v.clone())).collect();
      ensure_eq!(got, want, "document {doc:?}: map");
      ensure_eq!(calls.into_inner(), asked, "document {doc:?}: keys the starting text was asked for");
      c.outcome("map");
    }
  }
  Ok(())
}

fn p25(x: &mut Ctx) {
  let n = x.by(4, 5);
  x.space("all short documents", format!("up to {n} lines out of 22 (headings, near headings, text), both line breaks, with and without the last one"), move |c: &mut Ch<'_>| {
    let k = c.pick(n + 1);
    let lines: Vec<&str> = (0..k).map(|_| *c.of(LINES)).collect();
    let crlf = c.flag();
    let last = c.flag();
    markdown(c, &lines, crlf, last, 0)
  });
  let n2 = n - 1;
  x.space("starting texts", format!("up to {n2} of the lines, both line breaks, with and without the last one; the starting text empty, a line break, lines, a heading"), move |c: &mut Ch<'_>| {
    let k = c.pick(n2 + 1);
    let lines: Vec<&str> = (0..k).map(|_| *c.of(LINES)).collect();
    let crlf = c.flag();
    let last = c.flag();
    let style = c.pick(5);
    markdown(c, &lines, crlf, last, style)
  });
  let n = x.by(8, 10);
  x.space("longer documents", format!("up to {n} lines out of two headings, a near heading, text and an empty line"), move |c: &mut Ch<'_>| {
    let k = c.pick(n + 1);
    let lines: Vec<&str> = (0..k).map(|_| *c.of(&["## `k`", "## `l`", "## k", "text", ""])).collect();
    markdown(c, &lines, false, true, 0)
  });
  x.space(
    "every character",
    "all code points: put in at every place of a heading line, or in the place of every character of it, between other headings and text",
    {
      move |c: &mut Ch<'_>| {
        let hi = c.pick(0x1100);
        for lo in 0..0x100 {
          let Some(ch) = char::from_u32((hi * 0x100 + lo) as u32) else { continue };
          // these end a line, at least at its end
          if ch == '\n' || ch == '\r' {
            continue;
          }
          const H: &str = "## `k`";
          for at in 0..=H.len() {
            let put = format!("{}{ch}{}", &H[..at], &H[at..]);
            markdown(c, &["## `other`", "text", &put, "more", "## `last`"], false, true, 0)?;
            if at < H.len() {
              let instead = format!("{}{ch}{}", &H[..at], &H[at + 1..]);
              markdown(c, &[&instead, "text"], false, true, 0)?;
            }
          }
        }
        Ok(())
      }
    },
  );
  x.space("large documents", "300 sections of 0-3 lines each; one line anywhere replaced by each of 8; every kind of starting text for 16 to 300 sections as they are", |c: &mut Ch<'_>| {
    let hs: Vec<String> = (0..300).map(|i| format!("## `h{i}`")).collect();
    let mut lines: Vec<&str> = vec!["intro"];
    for (i, h) in hs.iter().enumerate() {
      lines.push(h);
      for _ in 0..i % 4 {
        lines.push("body `x`");
      }
    }
    let at = c.pick(lines.len() + 1);
    if at == lines.len() {
      let n = *c.of(&[16, 17, 32, 33, 64, 65, 128, 129, 256, 300]);
      if let Some(end) = hs.get(n).and_then(|h| lines.iter().position(|l| l == h)) {
        lines.truncate(end);
      }
      let style = c.pick(5);
      let (crlf, last) = (c.flag(), c.flag());
      return markdown(c, &lines, crlf, last, style);
    }
    if at < lines.len() {
      lines[at] = *c.of(&["", "## `h0`", "## `h299`", "## `new`", "text", "## h", "# `h0`", "## `` ` ``"]);
    }
    markdown(c, &lines, false, true, 0)
  });
}

// ---------------------------------------------------------------------------------------------
// P29

fn p29(x: &mut Ctx) {
  x.space("every character", "all 0x110000 code points: presence, validity and the panicking lookup", |c: &mut Ch<'_>| {
    let hi = c.pick(0x1100);
    for lo in 0..0x100 {
      let Some(ch) = char::from_u32((hi * 0x100 + lo) as u32) else { continue };
      let opt = char_name::get_opt(ch);
      let want = ch.is_ascii_punctuation() && !matches!(ch, '\'' | '"' | '\\');
      ensure_eq!(opt.is_some(), want, "{ch:?}: whether it has a name");
      match opt {
        Some(n) => {
          let mut cs = n.chars();
          let ok = cs.next().is_some_and(|f| f.is_ascii_alphabetic() || f == '_') && cs.all(|f| f.is_ascii_alphanumeric() || f == '_');
          ensure!(ok, "{ch:?}: {n:?} is not an identifier");
          ensure_eq!(catch(|| char_name::get(ch)), Ok(n), "{ch:?}: panicking lookup");
          c.outcome("named");
        }
        None => {
          // all of the first planes; one of each block of 16 beyond
          if hi < 0x300 || lo % 16 == 0 {
            let got = catch(|| char_name::get(ch));
            ensure!(got.is_err(), "{ch:?} has no name, but the panicking lookup gave {got:?}");
          }
        }
      }
      c.checks(1);
    }
    c.state(&hi);
    Ok(())
  });
  x.space("pairs of names", "all pairs of named characters: distinct, no name a prefix of another", |c: &mut Ch<'_>| {
    let named: Vec<char> = (0..=char::MAX as u32).filter_map(char::from_u32).take(0x3000).filter(|&c| char_name::get_opt(c).is_some()).collect();
    let a = *c.of(&named);
    for &b in &named {
      let (na, nb) = (char_name::get(a), char_name::get(b));
      ensure!(a == b || !nb.starts_with(na), "the name {na:?} of {a:?} is a prefix of the name {nb:?} of {b:?}");
      c.checks(1);
    }
    c.state(&a);
    Ok(())
  });
  let n = x.by(3, 4);
  x.space("sequences of names", format!("all sequences of up to {n} named characters: concatenated names distinct"), move |c: &mut Ch<'_>| {
    let named: Vec<char> = (0..128_u8).map(char::from).filter(|&c| char_name::get_opt(c).is_some()).collect();
    // the first character is fixed per execution unless a name could be cut differently; so compare
    // sequences of all first characters whose names share the first letter
    let first = c.pick(26);
    let letter = (b'A' + first as u8) as char;
    let heads: Vec<char> = named.iter().copied().filter(|&c| char_name::get(c).starts_with(letter) || char_name::get(c).starts_with(letter.to_ascii_lowercase())).collect();
    let mut seen: HashMap<String, String> = HashMap::new();
    let mut layer: Vec<String> = heads.iter().map(char::to_string).collect();
    for _ in 0..n {
      for s in &layer {
        let name: String = s.chars().map(char_name::get).collect();
        if let Some(o) = seen.insert(name.clone(), s.clone()) {
          bail!("{o:?} and {s:?} both get the name {name:?}");
        }
        c.checks(1);
      }
      c.progress();
      layer = layer.iter().flat_map(|s| named.iter().map(move |ch| format!("{s}{ch}"))).collect();
    }
    c.state(&letter);
    Ok(())
  });
}

// ---------------------------------------------------------------------------------------------
// P30

/// A sink that fails at the n-th write or beyond so many bytes.
struct Sink {
  out: String,
  calls: usize,
  fail_call: usize,
  room: usize,
  failed: bool,
  late: bool,
}

impl fmt::Write for Sink {
  fn write_str(&mut self, s: &str) -> fmt::Result {
    if self.failed {
      self.late = true;
    }
    if self.failed || self.calls == self.fail_call || self.out.len() + s.len() > self.room {
      self.failed = true;
      return Err(fmt::Error);
    }
    self.calls += 1;
    self.out.push_str(s);
    Ok(())
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Item {
  Num(i32),
  Str(&'static str),
  /// several writes
  Parts(&'static [&'static str]),
  /// writes what it was told about formatting
  Opts,
  /// writes nothing
  Nothing,
  /// fails on its own
  Fails,
}

impl fmt::Display for Item {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match self {
      Item::Num(n) => fmt::Display::fmt(n, f),
      Item::Str(s) => fmt::Display::fmt(s, f),
      Item::Parts(ps) => ps.iter().try_for_each(|p| f.write_str(p)),
      Item::Opts => {
        let s = format!(
          "[{:?}{:?}{}{}{}{:?}]",
          f.width(), f.precision(), f.sign_plus(), f.alternate(), f.sign_aware_zero_pad(), f.fill()
        );
        f.write_str(&s)
      }
      Item::Nothing => Ok(()),
      Item::Fails => Err(fmt::Error),
    }
  }
}

/// Gives out items, counts requests; may come alive again after its end.
struct Source<'a> {
  items: &'a [Item],
  at: usize,
  asked: &'a Cell<usize>,
  ended: &'a Cell<bool>,
  revive: bool,
}
impl Iterator for Source<'_> {
  type Item = Item;
  fn next(&mut self) -> Option<Item> {
    self.asked.set(self.asked.get() + 1);
    if self.at == self.items.len() {
      if self.ended.replace(true) && self.revive {
        self.revive = false;
        return Some(Item::Str("REVIVED"));
      }
      return None;
    }
    self.at += 1;
    Some(self.items[self.at - 1])
  }
}

struct Seq<'a> {
  items: &'a [Item],
  sep: Option<&'a str>,
  asked: Cell<usize>,
  ended: Cell<bool>,
  revive: bool,
}
impl fmt::Display for Seq<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let it = Source { items: self.items, at: 0, asked: &self.asked, ended: &self.ended, revive: self.revive };
    match self.sep {
      Some(s) => fmt_util::sep_seq(f, s, it),
      None => fmt_util::comma_seq(f, it),
    }
  }
}

const NSPEC: usize = 9;
fn put(w: &mut impl fmt::Write, spec: usize, d: &impl fmt::Display) -> fmt::Result {
  match spec {
    0 => write!(w, "{d}"),
    1 => write!(w, "{d:5}"),
    2 => write!(w, "{d:<4}"),
    3 => write!(w, "{d:*>6}"),
    4 => write!(w, "{d:^+7}"),
    5 => write!(w, "{d:06}"),
    6 => write!(w, "{d:.1}"),
    7 => write!(w, "{d:#}"),
    _ => write!(w, "{d:\u{e9}^9.2}"),
  }
}

/// What is written, piece by piece, if nothing fails; and whether the items fail.
fn pieces(items: &[Item], sep: &str, spec: usize) -> (Vec<String>, bool) {
  struct Rec(Vec<String>);
  impl fmt::Write for Rec {
    fn write_str(&mut self, s: &str) -> fmt::Result {
      self.0.push(s.to_owned());
      Ok(())
    }
  }
  let mut r = Rec(vec![]);
  for (i, it) in items.iter().enumerate() {
    if i > 0 {
      let _ = r.write_str(sep);
    }
    if put(&mut r, spec, it).is_err() {
      return (r.0, true);
    }
  }
  (r.0, false)
}

fn seq(c: &mut Ch<'_>, items: &[Item], sep: Option<&str>, spec: usize, fault: usize, revive: bool) -> Res {
  let (ps, fails) = pieces(items, sep.unwrap_or(", "), spec);
  let full: String = ps.concat();
  let s = Seq { items, sep, asked: Cell::new(0), ended: Cell::new(false), revive };
  // faults: 0 none, then each amount of room up to one byte short of all
  let room = match fault {
    0 => usize::MAX,
    k if k <= full.len() => k - 1,
    _ => return Ok(()),
  };
  let mut sink = Sink { out: String::new(), calls: 0, fail_call: usize::MAX, room, failed: false, late: false };
  let what = || format!("{items:?}, separator {sep:?}, format {spec}, room for {room} bytes");
  c.log(what);
  c.checks(1);
  let r = put(&mut sink, spec, &s);
  ensure_eq!(r.is_err(), fails || sink.failed, "{}: whether an error is returned", what());
  ensure!(!sink.late, "{}: something was written after the error", what());
  if fault == 0 {
    ensure_eq!(sink.out, full, "{}: text", what());
    let upto = if fails { items.iter().position(|i| *i == Item::Fails).expect("fails") + 1 } else { items.len() + 1 };
    ensure!(s.asked.get() == upto || (!fails && !revive && s.asked.get() > upto), "{}: {} items were asked for instead of {upto}", what(), s.asked.get());
  } else {
    ensure!(full.starts_with(&sink.out), "{}: {:?} was written, which does not begin {full:?}", what(), sink.out);
    // no item after the one that was being written
    let mut most = 0;
    for k in 1..=items.len() {
      let (ps, f) = pieces(&items[..k], sep.unwrap_or(", "), spec);
      most = k;
      if f || ps.concat().len() > room {
        break;
      }
    }
    let must_end = fails && { pieces(&items[..most], sep.unwrap_or(", "), spec).1 };
    // the separator may fail before or after the item behind it is fetched
    ensure!(s.asked.get() <= most || (!must_end && !sink.failed), "{}: {} items were consumed, the error came with item {most}", what(), s.asked.get());
  }
  c.outcome(if r.is_err() { "error" } else { "written" });
  Ok(())
}

fn p30(x: &mut Ctx) {
  const ITEMS: &[Item] =
    &[Item::Num(7), Item::Num(-12), Item::Str("xy"), Item::Parts(&["p", "", "qr"]), Item::Opts, Item::Nothing, Item::Fails];
  const SEPS: &[Option<&str>] = &[None, Some(""), Some(";"), Some(" -> "), Some("\u{e9}, ")];
  let n = x.by(4, 5);
  x.space("all short sequences", format!("up to {n} of 7 kinds of item (failing ones too), 5 separators, {NSPEC} formats"), move |c: &mut Ch<'_>| {
    let k = c.pick(n + 1);
    let items: Vec<Item> = (0..k).map(|_| *c.of(ITEMS)).collect();
    let sep = *c.of(SEPS);
    let spec = c.pick(NSPEC);
    c.state(&(format!("{items:?}"), sep, spec));
    seq(c, &items, sep, spec, 0, false)
  });
  let n = x.by(3, 4);
  x.space("write faults", format!("up to {n} of 5 kinds of item, 3 separators, 3 formats; the sink fails at each amount of room"), move |c: &mut Ch<'_>| {
    let k = c.pick(n + 1);
    let items: Vec<Item> = (0..k).map(|_| *c.of(&ITEMS[1..])).collect();
    let sep = *c.of(&SEPS[..4]);
    let spec = *c.of(&[0, 1, 3]);
    let len = pieces(&items, sep.unwrap_or(", "), spec).0.concat().len();
    let fault = c.pick(len + 1);
    c.state(&(format!("{items:?}"), sep, spec, fault));
    seq(c, &items, sep, spec, fault, false)
  });
  x.space("sources that come alive again", "up to 3 items from an iterator that gives more after its end: the sequence is what came before it", |c: &mut Ch<'_>| {
    let k = c.pick(4);
    let items: Vec<Item> = (0..k).map(|_| *c.of(&ITEMS[..6])).collect();
    let sep = *c.of(SEPS);
    let spec = c.pick(NSPEC);
    c.state(&(format!("{items:?}"), sep, spec));
    seq(c, &items, sep, spec, 0, true)
  });
  x.space("long sequences", "up to 5000 items, and faults at 40 places", |c: &mut Ch<'_>| {
    let n = *c.of(&[40, 1000, 5000]);
    let items: Vec<Item> = (0..n).map(|i| if i % 3 == 0 { Item::Str("xy") } else { Item::Num(i) }).collect();
    let sep = *c.of(SEPS);
    let k = if n == 40 { c.pick(41) } else { 0 };
    seq(c, &items, sep, 0, k * 5, false)
  });
}

// ---------------------------------------------------------------------------------------------
// P36

fn hashes<T: Hash + ?Sized>(t: &T) -> (u64, u64) {
  let mut a = DefaultHasher::new();
  t.hash(&mut a);
  (a.finish(), mcx::fx(t))
}

fn names(s: &str) -> Vec<(&'static str, Option<Name>)> {
  vec![
    ("&str", Name::try_new(s)),
    ("String", Name::try_new(s.to_owned())),
    ("&String", Name::try_new(&s.to_owned())),
    ("Box<str>", Name::try_new(Box::<str>::from(s))),
    ("Arc<str>", Name::try_new(Arc::<str>::from(s))),
    ("Cow", Name::try_new(Cow::Borrowed(s))),
    ("SmolStr", Name::try_new(SmolStr::new(s))),
  ]
}

const PAD: &[usize] = &[0, 19, 20, 21, 22, 23, 24, 25, 31, 32, 63, 64, 127, 128, 129, 255, 256, 300, 70_000];

fn one_name(c: &mut Ch<'_>, s: &str) -> Res {
  c.log(|| format!("{} bytes: {:?}", s.len(), s.chars().take(60).collect::<String>()));
  c.state(&s);
  for (ty, n) in names(s) {
    c.checks(1);
    let what = || format!("{:?} ({} bytes) as {ty}", s.chars().take(60).collect::<String>(), s.len());
    ensure_eq!(n.is_some(), !s.is_empty(), "{}: whether it is accepted", what());
    let p = catch(|| match ty {
      "&str" => Name::new(s),
      "String" => Name::new(s.to_owned()),
      _ => Name::new(SmolStr::new(s)),
    });
    ensure_eq!(p.is_ok(), !s.is_empty(), "{}: whether the panicking constructor succeeds", what());
    let Some(n) = n else {
      c.outcome("refused");
      continue;
    };
    let p = p.expect("checked");
    ensure!(n == p && hashes(&n) == hashes(&p), "{}: the constructors differ", what());
    ensure!(n.as_str() == s, "{}: text is {:?}", what(), n.as_str());
    let b: &str = n.borrow();
    ensure!(b == s, "{}: borrowed as {b:?}", what());
    ensure_eq!(hashes(&n), hashes(s), "{}: hash", what());
    mcx::displays(&n, s).map_err(|e| format!("{}: {e}", what()))?;
    ensure!(n.clone() == n && n.clone().as_str() == s, "{}: clone", what());
    c.outcome("accepted");
  }
  Ok(())
}

fn p36(x: &mut Ctx) {
  let len = x.by(5, 6);
  x.space("all short strings", format!("strings of up to {len} of a B \u{e9} space LF tab NUL, from 7 string types"), move |c: &mut Ch<'_>| {
    let s = text(c, &["a", "B", "\u{e9}", " ", "\n", "\t", "\0"], len);
    one_name(c, &s)
  });
  x.space("every character", "all code points: the character alone, twice, before, after and between letters", |c: &mut Ch<'_>| {
    let hi = c.pick(0x1100);
    for lo in 0..0x100 {
      let Some(ch) = char::from_u32((hi * 0x100 + lo) as u32) else { continue };
      for s in [format!("{ch}"), format!("{ch}{ch}"), format!("{ch}a"), format!("a{ch}"), format!("a{ch}b")] {
        let what = || format!("{s:?}");
        let n = Name::try_new(s.as_str());
        let Some(n) = n else { bail!("{}: refused", what()) };
        ensure_eq!(n.as_str(), s, "{}: text", what());
        ensure_eq!(n.to_string(), s, "{}: displayed", what());
        ensure_eq!(hashes(&n), hashes(s.as_str()), "{}: hash", what());
        let p = catch(|| Name::new(s.as_str()));
        ensure!(p.is_ok_and(|p| p == n && p.as_str() == s), "{}: the panicking constructor", what());
        c.checks(1);
      }
    }
    c.state(&hi);
    Ok(())
  });
  x.space("long strings", "strings of up to 3 of 5 characters after 0-70000 others (around the inline limits), from 7 string types", |c: &mut Ch<'_>| {
    let n = *c.of(PAD);
    let fill = *c.of(&["x", " ", "\n", "\u{e9}"]);
    let s = fill.repeat(n) + &text(c, &["a", "\u{e9}", " ", "\n", "\0"], 3);
    one_name(c, &s)
  });
  let len = x.by(2, 3);
  x.space("pairs", format!("all pairs of strings of up to {len} of a b B space \u{e9}, each after one of 6 fillers: equality, order, hash, lookups"), move |c: &mut Ch<'_>| {
    let mut one = || {
      let f = *c.of(&["", "q", "qqqqqqqqqqqqqqqqqqqqq", "qqqqqqqqqqqqqqqqqqqqqq", "qqqqqqqqqqqqqqqqqqqqqqq", "qqqqqqqqqqqqqqqqqqqqqqqq"]);
      f.to_owned() + &text(c, &["a", "b", "B", " ", "\u{e9}"], len)
    };
    let (a, b) = (one(), one());
    two_names(c, &a, &b)
  });
  x.space("special pairs", format!("all pairs of {} strings (numbers, signs, cases, accents, separators, ligatures, planes, lengths): equality, order, hash, lookups", SPECIAL.len()), |c: &mut Ch<'_>| {
    let a = *c.of(SPECIAL);
    let b = *c.of(SPECIAL);
    two_names(c, a, b)
  });
}

const SPECIAL: &[&str] = &[
  "0", "00", "1", "01", "2", "9", "10", "11", "100", "1.0", "1e1", "-1", "+1", "0x1", "x1", "x2", "x9", "x10", "x010", "1x", "2x", "10x",
  "18446744073709551615", "18446744073709551616", "99999999999999999999", "a", "A", "b", "B", "aa", "aA", "Aa", "ab", "Z", "z", "_", "_a", "a_",
  "a-b", "a_b", "a.b", "a b", "ab c", " a", "a ", "a\0", "\0", "a\n", "\u{e9}", "e\u{301}", "e", "f", "\u{c9}", "\u{df}", "ss", "SS", "\u{fb01}",
  "fi", "\u{130}", "\u{131}", "i", "I", "\u{3a3}", "\u{3c2}", "\u{3c3}", "\u{212a}", "k", "K", "\u{feff}", "\u{feff}a", "\u{200b}a", "\u{e000}",
  "\u{ffff}", "\u{10000}", "\u{1f600}", "\u{10ffff}", "\u{7f}", "\u{80}", "true", "None", "null", "nan", "inf", "NaN",
  "aaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaab", "aaaaaaaaaaaaaaaaaaaaaab", "aaaaaaaaaaaaaaaaaaaaaaB",
];

fn two_names(c: &mut Ch<'_>, a: &str, b: &str) -> Res {
    if a.is_empty() || b.is_empty() {
      return Ok(());
    }
    c.checks(1);
    c.state(&(&a, &b));
    let (na, nb) = (Name::new(a), Name::new(b.to_owned()));
    let what = || format!("{a:?} and {b:?}");
    ensure_eq!(na == nb, a == b, "{}: equality", what());
    ensure_eq!(na != nb, a != b, "{}: inequality", what());
    ensure_eq!(na.cmp(&nb), a.cmp(&b), "{}: order", what());
    ensure_eq!(na.partial_cmp(&nb), Some(a.cmp(&b)), "{}: partial order", what());
    ensure_eq!(na < nb, a < b, "{}: less", what());
    let m = HashMap::from([(na.clone(), 1)]);
    ensure_eq!(m.contains_key(b), a == b, "{}: hash map lookup by text", what());
    let m = BTreeMap::from([(na.clone(), 1)]);
    ensure_eq!(m.contains_key(b), a == b, "{}: ordered map lookup by text", what());
    let s: HashSet<Name> = [na, nb].into_iter().collect();
    ensure_eq!(s.len(), if a == b { 1 } else { 2 }, "{}: size of the set", what());
    Ok(())
}
