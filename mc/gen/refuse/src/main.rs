// P28: generation depends on the options only, and refuses what cannot be expressed.

use genspec::{Class, Grammar};
use mcx::{Ch, Ctx, Prop, Res, bail, catch, ensure, ensure_eq};
use std::collections::HashMap;
use std::hash::{BuildHasher, Hasher};
use std::path::PathBuf;
use std::sync::{Mutex, OnceLock};

fn main() {
  let args: Vec<String> = std::env::args().collect();
  if let [_, what, name] = &args[..] {
    if what == "fresh" {
      return fresh(name);
    }
  }
  mcx::main_with_stack(256, &[Prop { id: "P28", run: p28 }]);
}

// ---------------------------------------------------------------------------------------------
// running the generator

static OUT: Mutex<()> = Mutex::new(());

/// The one scratch directory of this process.
fn dir() -> PathBuf {
  std::env::temp_dir().join(format!("mcx-p28-{}", std::process::id()))
}

struct Made {
  /// Whether it did not panic, otherwise the message.
  ok: Result<(), String>,
  /// The two files; `None` for a file that was not written (again).
  kind: Option<String>,
  ast: Option<String>,
  others: usize,
}

impl Made {
  fn files(&self) -> (Option<&str>, Option<&str>) {
    (self.kind.as_deref(), self.ast.as_deref())
  }
}

fn generate<S: BuildHasher>(o: &syntax_gen::Options<'_, S>) -> Made {
  const OLD: &str = "// old\n";
  let _lock = OUT.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
  let dir = dir();
  let io = |r: std::io::Result<()>| r.unwrap_or_else(|e| mcx::machinery(&format!("scratch: {e}")));
  io(std::fs::create_dir_all(&dir));
  for f in ["kind.rs", "ast.rs"] {
    io(std::fs::write(dir.join(f), OLD));
  }
  // SAFETY: nothing else uses the environment variable; there is a lock.
  unsafe { std::env::set_var("OUT_DIR", &dir) };
  let ok = catch(|| syntax_gen::get(o));
  let read = |f: &str| std::fs::read_to_string(dir.join(f)).ok().filter(|s| s != OLD);
  let (kind, ast) = (read("kind.rs"), read("ast.rs"));
  let others = std::fs::read_dir(&dir).map_or(99, |d| d.count()) - 2;
  _ = std::fs::remove_dir_all(&dir);
  Made { ok, kind, ast, others }
}

/// A hasher whose results depend on a seed; seed 0: all the same.
#[derive(Debug, Clone, Copy)]
struct Seeded(u64);
struct SeededHasher(u64, u64);
impl BuildHasher for Seeded {
  type Hasher = SeededHasher;
  fn build_hasher(&self) -> SeededHasher {
    SeededHasher(self.0, self.0)
  }
}
impl Hasher for SeededHasher {
  fn finish(&self) -> u64 {
    if self.1 == 0 { 0 } else { self.0 ^ (self.0 >> 29) }
  }
  fn write(&mut self, bytes: &[u8]) {
    for &b in bytes {
      self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x9e37_79b9_7f4a_7c15 ^ (self.1 << 1)).rotate_left(13);
    }
  }
}

type Pairs<'a> = Vec<(&'a str, &'a str)>;

fn pairs(g: &Grammar) -> (Pairs<'_>, Pairs<'_>) {
  let doc = g.toks.iter().filter_map(|t| Some((t.text.as_str(), t.doc.as_deref()?))).collect();
  let special = g
    .toks
    .iter()
    .filter_map(|t| match &t.class {
      Class::Special(d) => Some((t.text.as_str(), d.as_str())),
      _ => None,
    })
    .collect();
  (doc, special)
}

fn map<'a, S: BuildHasher>(ps: &Pairs<'a>, s: S) -> HashMap<&'a str, &'a str, S> {
  let mut m = HashMap::with_hasher(s);
  m.extend(ps.iter().copied());
  m
}

fn run<S: BuildHasher + Clone>(g: &Grammar, doc: &Pairs<'_>, special: &Pairs<'_>, a: S, b: S) -> Made {
  let trivia: Vec<&str> = g.trivia.iter().map(String::as_str).collect();
  generate(&syntax_gen::Options { lang: &g.lang, trivia: &trivia, grammar: &g.text(), doc: &map(doc, a), special: &map(special, b), file: &g.file })
}

/// What a grammar gives, by itself.
fn plain(g: &Grammar) -> Result<(String, String), String> {
  let (doc, special) = pairs(g);
  let m = run(g, &doc, &special, std::hash::RandomState::new(), std::hash::RandomState::new());
  if let Err(e) = m.ok {
    return Err(format!("{}: generation panics: {e}\n{}", g.name, g.text()));
  }
  match (m.kind, m.ast, m.others) {
    (Some(k), Some(a), 0) => Ok((k, a)),
    (k, a, n) => Err(format!("{}: kind.rs written: {}, ast.rs written: {}, other files: {n}", g.name, k.is_some(), a.is_some())),
  }
}

/// Generates from one grammar and prints what there is: nothing else happened in this process.
fn fresh(name: &str) {
  let Some(g) = pool().into_iter().find(|g| g.name == name) else { mcx::machinery("no such grammar") };
  match plain(&g) {
    Ok((k, a)) => print!("{k}\0{a}"),
    Err(e) => {
      eprintln!("{e}");
      std::process::exit(1);
    }
  }
}

/// What a grammar gives in a process of its own.
fn in_fresh_process(g: &Grammar) -> Result<(String, String), String> {
  let exe = std::env::current_exe().unwrap_or_else(|e| mcx::machinery(&format!("no path of this program: {e}")));
  let out = std::process::Command::new(exe).args(["fresh", &g.name]).output().unwrap_or_else(|e| mcx::machinery(&format!("no process: {e}")));
  if !out.status.success() {
    return Err(format!("{}: by itself, in a process of its own: {}", g.name, String::from_utf8_lossy(&out.stderr)));
  }
  let text = String::from_utf8_lossy(&out.stdout).into_owned();
  text.split_once('\0').map(|(a, b)| (a.to_owned(), b.to_owned())).ok_or_else(|| format!("{}: a process of its own gives {text:?}", g.name))
}

/// The grammars of the histories.
fn pool() -> Vec<Grammar> {
  let mut gs: Vec<Grammar> = genspec::grammars(false).into_iter().filter(|g| ["set_63", "set_5", "names", "order_0123"].contains(&g.name.as_str())).collect();
  gs.extend(genspec::role_grammars());
  gs
}

/// One seed for each order that a map with these entries can be iterated in.
fn orders(ps: &Pairs<'_>) -> Vec<u64> {
  let mut seen: Vec<Vec<&str>> = vec![];
  let mut seeds = vec![];
  for seed in 0..4000 {
    let order: Vec<&str> = map(ps, Seeded(seed)).into_keys().collect();
    if seed == 0 || !seen.contains(&order) {
      seen.push(order);
      seeds.push(seed);
    }
  }
  seeds
}

fn p28(x: &mut Ctx) {
  let thorough = x.thorough();
  let gs = genspec::grammars(thorough);
  let some: Vec<&Grammar> = gs.iter().filter(|g| g.toks.len() < 100).collect();
  let some = &some;
  x.space("every grammar", "every grammar of the family of P26 and P27, generated three times with random hashing and once with all hashes the same", move |c: &mut Ch<'_>| {
    let g = some[c.pick(some.len())];
    let (k, a) = plain(g)?;
    c.state(&g.name);
    c.checks(1);
    for i in 0..3 {
      let (k2, a2) = plain(g)?;
      ensure!(k == k2 && a == a2, "{}: generated again ({i}): {}", g.name, diff(&(k.clone() + &a), &(k2 + &a2)));
    }
    let (doc, special) = pairs(g);
    let m = run(g, &doc, &special, Seeded(0), Seeded(0));
    ensure_eq!(m.files(), (Some(k.as_str()), Some(a.as_str())), "{}: with all hashes the same", g.name);
    c.outcome("generated");
    Ok(())
  });

  // maps of 4 and 3 entries: all orders of both
  let toks = ["+", "fn", "Name", "->", "IntLit", "val", "Str"];
  let many = {
    let tok = |t: &str| genspec::Tok {
      text: t.to_owned(),
      class: if t.starts_with(|c: char| c.is_ascii_uppercase()) {
        Class::Special(format!("desc of {t}"))
      } else if t.starts_with(|c: char| c.is_ascii_lowercase()) {
        Class::Keyword
      } else {
        Class::Punct
      },
      doc: ["+", "fn", "Name", "Str"].contains(&t).then(|| format!("doc of {t}")),
    };
    let fields = (0..toks.len()).map(|i| genspec::Field { base: genspec::Base::Tok(i), card: genspec::Card::One, label: None, inner: false }).collect();
    Grammar {
      name: "many".to_owned(),
      lang: "Lang".to_owned(),
      file: "f.rs".to_owned(),
      trivia: vec!["Whitespace".to_owned()],
      toks: toks.iter().map(|t| tok(t)).collect(),
      rules: vec![("Root".to_owned(), genspec::Rule::Seq(fields))],
    }
  };
  let many = &many;
  let (doc, special) = pairs(many);
  let (od, os) = (orders(&doc), orders(&special));
  x.note(format!("{} orders of 4 documented tokens, {} orders of 3 special tokens", od.len(), os.len()));
  if od.len() < 24 || os.len() < 6 {
    mcx::machinery("not all orders are reached");
  }
  let base: OnceLock<(String, String)> = OnceLock::new();
  let base = &base;
  let want = move || -> Result<&(String, String), String> {
    if let Some(b) = base.get() {
      return Ok(b);
    }
    let b = plain(many)?;
    Ok(base.get_or_init(|| b))
  };
  x.space("hash orders", "a grammar with 4 documented and 3 special tokens: all orders of both maps", |c: &mut Ch<'_>| {
    let (i, j) = (c.pick(od.len()), c.pick(os.len()));
    let m = run(many, &doc, &special, Seeded(od[i]), Seeded(os[j]));
    let (k, a) = want()?;
    ensure!(m.ok.is_ok(), "{:?}", m.ok);
    ensure!(m.files() == (Some(k), Some(a)), "iterated in the {i}th and {j}th order: {}", diff(&(k.clone() + a), &(m.kind.unwrap_or_default() + &m.ast.unwrap_or_default())));
    c.state(&(i, j));
    c.checks(1);
    Ok(())
  });
  x.space("insertion orders", "the same grammar, all hashes the same: all orders of inserting the documented and the special tokens", |c: &mut Ch<'_>| {
    let mut shuffle = |mut ps: Pairs<'static>| -> Pairs<'static> {
      let mut out = vec![];
      while !ps.is_empty() {
        out.push(ps.remove(c.pick(ps.len())));
      }
      out
    };
    // `many` outlives the exploration
    let leak = |ps: &Pairs<'_>| -> Pairs<'static> { ps.iter().map(|(a, b)| (&*(*a).to_owned().leak(), &*(*b).to_owned().leak())).collect() };
    let (d, s) = (shuffle(leak(&doc)), shuffle(leak(&special)));
    let m = run(many, &d, &s, Seeded(0), Seeded(0));
    let (k, a) = want()?;
    ensure!(m.files() == (Some(k), Some(a)), "inserted in the orders {d:?} and {s:?}: {}", diff(&(k.clone() + a), &(m.kind.unwrap_or_default() + &m.ast.unwrap_or_default())));
    c.state(&(&d, &s));
    c.checks(1);
    Ok(())
  });
  let gs = pool();
  let gs = &gs;
  let alone: Vec<OnceLock<Result<(String, String), String>>> = gs.iter().map(|_| OnceLock::new()).collect();
  let alone = &alone;
  let step = move |hist: &[usize], i: usize| -> Res {
    let got = plain(&gs[i])?;
    let want = alone[i].get_or_init(|| in_fresh_process(&gs[i])).as_ref().map_err(Clone::clone)?;
    let names: Vec<&str> = hist.iter().map(|&i| gs[i].name.as_str()).collect();
    ensure!(got == *want, "after {names:?}, {} gives {}", gs[i].name, diff(&(want.0.clone() + &want.1), &(got.0 + &got.1)));
    Ok(())
  };
  let len = x.by(3, 4);
  x.space("histories", format!("all sequences of {len} generations from 4 grammars: each as in a process of its own"), move |c: &mut Ch<'_>| {
    let mut hist = vec![];
    for _ in 0..len {
      let i = c.pick(4);
      step(&hist, i)?;
      hist.push(i);
    }
    c.state(&hist);
    c.checks(len as u64);
    Ok(())
  });
  let len = x.by(2, 3);
  x.space(
    "histories of names",
    format!("all sequences of {len} generations from 16 grammars in which two names are each a node, a node or token alternative or a special token, with or without a refused grammar with those names in between: each as in a process of its own"),
    move |c: &mut Ch<'_>| {
      let mut hist = vec![];
      for _ in 0..len {
        let i = 4 + c.pick(16);
        step(&hist, i)?;
        hist.push(i);
        let bad = c.pick(if len == 2 { 5 } else { 2 });
        if bad > 0 {
          let g = ["Aa = 'x' | 'y'\nBb = (Aa | 'z')", "Bb = 'x' | 'y'\nAa = Bb?*", "Aa = N | M\nN = 'n'\nM = 'm'\nBb = ''", "Aa = 'Bb'\n)"][bad - 1];
          accepts(c, g, Some(false))?;
        }
      }
      c.state(&hist);
      c.checks(len as u64);
      Ok(())
    },
  );

  // -------------------------------------------------------------------------------------------
  // what cannot be expressed

  let words = x.by(3, 4);
  x.space(
    "fields",
    format!("a field made by up to {words} labels, options and repetitions around a node, a token, a group or a choice; alone and at each place among other fields"),
    move |c: &mut Ch<'_>| {
      let base = c.pick(5);
      let mut text = ["N", "'x'", "(N 'x')", "(N | M)", "('x' | 'y')"][base].to_owned();
      let n = c.pick(words + 1);
      let (mut labels, mut mods) = (0, 0);
      for _ in 0..n {
        text = match c.pick(3) {
          0 => {
            labels += 1;
            format!("lab_{}:({text})", ["a", "b", "c", "d"][labels - 1])
          }
          1 => {
            mods += 1;
            format!("({text})?")
          }
          _ => {
            mods += 1;
            format!("({text})*")
          }
        };
      }
      let place = c.pick(6);
      let ok = labels <= 1 && mods <= 1 && base < 2;
      // alone, a group is a sequence and a choice an alternative
      if place == 0 && n == 0 && base >= 2 {
        return Ok(());
      }
      let rule = ["@", "@ Z", "Z @", "'z' @ Z*", "Z 'z' @", "z:Z? 'z'* @ 'y'"][place].replace('@', &text);
      let node = if c.flag() { "Root" } else { "Thing" };
      let rest = "N = 'n'\n M = 'm'\n Z = 'zz'\n";
      let g = if c.flag() { format!("{node} = {rule}\n {rest}") } else { format!("{rest} {node} = {rule}\n") };
      accepts(c, &g, Some(ok))
    },
  );
  let most = x.by(3, 4);
  x.space("alternatives", format!("alternatives of 2 to {most} members: nodes, tokens, labelled, optional or repeated ones, groups"), move |c: &mut Ch<'_>| {
    let n = 2 + c.pick(most - 1);
    let mut nodes = true;
    let mut tokens = true;
    let mut members = vec![];
    for i in 0..n {
      let (node, tok) = (["N", "M", "Z", "Y"][i], ["'n'", "'m'", "'zz'", "'yy'"][i]);
      let k = c.pick(8);
      members.push(match k {
        0 => node.to_owned(),
        1 => tok.to_owned(),
        2 => format!("lab:{node}"),
        3 => format!("lab:{tok}"),
        4 => format!("{node}?"),
        5 => format!("{tok}*"),
        6 => format!("({node} {tok})"),
        _ => format!("({node} | {node}x)"),
      });
      nodes &= k == 0;
      tokens &= k == 1;
    }
    let rest = "N = 'n'\n M = 'm'\n Z = 'zz'\n Y = 'yy' \n Nx = 'n'\n Mx = 'm'\n Zx = 'zz' Yx = 'yy'\n";
    let alt = format!("Alt = {}\n", members.join(" | "));
    let g = if c.flag() { format!("{alt} {rest}") } else { format!("Root = Alt* {rest} {alt}") };
    accepts(c, &g, Some(nodes || tokens))
  });
  x.space("token names", "every ASCII character and some others as a token, alone, after and before one with a name, doubled, and with letters", |c: &mut Ch<'_>| {
    const NAMED: &str = "_-,;:!?.()[]{}*/&#%^+<=>|~`$@";
    let ch = match c.pick(136) {
      n @ 0..128 => n as u8 as char,
      n => ['\u{e9}', '\u{3bb}', '\u{2192}', '\u{ff0b}', '\u{663}', '\u{1f600}', '\u{a0}', '\u{2028}'][n - 128],
    };
    let form = c.pick(6);
    let tok = match form {
      0 => format!("{ch}"),
      1 => format!("+{ch}"),
      2 => format!("{ch}="),
      3 => format!("{ch}{ch}"),
      4 => format!("a{ch}"),
      _ => format!("{ch}a"),
    };
    let ok = if tok.chars().any(|c| c.is_ascii_alphabetic()) {
      // a keyword: its name has to be an identifier; what other letters and digits make is not claimed
      if !ch.is_ascii() {
        return Ok(());
      }
      let first = tok.trim_start_matches('_').chars().next().unwrap_or('_');
      tok.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !first.is_ascii_digit()
    } else {
      tok.chars().all(|c| NAMED.contains(c))
    };
    let quoted = tok.replace('\\', "\\\\").replace('\'', "\\'");
    let g = match c.pick(3) {
      0 => format!("Root = lab:'{quoted}'\n"),
      1 => format!("Root = N\n N = 'kk' lab:'{quoted}'*\n"),
      _ => format!("Root = N\n N = 'kk' | '{quoted}'\n"),
    };
    accepts(c, &g, Some(ok))
  });
  x.space("no tokens named by nothing", "an empty token at each place of a rule", |c: &mut Ch<'_>| {
    let g = *c.of(&["Root = ''", "Root = N ''\nN = 'n'", "Root = 'n' | ''", "Root = lab:''*", "Root = N\nN = 'x' '' 'y'"]);
    accepts(c, g, Some(false))
  });
  x.space("syntax errors", "a small grammar with one character removed, or one of 12 inserted or put in place of it: refused if it is not a grammar", |c: &mut Ch<'_>| {
    const G: &str = "Root = N* 'fn' l:A?\nA = N | M\nN = Op '('\nM = 'x'\nOp = '+' | '-'\n";
    let at = c.pick(G.len() + 1);
    let how = c.pick(3);
    let mut s = G.to_owned();
    if how < 2 {
      if at == G.len() {
        return Ok(());
      }
      s.remove(at);
    }
    if how > 0 {
      s.insert(at, *c.of(&['=', '|', '(', ')', '\'', ':', '*', '?', 'N', ' ', '\\', '9']));
    }
    if s.parse::<ungrammar::Grammar>().is_ok() {
      // may or may not be expressible
      c.outcome("still a grammar");
      return Ok(());
    }
    accepts(c, &s, Some(false))
  });
}

/// Whether generation accepts the grammar and writes both files, or panics and writes nothing.
fn accepts(c: &mut Ch<'_>, g: &str, want: Option<bool>) -> Res {
  let none: HashMap<&str, &str> = HashMap::new();
  let m = generate(&syntax_gen::Options { lang: "Lang", trivia: &["Ws"], grammar: g, doc: &none, special: &none, file: "f" });
  c.checks(1);
  c.state(&g);
  ensure_eq!(m.others, 0, "other files were written for\n{g}");
  match m.ok {
    Ok(()) => {
      ensure!(want != Some(false), "code was generated from\n{g}");
      ensure!(m.kind.is_some() && m.ast.is_some(), "files were not written for\n{g}");
      c.outcome("generated");
    }
    Err(e) => {
      if want == Some(true) {
        bail!("generation panics ({e}) for\n{g}");
      }
      ensure!(m.kind.is_none() && m.ast.is_none(), "code was written although generation panics ({e}) for\n{g}");
      c.outcome("refused");
    }
  }
  Ok(())
}

fn diff(a: &str, b: &str) -> String {
  let (x, y): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
  for i in 0..x.len().max(y.len()) {
    if x.get(i) != y.get(i) {
      return format!("line {i}: {:?} instead of {:?}", y.get(i), x.get(i));
    }
  }
  "no difference in lines".to_owned()
}
