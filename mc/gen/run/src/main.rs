// P26: generated kinds. P27: generated accessors.
// Compiled together with what the real generator made from every grammar of the family.

use genapi::Generated;
use genspec::{Base, Class, Grammar, Rule};
use mcx::{Ch, Ctx, Prop, bail, catch, ensure, ensure_eq};
use std::collections::{BTreeMap, BTreeSet};

fn main() {
  mcx::main_with_stack(256, &[Prop { id: "P26", run: p26 }, Prop { id: "P27", run: p27 }]);
}

struct Lang {
  spec: Grammar,
  api: Generated,
  /// Names to raw kinds.
  raw: BTreeMap<String, u16>,
}

/// All grammars. The numbers of the kinds are what their names say.
fn langs(thorough: bool) -> Vec<Lang> {
  let mut apis: Vec<Option<Generated>> =
    [gens0::all(), gens1::all(), gens2::all(), gens3::all(), gens4::all(), gens5::all(), gens6::all(), gens7::all()].into_iter().flatten().map(Some).collect();
  genspec::grammars(thorough)
    .into_iter()
    .map(|spec| {
      let Some(api) = apis.iter_mut().find(|a| a.as_ref().is_some_and(|a| a.name == spec.name)).and_then(Option::take) else {
        mcx::machinery(&format!("{} was not generated", spec.name))
      };
      let mut raw = BTreeMap::new();
      for k in 0..spec.kinds().len() as u16 {
        if let Ok(name) = catch(|| (api.kinds.debug)(k)) {
          raw.insert(name, k);
        }
      }
      Lang { spec, api, raw }
    })
    .collect()
}

// ---------------------------------------------------------------------------------------------

fn p26(x: &mut Ctx) {
  let ls = langs(x.thorough());
  let ls = &ls;
  x.note(format!("{} grammars", ls.len()));
  let all = x.thorough();
  x.space("kinds", if all { "every grammar: all 65536 raw kinds" } else { "every grammar: all raw kinds in range, 300 above it, and 700 others" }, move |c: &mut Ch<'_>| {
    let l = &ls[c.pick(ls.len())];
    let kinds = l.spec.kinds();
    let want: BTreeSet<&str> = kinds.iter().map(String::as_str).collect();
    if want.len() != kinds.len() {
      mcx::machinery("kinds with the same name");
    }
    let got: BTreeSet<&str> = l.raw.keys().map(String::as_str).collect();
    ensure_eq!(got, want, "{}: kinds", l.spec.name);
    for k in 0..=u16::MAX {
      if usize::from(k) > kinds.len() + 300 && !all && k % 257 != 0 && (k & (k - 1)) != 0 && k < 65_500 {
        continue;
      }
      let r = catch(|| (l.api.kinds.raw)(k));
      if usize::from(k) < kinds.len() {
        ensure_eq!(r, Ok((k, k)), "{}: raw kind {k} and back", l.spec.name);
      } else {
        ensure!(r.is_err(), "{}: raw kind {k} of {} was accepted", l.spec.name, kinds.len());
      }
    }
    c.checks(kinds.len() as u64);
    c.state(&l.spec.name);
    Ok(())
  });
  x.space("properties of kinds", "every kind of every grammar: description, documentation, display, being trivia", |c: &mut Ch<'_>| {
    let l = &ls[c.pick(ls.len())];
    let kinds = l.spec.kinds();
    let i = c.pick(kinds.len());
    let name = &kinds[i];
    let Some(&k) = l.raw.get(name) else { bail!("{}: no kind {name}", l.spec.name) };
    let tok = l.spec.toks.iter().find(|t| t.kind() == *name);
    let desc = tok.map(genspec::Tok::desc);
    let at = format!("{}: {name}: ", l.spec.name);
    ensure_eq!((l.api.kinds.desc)(k), desc.as_deref(), "{at}description");
    ensure_eq!((l.api.kinds.doc)(k), tok.and_then(|t| t.doc.as_deref()), "{at}documentation");
    ensure_eq!((l.api.kinds.display)(k), desc.unwrap_or_else(|| name.clone()), "{at}display");
    ensure_eq!((l.api.kinds.is_trivia)(k), l.spec.trivia.contains(name), "{at}being trivia");
    c.checks(1);
    c.state(&(&l.spec.name, name));
    Ok(())
  });
  x.space("punctuation", "every grammar: the elements and order of the table", |c: &mut Ch<'_>| {
    let l = &ls[c.pick(ls.len())];
    let table = (l.api.kinds.punctuation)();
    let got: BTreeMap<Vec<u8>, u16> = table.iter().cloned().collect();
    let want: BTreeMap<Vec<u8>, u16> = of_class(l, &Class::Punct)?;
    ensure_eq!(got, want, "{}: punctuation", l.spec.name);
    ensure_eq!(table.len(), want.len(), "{}: size of the table", l.spec.name);
    for (i, (a, _)) in table.iter().enumerate() {
      for (b, _) in &table[i + 1..] {
        ensure!(!b.starts_with(a), "{}: {:?} comes before {:?}", l.spec.name, show(a), show(b));
      }
    }
    ensure_eq!(l.api.kinds.generated_by, l.spec.file, "{}: the file that generated", l.spec.name);
    if let Some(by) = l.api.generated_by {
      ensure_eq!(by, l.spec.file, "{}: the file that generated the other file", l.spec.name);
    }
    c.checks(1);
    c.state(&l.spec.name);
    Ok(())
  });
  x.space("keywords", "every grammar: each keyword, each other token's text, all strings with one byte more, less or another, all strings up to 2 bytes", |c: &mut Ch<'_>| {
    let l = &ls[c.pick(ls.len())];
    let want = of_class(l, &Class::Keyword)?;
    let mut tries: BTreeSet<Vec<u8>> = (0..=255_u8).flat_map(|a| (0..=255_u8).map(move |b| vec![a, b])).collect();
    tries.extend((0..=255_u8).map(|a| vec![a]));
    tries.insert(vec![]);
    let bytes = b"aefnrxz_ERC\0+\xc3";
    for t in l.spec.toks.iter().map(|t| t.text.clone()).chain(l.spec.kinds()) {
      let s = t.as_bytes().to_vec();
      tries.insert(t.to_lowercase().into_bytes());
      tries.insert(t.to_uppercase().into_bytes());
      for i in 0..=s.len() {
        for &b in bytes {
          let mut u = s.clone();
          u.insert(i, b);
          tries.insert(u);
        }
        if i < s.len() {
          let mut u = s.clone();
          u.remove(i);
          tries.insert(u);
          for &b in bytes {
            let mut u = s.clone();
            u[i] = b;
            tries.insert(u);
          }
        }
      }
      tries.insert(s);
    }
    for t in &tries {
      ensure_eq!((l.api.kinds.keyword)(t), want.get(t).copied(), "{}: keyword {:?}", l.spec.name, show(t));
    }
    c.checks(tries.len() as u64);
    c.state(&l.spec.name);
    Ok(())
  });
}

fn show(b: &[u8]) -> String {
  String::from_utf8_lossy(b).into_owned()
}

fn of_class(l: &Lang, class: &Class) -> Result<BTreeMap<Vec<u8>, u16>, String> {
  let mut out = BTreeMap::new();
  for t in l.spec.toks.iter().filter(|t| t.class == *class) {
    let Some(&k) = l.raw.get(&t.kind()) else { return Err(format!("{}: no kind {}", l.spec.name, t.kind())) };
    out.insert(t.text.clone().into_bytes(), k);
  }
  Ok(out)
}

// ---------------------------------------------------------------------------------------------

/// A child of a node.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
enum Child {
  Tok(String),
  /// A node with a child.
  Node(String, Option<Box<Child>>),
}

fn build(l: &Lang, root: &str, children: &[Child]) -> Result<rowan::GreenNode, String> {
  fn one(l: &Lang, b: &mut rowan::GreenNodeBuilder<'_>, c: &Child) -> Result<(), String> {
    match c {
      Child::Tok(k) => b.token(raw(l, k)?, "t"),
      Child::Node(k, inner) => {
        b.start_node(raw(l, k)?);
        if let Some(i) = inner {
          one(l, b, i)?;
        }
        b.finish_node();
      }
    }
    Ok(())
  }
  let mut b = rowan::GreenNodeBuilder::new();
  b.start_node(raw(l, root)?);
  for c in children {
    one(l, &mut b, c)?;
  }
  b.finish_node();
  Ok(b.finish())
}

fn raw(l: &Lang, name: &str) -> Result<rowan::SyntaxKind, String> {
  l.raw.get(name).map(|&k| rowan::SyntaxKind(k)).ok_or_else(|| format!("{}: no kind {name}", l.spec.name))
}

fn p27(x: &mut Ctx) {
  let ls = langs(x.thorough());
  let ls = &ls;
  x.note(format!("{} grammars, {} node types", ls.len(), ls.iter().map(|l| l.api.nodes.len()).sum::<usize>()));
  x.space("casts", "every node type and every kind of every grammar", |c: &mut Ch<'_>| {
    let l = &ls[c.pick(ls.len())];
    let kinds = l.spec.kinds();
    ensure_eq!(l.api.generated_by, Some(l.spec.file.as_str()), "{}: the file that generated", l.spec.name);
    let tys: Vec<usize> = (0..l.spec.rules.len()).filter(|&r| !l.spec.is_token(Base::Rule(r))).collect();
    let r = tys[c.pick(tys.len())];
    let ty = &l.spec.rules[r].0;
    let Some(api) = l.api.nodes.iter().find(|n| n.name == ty) else { mcx::machinery("node type") };
    let mine = l.spec.kinds_of(Base::Rule(r));
    for k in &kinds {
      let want = mine.contains(k);
      let at = format!("{}: {k} as {ty}: ", l.spec.name);
      ensure_eq!((api.can_cast)(raw(l, k)?.0), want, "{at}can be cast");
      let green = build(l, k, &[])?;
      match (api.probe)(green.clone()) {
        Some((same, _)) => ensure!(want && same, "{at}cast, should be {want}, node given back: {same}"),
        None => ensure!(!want, "{at}not cast"),
      }
      if let Some(v) = api.variant {
        ensure_eq!(v(green), want.then_some(k.as_str()), "{at}variant");
      }
    }
    c.checks(kinds.len() as u64);
    c.state(&(&l.spec.name, ty));
    Ok(())
  });
  x.space("token alternatives", "every token alternative and every kind of every grammar", |c: &mut Ch<'_>| {
    let l = &ls[c.pick(ls.len())];
    if l.api.tokens.is_empty() {
      return Ok(());
    }
    let api = &l.api.tokens[c.pick(l.api.tokens.len())];
    let Some(Rule::TokAlt(ts)) = l.spec.rules.iter().find(|r| r.0 == api.name).map(|r| &r.1) else { mcx::machinery("token type") };
    let mut root = None;
    for (n, r) in &l.spec.rules {
      if matches!(r, Rule::Seq(_)) {
        root = Some(n);
      }
    }
    for k in l.spec.kinds() {
      let got = (api.probe)(build(l, root.unwrap_or_else(|| mcx::machinery("no node")), &[Child::Tok(k.clone())])?);
      let tok = ts.iter().map(|&t| &l.spec.toks[t]).find(|t| t.kind() == k);
      let want = tok.map(|t| (t.kind(), t.text.clone(), true));
      ensure_eq!(got.map(|(a, b, s)| (a.to_owned(), b.to_owned(), s)), want, "{}: token {k} as {}: variant, text, same token", l.spec.name, api.name);
      c.checks(1);
    }
    c.state(&(&l.spec.name, api.name));
    Ok(())
  });
  let most = x.by(4, 5);
  x.space(
    "children",
    format!("every node type with fields of every grammar: all lists of up to {most} children out of those its fields name, another node, token and trivia, and nodes with such a child"),
    move |c: &mut Ch<'_>| {
      let l = &ls[c.pick(ls.len())];
      let seqs: Vec<&(String, Rule)> = l.spec.rules.iter().filter(|r| matches!(r.1, Rule::Seq(_))).collect();
      let (ty, Rule::Seq(fields)) = seqs[c.pick(seqs.len())] else { mcx::machinery("rule") };
      let acc = l.spec.accesses(fields);
      let Some(api) = l.api.nodes.iter().find(|n| n.name == ty) else { mcx::machinery("node type") };
      let alphabet = alphabet(l, ty, &acc);
      // wide rules: fewer children
      let most = match alphabet.len() {
        0..=7 => most,
        8..=12 => 3,
        13..=40 => 2,
        _ => 1,
      };
      let n = c.pick(most + 1);
      let children: Vec<Child> = (0..n).map(|_| c.of(&alphabet).clone()).collect();
      let Some((same, got)) = (api.probe)(build(l, ty, &children)?) else { bail!("{}: a {ty} is not cast to {ty}", l.spec.name) };
      ensure!(same, "{}: {ty}: another node is given back", l.spec.name);
      check_found(c, l, ty, &acc, &children, &got)?;
      c.state(&(&l.spec.name, ty, &children));
      Ok(())
    },
  );
  x.space(
    "long lists",
    "every node type with fields of every grammar: runs of one child, or of two in turn, of 0 to 42 children (all if a rule has many fields of one type, else up to 6)",
    move |c: &mut Ch<'_>| {
      let l = &ls[c.pick(ls.len())];
      let seqs: Vec<&(String, Rule)> = l.spec.rules.iter().filter(|r| matches!(r.1, Rule::Seq(_))).collect();
      let (ty, Rule::Seq(fields)) = seqs[c.pick(seqs.len())] else { mcx::machinery("rule") };
      let acc = l.spec.accesses(fields);
      let Some(api) = l.api.nodes.iter().find(|n| n.name == ty) else { mcx::machinery("node type") };
      let alphabet = alphabet(l, ty, &acc);
      let last = acc.iter().map(|a| a.ordinal).max().unwrap_or(0);
      let n = c.pick(if last > 3 { 43 } else { 7 });
      let a = c.pick(alphabet.len());
      let b = if alphabet.len() < 16 { c.pick(alphabet.len()) } else { a };
      let children: Vec<Child> = (0..n).map(|i| alphabet[if i % 2 == 0 { a } else { b }].clone()).collect();
      let Some((same, got)) = (api.probe)(build(l, ty, &children)?) else { bail!("{}: a {ty} is not cast to {ty}", l.spec.name) };
      ensure!(same, "{}: {ty}: another node is given back", l.spec.name);
      check_found(c, l, ty, &acc, &children, &got)?;
      c.state(&(&l.spec.name, ty, &children));
      Ok(())
    },
  );
}

/// The children worth trying.
fn alphabet(l: &Lang, ty: &str, acc: &[genspec::Access]) -> Vec<Child> {
  let mut alphabet: Vec<Child> = vec![];
  let mut add = |ch: Child| {
    if !alphabet.contains(&ch) {
      alphabet.push(ch);
    }
  };
  for a in acc {
    for k in &a.kinds {
      add(if a.token { Child::Tok(k.clone()) } else { Child::Node(k.clone(), None) });
    }
  }
  if let Some(a) = acc.first() {
    let inner = if a.token { Child::Tok(a.kinds[0].clone()) } else { Child::Node(a.kinds[0].clone(), None) };
    let outer = acc.iter().find(|a| !a.token).map_or(ty, |a| &a.kinds[0]);
    add(Child::Node(outer.to_owned(), Some(Box::new(inner))));
  }
  let named = |k: &String| acc.iter().any(|a| a.kinds.contains(k));
  if let Some(t) = l.spec.toks.iter().map(genspec::Tok::kind).find(|k| !named(k)) {
    add(Child::Tok(t));
  }
  if let Some(t) = l.spec.trivia.first() {
    add(Child::Tok(t.clone()));
  }
  if let Some((n, _)) = l.spec.rules.iter().find(|r| matches!(r.1, Rule::Seq(_)) && !named(&r.0)) {
    add(Child::Node(n.clone(), None));
  }
  alphabet
}

fn check_found(c: &mut Ch<'_>, l: &Lang, ty: &str, acc: &[genspec::Access], children: &[Child], got: &[Vec<usize>]) -> mcx::Res {
  for (a, found) in acc.iter().zip(got) {
    let all: Vec<usize> = (0..children.len())
      .filter(|&i| match &children[i] {
        Child::Tok(k) => a.token && a.kinds.contains(k),
        Child::Node(k, _) => !a.token && a.kinds.contains(k),
      })
      .collect();
    let want: Vec<usize> = if a.card == genspec::Card::Rep { all } else { all.get(a.ordinal).copied().into_iter().collect() };
    ensure_eq!(*found, want, "{}: {ty}.{}() with children {children:?}: indices of what is found", l.spec.name, a.name);
    c.checks(1);
  }
  Ok(())
}
