//! The family of grammars, and what the code generated from each has to be. Written from the
//! documentation of syntax-gen; nothing of /repo is used here.

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Class {
  Keyword,
  Punct,
  Special(String),
}

#[derive(Debug, Clone)]
pub struct Tok {
  pub text: String,
  pub class: Class,
  pub doc: Option<String>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Base {
  /// Index of a token.
  Tok(usize),
  /// Index of a rule.
  Rule(usize),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Card {
  One,
  Opt,
  Rep,
}

#[derive(Debug, Clone)]
pub struct Field {
  pub base: Base,
  pub card: Card,
  pub label: Option<String>,
  /// Whether a labelled field with a modifier is written `(l:X)?` instead of `l:X?`.
  pub inner: bool,
}

#[derive(Debug, Clone)]
pub enum Rule {
  Seq(Vec<Field>),
  NodeAlt(Vec<usize>),
  TokAlt(Vec<usize>),
}

#[derive(Debug, Clone)]
pub struct Grammar {
  pub name: String,
  pub lang: String,
  pub file: String,
  pub trivia: Vec<String>,
  pub toks: Vec<Tok>,
  pub rules: Vec<(String, Rule)>,
}

/// What a field accessor finds.
#[derive(Debug, Clone)]
pub struct Access {
  pub name: String,
  pub base: Base,
  pub card: Card,
  pub kinds: Vec<String>,
  pub token: bool,
  pub ordinal: usize,
}

fn char_name(c: char) -> &'static str {
  match c {
    '+' => "Plus",
    '-' => "Minus",
    '=' => "Eq",
    '<' => "Lt",
    '>' => "Gt",
    '*' => "Star",
    '.' => "Dot",
    '|' => "Bar",
    '(' => "LRound",
    ')' => "RRound",
    '_' => "Underscore",
    '~' => "Tilde",
    '#' => "Hash",
    ':' => "Colon",
    c => panic!("no punctuation: {c}"),
  }
}

fn pascal(s: &str) -> String {
  s.split('_')
    .map(|w| {
      let w = w.to_lowercase();
      let mut cs = w.chars();
      cs.next().map_or(String::new(), |c| c.to_ascii_uppercase().to_string() + cs.as_str())
    })
    .collect()
}

fn snake(s: &str) -> String {
  let mut out = String::new();
  for (i, c) in s.char_indices() {
    if i > 0 && c.is_ascii_uppercase() {
      out.push('_');
    }
    out.push(c.to_ascii_lowercase());
  }
  out
}

impl Tok {
  pub fn kind(&self) -> String {
    match &self.class {
      Class::Keyword => pascal(&self.text) + "Kw",
      Class::Punct => self.text.chars().map(char_name).collect(),
      Class::Special(_) => self.text.clone(),
    }
  }
  /// The description of tokens of this kind.
  pub fn desc(&self) -> String {
    match &self.class {
      Class::Special(d) => d.clone(),
      _ => format!("`{}`", self.text),
    }
  }
}

impl Grammar {
  pub fn text(&self) -> String {
    let mut out = String::from("// a grammar\n");
    let name = |b: Base| match b {
      Base::Tok(t) => format!("'{}'", self.toks[t].text),
      Base::Rule(r) => self.rules[r].0.clone(),
    };
    for (n, rule) in &self.rules {
      let rhs: Vec<String> = match rule {
        Rule::Seq(fs) => fs
          .iter()
          .map(|f| {
            let m = match f.card {
              Card::One => "",
              Card::Opt => "?",
              Card::Rep => "*",
            };
            match &f.label {
              None => format!("{}{m}", name(f.base)),
              Some(l) if f.inner => format!("({l}:{}){m}", name(f.base)),
              Some(l) => format!("{l}:{}{m}", name(f.base)),
            }
          })
          .collect(),
        Rule::NodeAlt(rs) => rs.iter().map(|&r| name(Base::Rule(r))).collect(),
        Rule::TokAlt(ts) => ts.iter().map(|&t| name(Base::Tok(t))).collect(),
      };
      let sep = if matches!(rule, Rule::Seq(_)) { " " } else { "\n  | " };
      out.push_str(&format!("{n} =\n  {}\n\n", rhs.join(sep)));
    }
    out
  }

  /// The names of all kinds, no order.
  pub fn kinds(&self) -> Vec<String> {
    let mut out = self.trivia.clone();
    out.extend(self.toks.iter().map(Tok::kind));
    out.extend(self.rules.iter().filter(|r| matches!(r.1, Rule::Seq(_))).map(|r| r.0.clone()));
    out
  }

  /// The kinds of the nodes or tokens that are of the type of the rule.
  pub fn kinds_of(&self, b: Base) -> Vec<String> {
    match b {
      Base::Tok(t) => vec![self.toks[t].kind()],
      Base::Rule(r) => match &self.rules[r].1 {
        Rule::Seq(_) => vec![self.rules[r].0.clone()],
        Rule::NodeAlt(rs) => rs.iter().map(|&r| self.rules[r].0.clone()).collect(),
        Rule::TokAlt(ts) => ts.iter().map(|&t| self.toks[t].kind()).collect(),
      },
    }
  }

  pub fn is_token(&self, b: Base) -> bool {
    match b {
      Base::Tok(_) => true,
      Base::Rule(r) => matches!(self.rules[r].1, Rule::TokAlt(_)),
    }
  }

  pub fn accesses(&self, fields: &[Field]) -> Vec<Access> {
    let ty = |b: Base| match b {
      Base::Tok(t) => self.toks[t].kind(),
      Base::Rule(r) => self.rules[r].0.clone(),
    };
    (0..fields.len())
      .map(|i| {
        let f = &fields[i];
        let plain = snake(&ty(f.base));
        let name = match (&f.label, f.card) {
          (Some(l), _) => l.clone(),
          (None, Card::Rep) => format!("{plain}s"),
          (None, _) => plain,
        };
        Access {
          name,
          base: f.base,
          card: f.card,
          kinds: self.kinds_of(f.base),
          token: self.is_token(f.base),
          ordinal: fields[..i].iter().filter(|g| g.base == f.base).count(),
        }
      })
      .collect()
  }
}

// ---------------------------------------------------------------------------------------------

fn kw(s: &str) -> Tok {
  Tok { text: s.to_owned(), class: Class::Keyword, doc: None }
}
fn punct(s: &str) -> Tok {
  Tok { text: s.to_owned(), class: Class::Punct, doc: None }
}
fn special(s: &str, d: &str) -> Tok {
  Tok { text: s.to_owned(), class: Class::Special(d.to_owned()), doc: None }
}
fn doc(mut t: Tok, n: usize) -> Tok {
  let docs = ["plain", "", "two\nlines", "a \"quoted\" {brace} \\n `tick` \u{e9}"];
  t.doc = Some(format!("{} {}", t.text, docs[n % docs.len()]));
  t
}
fn f(base: Base, card: Card) -> Field {
  Field { base, card, label: None, inner: false }
}

/// A letter name for a number.
fn letters(mut n: usize) -> String {
  let mut out = String::new();
  loop {
    out.push((b'a' + (n % 26) as u8) as char);
    n /= 26;
    if n == 0 {
      return out;
    }
  }
}

fn grammar(name: String, trivia: &[&str], toks: Vec<Tok>, rules: Vec<(String, Rule)>) -> Grammar {
  let n = name.len() + toks.len();
  Grammar {
    lang: ["Lang", "Sml", "L", "MyLang"][n % 4].to_owned(),
    file: format!("some/dir \"{name}\".rs"),
    name,
    trivia: trivia.iter().map(|&s| s.to_owned()).collect(),
    toks,
    rules,
  }
}

/// A grammar whose only rule has all tokens.
fn flat(name: String, trivia: &[&str], toks: Vec<Tok>) -> Grammar {
  let mut fields: Vec<Field> = (0..toks.len()).map(|t| f(Base::Tok(t), [Card::One, Card::Opt, Card::Rep][t % 3])).collect();
  if fields.is_empty() {
    fields.push(f(Base::Rule(0), Card::Opt));
  }
  grammar(name, trivia, toks, vec![("Root".to_owned(), Rule::Seq(fields))])
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
  if n == 0 {
    return vec![vec![]];
  }
  let mut out = vec![];
  for p in permutations(n - 1) {
    for i in 0..n {
      let mut q = p.clone();
      q.insert(i, n - 1);
      out.push(q);
    }
  }
  out
}

const TRIVIA: &[&str] = &["Whitespace", "BlockComment", "Invalid"];

fn token_grammars(thorough: bool) -> Vec<Grammar> {
  let mut out = vec![];
  // all sets of tokens
  let all = [
    punct("+"),
    punct("+="),
    kw("fn"),
    kw("fn_x"),
    special("Name", "a name"),
    special("int_lit", "an \"integer\" {literal}"),
    punct("="),
    kw("REC"),
    punct("=="),
  ];
  let all = &all[..if thorough { 9 } else { 6 }];
  for mask in 0..1_usize << all.len() {
    let toks: Vec<Tok> = (0..all.len()).filter(|i| mask >> i & 1 == 1).map(|i| if (mask + i) % 3 == 0 { doc(all[i].clone(), i) } else { all[i].clone() }).collect();
    out.push(flat(format!("set_{mask}"), &TRIVIA[..mask % 4], toks));
  }
  // all orders of tokens that are prefixes of one another
  let chain = [punct("-"), punct("->"), punct("--"), punct("->>"), kw("a"), kw("ab")];
  for p in permutations(if thorough { 6 } else { 4 }) {
    let toks = p.iter().map(|&i| chain[i].clone()).collect();
    out.push(flat(format!("order_{}", p.iter().map(ToString::to_string).collect::<String>()), &TRIVIA[..1], toks));
  }
  // all documented subsets
  let four = [punct("..."), kw("end"), special("Str", "a string"), special("Char", ""), kw("x\u{e9}"), punct("<|>")];
  let k = if thorough { 6 } else { 4 };
  for mask in 0..1_usize << k {
    let toks = (0..k).map(|i| if mask >> i & 1 == 1 { doc(four[i].clone(), i) } else { four[i].clone() }).collect();
    out.push(flat(format!("doc_{mask}"), &TRIVIA[..2], toks));
  }
  // all trivia lists
  for p in permutations(3) {
    for len in 0..=3 {
      let t: Vec<&str> = p[..len].iter().map(|&i| TRIVIA[i]).collect();
      let name = format!("trivia_{}", p[..len].iter().map(ToString::to_string).collect::<String>());
      if out.iter().all(|g| g.name != name) {
        out.push(flat(name, &t, vec![kw("val"), punct("="), special("Name", "name")]));
      }
    }
  }
  // no trivia and no tokens at all, or one of either
  out.push(flat("bare".to_owned(), &[], vec![]));
  out.push(flat("one_trivia".to_owned(), &["Ws"], vec![]));
  out.push(flat("many_tokens".to_owned(), &["Ws"], (0..300).map(|i| kw(&format!("k{}", letters(i)))).chain((0..200).map(|i| {
    let mut s = String::new();
    let mut n = i + 1;
    while n > 0 {
      s.push(['+', '-', '='][n % 3]);
      n /= 3;
    }
    punct(&s)
  })).collect()));
  out
}

/// The tokens and rules that shapes are made of: the first `BASES` fields' bases.
fn universe(first: bool) -> (Vec<Tok>, Vec<(String, Rule)>, Vec<Base>) {
  let toks = vec![kw("fn"), punct("->"), special("Name", "a name"), kw("zz")];
  let mut rules = vec![
    ("Exp".to_owned(), Rule::Seq(vec![f(Base::Tok(0), Card::One)])),
    ("TyBind".to_owned(), Rule::Seq(vec![f(Base::Tok(1), Card::Rep), f(Base::Rule(0), Card::Opt)])),
    ("AnyOne".to_owned(), Rule::NodeAlt(vec![0, 1])),
    ("BinOp".to_owned(), Rule::TokAlt(vec![1, 0])),
    ("Other".to_owned(), Rule::Seq(vec![f(Base::Tok(3), Card::One), f(Base::Tok(2), Card::Opt)])),
  ];
  let mut idx: Vec<usize> = (0..5).collect();
  if !first {
    // alternatives before what they name
    rules.reverse();
    idx.reverse();
    for (_, r) in &mut rules {
      match r {
        Rule::Seq(fs) => {
          for f in fs {
            if let Base::Rule(r) = &mut f.base {
              *r = 4 - *r;
            }
          }
        }
        Rule::NodeAlt(rs) => rs.iter_mut().for_each(|r| *r = 4 - *r),
        Rule::TokAlt(_) => {}
      }
    }
  }
  let bases = vec![Base::Tok(1), Base::Rule(idx[0]), Base::Rule(idx[2]), Base::Rule(idx[3]), Base::Tok(0), Base::Tok(2), Base::Rule(idx[1])];
  (toks, rules, bases)
}

const CARDS: [Card; 3] = [Card::One, Card::Opt, Card::Rep];

/// All shapes: per field the number of a base, a cardinality, whether it is labelled.
fn shapes(thorough: bool) -> Vec<Vec<(usize, Card, bool)>> {
  let mut out = vec![];
  let mut product = |len: usize, bases: usize, cards: &[Card], labels: &[bool]| {
    let alphabet: Vec<(usize, Card, bool)> =
      (0..bases).flat_map(|b| cards.iter().flat_map(move |&c| labels.iter().map(move |&l| (b, c, l)))).collect();
    let mut level = vec![vec![]];
    for _ in 0..len {
      level = level.into_iter().flat_map(|s| alphabet.iter().map(move |&a| [s.as_slice(), &[a]].concat())).collect::<Vec<_>>();
    }
    out.extend(level);
  };
  product(1, 7, &CARDS, &[false, true]);
  if thorough {
    product(2, 7, &CARDS, &[false, true]);
    product(3, 4, &CARDS, &[false]);
    product(4, 3, &[Card::One, Card::Rep], &[false]);
    product(5, 2, &[Card::One, Card::Rep], &[false]);
  } else {
    product(2, 7, &CARDS, &[false]);
    product(2, 4, &CARDS, &[true]);
    product(3, 3, &[Card::One, Card::Rep], &[false]);
    product(4, 2, &[Card::One, Card::Rep], &[false]);
  }
  out
}

fn shape_grammars(thorough: bool) -> Vec<Grammar> {
  let mut out = vec![];
  let shapes = shapes(thorough);
  for (n, chunk) in shapes.chunks(60).enumerate() {
    let (toks, mut rules, bases) = universe(n % 2 == 0);
    let mut mine = vec![];
    for (i, shape) in chunk.iter().enumerate() {
      let mut fields: Vec<Field> = shape
        .iter()
        .enumerate()
        .map(|(k, &(b, card, label))| Field { base: bases[b], card, label: label.then(|| format!("lab_{}", letters(k))), inner: (i + k) % 2 == 0 })
        .collect();
      // accessors need different names
      let g = grammar(String::new(), &[], toks.clone(), rules.clone());
      for k in 0..fields.len() {
        let names: Vec<String> = g.accesses(&fields).into_iter().map(|a| a.name).collect();
        if names[..k].contains(&names[k]) {
          fields[k].label = Some(format!("again_{}", letters(k)));
        }
      }
      let name = if i == 7 { "Root".to_owned() } else { format!("Sh{}", pascal(&letters(i + 30))) };
      mine.push((name, Rule::Seq(fields)));
    }
    if n % 3 == 0 {
      rules.extend(mine);
    } else {
      // the shapes first: all numbers of rules move
      let k = mine.len();
      let shift = |b: &mut usize| *b += k;
      for (_, r) in rules.iter_mut().chain(&mut mine) {
        match r {
          Rule::Seq(fs) => fs.iter_mut().for_each(|f| {
            if let Base::Rule(r) = &mut f.base {
              shift(r);
            }
          }),
          Rule::NodeAlt(rs) => rs.iter_mut().for_each(shift),
          Rule::TokAlt(_) => {}
        }
      }
      mine.extend(rules);
      rules = mine;
    }
    out.push(grammar(format!("shapes_{n}"), &TRIVIA[..1 + n % 2], toks, rules));
  }
  out
}

/// Rules with many fields of one type.
fn wide_grammars() -> Vec<Grammar> {
  let (toks, mut rules, bases) = universe(true);
  for (b, name) in [(0, "Arrows"), (1, "Exps"), (2, "Anys"), (3, "Ops")] {
    for (n, cards, name) in [(40, &CARDS[..1], format!("{name}One")), (20, &CARDS[1..2], format!("{name}Opt")), (19, &CARDS[..], format!("{name}Mixed"))] {
      let fields = (0..n).map(|k| Field { base: bases[b], card: cards[k % cards.len()], label: Some(format!("l_{}", letters(k))), inner: k % 2 == 0 }).collect();
      rules.push((name, Rule::Seq(fields)));
    }
  }
  // many types, all twice
  let twice = (0..14).map(|k| Field { base: bases[k % 7], card: Card::One, label: Some(format!("l_{}", letters(k))), inner: false }).collect();
  rules.push(("Twice".to_owned(), Rule::Seq(twice)));
  rules.push(("Root".to_owned(), Rule::Seq(vec![f(Base::Tok(0), Card::One)])));
  // many alternatives and trivia
  let words: Vec<Tok> = (0..40).map(|k| kw(&format!("w{}", letters(k)))).collect();
  let mut alts: Vec<(String, Rule)> = vec![];
  alts.push(("Root".to_owned(), Rule::Seq(vec![f(Base::Rule(1), Card::Opt), f(Base::Rule(2), Card::Rep)])));
  alts.push(("AnyWord".to_owned(), Rule::TokAlt((0..40).collect())));
  alts.push(("AnyNode".to_owned(), Rule::NodeAlt((3..43).collect())));
  for k in 0..40 {
    alts.push((format!("Nd{}", pascal(&letters(k))), Rule::Seq(vec![f(Base::Tok(k), Card::One), f(Base::Rule([1, 2, 3][k % 3]), CARDS[k % CARDS.len()])])));
  }
  let trivia: Vec<String> = (0..40).map(|k| format!("Tr{}", pascal(&letters(k)))).collect();
  let trivia: Vec<&str> = trivia.iter().map(String::as_str).collect();
  vec![grammar("wide".to_owned(), &TRIVIA[..1], toks, rules), grammar("wide_alternatives".to_owned(), &trivia, words, alts)]
}

fn name_grammars() -> Vec<Grammar> {
  let toks = vec![kw("fn"), kw("eq_type"), kw("LET"), kw("with_TYPE_x"), punct("->"), punct("__"), punct(":>="), punct("(|"), special("IntLit", "an int"), special("name", "x"), special("HTTPName", "url"), kw("_")];
  let toks: Vec<Tok> = toks.into_iter().filter(|t| t.text != "_").chain([punct("_")]).collect();
  let n = toks.len();
  let names = ["Exp", "SourceFile", "XMLPart", "a_node", "Ab", "X", "TyCon"];
  let mut rules: Vec<(String, Rule)> = vec![
    ("Root".to_owned(), Rule::Seq((0..n).map(|t| f(Base::Tok(t), Card::One)).collect())),
    ("Opts".to_owned(), Rule::Seq((0..n).map(|t| f(Base::Tok(t), Card::Opt)).collect())),
    ("Reps".to_owned(), Rule::Seq((0..n).map(|t| f(Base::Tok(t), Card::Rep)).collect())),
  ];
  let at = rules.len();
  for (i, s) in names.iter().enumerate() {
    rules.push(((*s).to_owned(), Rule::Seq(vec![f(Base::Tok(i), Card::One)])));
  }
  let all = |c: Card| Rule::Seq((0..names.len()).map(|r| f(Base::Rule(at + r), c)).collect());
  rules.push(("NodesOne".to_owned(), all(Card::One)));
  rules.push(("NodesOpt".to_owned(), all(Card::Opt)));
  rules.push(("NodesRep".to_owned(), all(Card::Rep)));
  let alts = rules.len();
  rules.push(("AnyName".to_owned(), Rule::NodeAlt((at..at + names.len()).rev().collect())));
  rules.push(("TwoNames".to_owned(), Rule::NodeAlt(vec![at + 1, at + 5])));
  rules.push(("AnyTok".to_owned(), Rule::TokAlt((0..n).rev().collect())));
  rules.push(("SomeTok".to_owned(), Rule::TokAlt(vec![3, 0, 8])));
  rules.push(("UsesAlts".to_owned(), Rule::Seq((0..4).map(|r| f(Base::Rule(alts + r), CARDS[r % 3])).collect())));
  rules.push(("MoreAlts".to_owned(), Rule::Seq((0..4).map(|r| f(Base::Rule(alts + r), CARDS[(r + 2) % 3])).collect())));
  vec![grammar("names".to_owned(), &["Whitespace", "block_comment"], toks, rules)]
}

/// Tokens with all combinations of description and documentation, equal ones among them.
fn text_grammars() -> Vec<Grammar> {
  const DOCS: usize = 10;
  const DESCS: usize = 8;
  let mut toks = vec![];
  let document = |mut t: Tok, how: usize| {
    t.doc = match how {
      0 => None,
      1 => Some(String::new()),
      2 => Some(t.text.clone()),
      3 => Some(t.desc()),
      4 => Some(t.kind()),
      5 => Some("same".to_owned()),
      6 => Some("\n".to_owned()),
      7 => Some(" lead and trail \n\n# h\n".to_owned()),
      8 => Some("`+`".to_owned()),
      _ => Some("Root".to_owned()),
    };
    t
  };
  for i in 0..DOCS {
    toks.push(document(kw(&format!("k{}", letters(i))), i));
    let p: String = (0..=i).map(|j| if (i + j) % 2 == 0 { '+' } else { '=' }).collect();
    toks.push(document(punct(&p), i));
    for d in 0..DESCS {
      let name = format!("Sp{}{}", pascal(&letters(i)), pascal(&letters(d)));
      let desc = match d {
        0 => String::new(),
        1 => name.clone(),
        2 => format!("`{name}`"),
        3 => "`+`".to_owned(),
        4 => "Root".to_owned(),
        5 => "same".to_owned(),
        6 => "a \"quoted\"\n{} \\ \u{e9}".to_owned(),
        _ => " ".to_owned(),
      };
      toks.push(document(special(&name, &desc), i));
    }
  }
  let rev = toks.iter().rev().cloned().collect();
  vec![flat("texts".to_owned(), &TRIVIA[..1], toks), flat("texts_rev".to_owned(), &TRIVIA[..2], rev)]
}

/// All keywords up to a length, in as many grammars as it takes for their kinds to have different names.
fn keyword_grammars(thorough: bool) -> Vec<Grammar> {
  let mut level = vec![String::new()];
  let mut words = vec![];
  for _ in 0..if thorough { 4 } else { 3 } {
    level = level.iter().flat_map(|w| ['a', '_', '9', 'Z', 'b'].iter().map(move |c| format!("{w}{c}"))).collect::<Vec<_>>();
    words.extend(level.iter().filter(|w| {
      let t = w.trim_start_matches('_');
      w.chars().any(char::is_alphabetic) && !t.starts_with('9')
    }).cloned());
  }
  words.extend(["u8", "is_", "_self", "x86_64", "a1b2c3", "__init__", "f_0"].map(str::to_owned));
  let mut sets: Vec<Vec<Tok>> = vec![];
  for w in words {
    let t = kw(&w);
    if sets.iter().flatten().any(|u| u.text == w) {
      continue;
    }
    // accessors have to be different, too
    let key = |t: &Tok| snake(&t.kind());
    match sets.iter_mut().find(|s| s.iter().all(|u| key(u) != key(&t))) {
      Some(s) => s.push(t),
      None => sets.push(vec![t]),
    }
  }
  sets.into_iter().enumerate().map(|(i, s)| flat(format!("keywords_{i}"), &TRIVIA[..i % 3], s)).collect()
}

/// What a name is the name of.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Role {
  Node,
  NodeAlt,
  TokAlt,
  Special,
}

pub const ROLES: [Role; 4] = [Role::Node, Role::NodeAlt, Role::TokAlt, Role::Special];

/// A grammar in which the names `Aa` and `Bb` have these roles.
pub fn role_grammar(aa: Role, bb: Role) -> Grammar {
  let mut toks = vec![kw("fn"), punct("+"), kw("val")];
  let mut rules = vec![
    ("Root".to_owned(), Rule::Seq(vec![])),
    ("Leaf".to_owned(), Rule::Seq(vec![f(Base::Tok(0), Card::One)])),
    ("Twig".to_owned(), Rule::Seq(vec![f(Base::Tok(1), Card::One)])),
  ];
  let mut bases = vec![];
  for (name, role) in [("Aa", aa), ("Bb", bb)] {
    let r = rules.len();
    let rule = match role {
      Role::Node => Rule::Seq(vec![f(Base::Tok(2), Card::One), f(Base::Rule(1), Card::Rep)]),
      Role::NodeAlt => Rule::NodeAlt(vec![1, 2]),
      Role::TokAlt => Rule::TokAlt(vec![0, 1]),
      Role::Special => {
        toks.push(special(name, "special"));
        bases.push(Base::Tok(toks.len() - 1));
        continue;
      }
    };
    bases.push(Base::Rule(r));
    rules.push((name.to_owned(), rule));
  }
  let mut fields: Vec<Field> = bases.iter().flat_map(|&b| [f(b, Card::One), f(b, Card::Rep)]).collect();
  fields.extend([f(Base::Tok(2), Card::Opt), f(Base::Rule(2), Card::Rep)]);
  rules[0].1 = Rule::Seq(fields);
  grammar(format!("role_{aa:?}_{bb:?}").to_lowercase(), &["Whitespace"], toks, rules)
}

pub fn role_grammars() -> Vec<Grammar> {
  ROLES.iter().flat_map(|&a| ROLES.iter().map(move |&b| role_grammar(a, b))).collect()
}

pub fn grammars(thorough: bool) -> Vec<Grammar> {
  let mut out = token_grammars(thorough);
  out.extend(text_grammars());
  out.extend(keyword_grammars(thorough));
  out.extend(role_grammars());
  out.extend(name_grammars());
  out.extend(wide_grammars());
  out.extend(shape_grammars(thorough));
  out
}
