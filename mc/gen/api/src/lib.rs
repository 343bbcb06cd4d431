//! What generated code is looked at through: plain functions, the same for every grammar.

/// What a node type makes of the root of a tree: whether the node it gives back is that node, and
/// per accessor the indices of the children it finds.
pub type Probe = fn(rowan::GreenNode) -> Option<(bool, Vec<Vec<usize>>)>;

pub struct Kinds {
  pub keyword: fn(&[u8]) -> Option<u16>,
  pub punctuation: fn() -> Vec<(Vec<u8>, u16)>,
  pub desc: fn(u16) -> Option<&'static str>,
  pub doc: fn(u16) -> Option<&'static str>,
  pub display: fn(u16) -> String,
  pub debug: fn(u16) -> String,
  pub is_trivia: fn(u16) -> bool,
  /// From the raw kind and back, by the language and by conversion.
  pub raw: fn(u16) -> (u16, u16),
  pub generated_by: &'static str,
}

pub struct NodeType {
  pub name: &'static str,
  pub can_cast: fn(u16) -> bool,
  pub probe: Probe,
  /// For alternatives, the name of the variant.
  pub variant: Option<fn(rowan::GreenNode) -> Option<&'static str>>,
}

pub struct TokenType {
  pub name: &'static str,
  /// For the first child, a token: the variant and its text, whether the token is the given one.
  pub probe: fn(rowan::GreenNode) -> Option<(&'static str, &'static str, bool)>,
}

pub struct Generated {
  pub name: &'static str,
  pub kinds: Kinds,
  pub generated_by: Option<&'static str>,
  pub nodes: Vec<NodeType>,
  pub tokens: Vec<TokenType>,
}

pub fn opt<T>(x: Option<T>, f: fn(T) -> usize) -> Vec<usize> {
  x.map(f).into_iter().collect()
}

pub fn rep<T>(x: impl Iterator<Item = T>, f: fn(T) -> usize) -> Vec<usize> {
  x.map(f).collect()
}

#[macro_export]
macro_rules! kinds {
  ($lang:ident) => {
    $crate::Kinds {
      keyword: |s| kind::SyntaxKind::keyword(s).map(|k| rowan::SyntaxKind::from(k).0),
      punctuation: || kind::SyntaxKind::PUNCTUATION.iter().map(|&(s, k)| (s.to_vec(), rowan::SyntaxKind::from(k).0)).collect(),
      desc: |k| from_raw(k).token_desc(),
      doc: |k| from_raw(k).token_doc(),
      display: |k| from_raw(k).to_string(),
      debug: |k| format!("{:?}", from_raw(k)),
      is_trivia: |k| token::Triviable::is_trivia(&from_raw(k)),
      raw: |k| {
        let s = from_raw(k);
        (<kind::$lang as rowan::Language>::kind_to_raw(s).0, rowan::SyntaxKind::from(s).0)
      },
      generated_by: kind::GENERATED_BY,
    }
  };
}

#[macro_export]
macro_rules! node_type {
  ($ty:ident, $probe:expr, $variant:expr) => {
    $crate::NodeType {
      name: stringify!($ty),
      can_cast: |k| <ast::$ty as ast::AstNode>::can_cast(from_raw(k)),
      probe: $probe,
      variant: $variant,
    }
  };
}
