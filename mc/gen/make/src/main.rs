//! Runs the real generator on the whole family of grammars and writes the sources of the crates that
//! the generated code is compiled in. `genmake DIR quick|thorough`. Exits with 1 if the generator
//! refuses a grammar (DIR/refused says which).

use genspec::{Card, Class, Grammar, Rule};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::path::Path;

const SHARDS: usize = 8;

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let (dir, thorough) = (Path::new(&args[1]), args[2] == "thorough");
  std::fs::create_dir_all(dir).expect("directory");
  let out = dir.join("out");
  _ = std::fs::remove_dir_all(&out);
  std::fs::create_dir_all(&out).expect("directory");
  _ = std::fs::remove_file(dir.join("refused"));
  // SAFETY: there are no threads yet
  unsafe { std::env::set_var("OUT_DIR", &out) };
  let gs = genspec::grammars(thorough);
  let mut shards = vec![String::new(); SHARDS];
  let mut lists = vec![String::new(); SHARDS];
  let mut load = [0_usize; SHARDS];
  for g in &gs {
    let made = std::panic::catch_unwind(|| generate(g));
    let files = match made {
      Ok(()) => ["kind.rs", "ast.rs"].map(|f| std::fs::read_to_string(out.join(f))),
      Err(_) => {
        std::fs::write(dir.join("refused"), format!("generation from this grammar panics (trivia {:?}):\n{}", g.trivia, g.text())).expect("write");
        std::process::exit(1);
      }
    };
    let [Ok(kind), Ok(ast)] = files else {
      std::fs::write(dir.join("refused"), format!("generation from this grammar writes no files:\n{}", g.text())).expect("write");
      std::process::exit(1);
    };
    for f in ["kind.rs", "ast.rs"] {
      std::fs::remove_file(out.join(f)).expect("remove");
    }
    let at = (0..SHARDS).min_by_key(|&i| load[i]).expect("shards");
    load[at] += kind.len() + 3 * ast.len();
    write!(shards[at], "{}", module(g, &kind, &ast)).expect("string");
    writeln!(lists[at], "{}::get(),", g.name).expect("string");
  }
  for i in 0..SHARDS {
    let text = format!("{}\npub fn all() -> Vec<genapi::Generated> {{ vec![{}] }}\n", shards[i], lists[i]);
    let path = dir.join(format!("s{i}.rs"));
    // what did not change need not be compiled again
    if std::fs::read_to_string(&path).ok().as_deref() != Some(&text) {
      std::fs::write(path, text).expect("write");
    }
  }
}

fn generate(g: &Grammar) {
  let doc: HashMap<&str, &str> = g.toks.iter().filter_map(|t| Some((t.text.as_str(), t.doc.as_deref()?))).collect();
  let special: HashMap<&str, &str> = g
    .toks
    .iter()
    .filter_map(|t| match &t.class {
      Class::Special(d) => Some((t.text.as_str(), d.as_str())),
      _ => None,
    })
    .collect();
  let trivia: Vec<&str> = g.trivia.iter().map(String::as_str).collect();
  syntax_gen::get(&syntax_gen::Options { lang: &g.lang, trivia: &trivia, grammar: &g.text(), doc: &doc, special: &special, file: &g.file });
}

/// The item that says which file generated it.
fn generated_by(ast: &str) -> Option<String> {
  let file = syn::parse_file(ast).ok()?;
  file.items.iter().find_map(|item| match item {
    syn::Item::Const(c) if c.ident == "GENERATED_BY" => Some(quote::quote!(#c).to_string()),
    syn::Item::Static(c) if c.ident == "GENERATED_BY" => Some(quote::quote!(#c).to_string()),
    _ => None,
  })
}

fn module(g: &Grammar, kind: &str, ast: &str) -> String {
  let name = &g.name;
  let lang = &g.lang;
  // the generated files expect to be modules of the root of a crate
  let here = |s: &str| s.replace("crate::", &format!("crate::{name}::"));
  let (kind, ast) = (here(kind), here(ast));
  // what is known of the second file where it is not compiled
  let (by_item, by) = match generated_by(&ast) {
    Some(item) => (format!("mod by {{ {item} }}"), "Some(by::GENERATED_BY)"),
    None => (String::new(), "None"),
  };
  let mut nodes = String::new();
  let mut tokens = String::new();
  for (ty, rule) in &g.rules {
    match rule {
      Rule::Seq(fs) => {
        let mut fields = String::new();
        for a in g.accesses(fs) {
          let how = if a.card == Card::Rep { "rep" } else { "opt" };
          let (item, index) = match a.base {
            genspec::Base::Tok(_) => ("kind::SyntaxToken".to_owned(), "x.index()"),
            genspec::Base::Rule(r) => (format!("ast::{}", g.rules[r].0), if a.token { "x.token.index()" } else { "ast::AstNode::syntax(&x).index()" }),
          };
          write!(fields, "genapi::{how}(t.{}(), |x: {item}| {index}),", a.name).expect("string");
        }
        writeln!(nodes, "genapi::node_type!({ty}, |g| {{ let n = kind::SyntaxNode::new_root(g); let t = <ast::{ty} as ast::AstNode>::cast(n.clone())?; Some((*ast::AstNode::syntax(&t) == n, vec![{fields}])) }}, None),").expect("string");
      }
      Rule::NodeAlt(rs) => {
        let arms: String = rs.iter().map(|&r| format!("ast::{ty}::{0}(x) => {{ let x: ast::{0} = x; \"{0}\" }},", g.rules[r].0)).collect();
        writeln!(nodes, "genapi::node_type!({ty}, |g| {{ let n = kind::SyntaxNode::new_root(g); let t = <ast::{ty} as ast::AstNode>::cast(n.clone())?; Some((*ast::AstNode::syntax(&t) == n, vec![])) }}, Some(|g| Some(match <ast::{ty} as ast::AstNode>::cast(kind::SyntaxNode::new_root(g))? {{ {arms} }}))),").expect("string");
      }
      Rule::TokAlt(ts) => {
        let arms: String = ts.iter().map(|&t| format!("ast::{ty}Kind::{0} => \"{0}\",", g.toks[t].kind())).collect();
        writeln!(tokens, "genapi::TokenType {{ name: \"{ty}\", probe: |g| {{ let t = kind::SyntaxNode::new_root(g).first_token()?; let x = ast::{ty}::try_from(t.clone()).ok()?; let s = x.kind.to_str(); Some((match x.kind {{ {arms} }}, s, x.token == t)) }} }},").expect("string");
      }
    }
  }
  format!(
    "pub mod {name} {{
pub mod kind {{ {kind} }}
{by_item}
fn from_raw(k: u16) -> kind::SyntaxKind {{ <kind::{lang} as rowan::Language>::kind_from_raw(rowan::SyntaxKind(k)) }}
#[cfg(feature = \"ast\")]
pub mod ast {{ {ast} }}
#[cfg(feature = \"ast\")]
pub fn get() -> genapi::Generated {{ genapi::Generated {{ name: \"{name}\", kinds: genapi::kinds!({lang}), generated_by: Some(ast::GENERATED_BY), nodes: vec![{nodes}], tokens: vec![{tokens}] }} }}
#[cfg(not(feature = \"ast\"))]
pub fn get() -> genapi::Generated {{ genapi::Generated {{ name: \"{name}\", kinds: genapi::kinds!({lang}), generated_by: {by}, nodes: vec![], tokens: vec![] }} }}
}}
"
  )
}
