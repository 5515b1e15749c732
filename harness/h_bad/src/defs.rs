//! Valid definitions, and broken ones next to them.

use crate::text::{self, lit, raw_lit};
use pbt::Ctx;

#[derive(Clone, Default)]
pub struct Src {
  pub text: String,
  /// Where an error has to point to, in bytes.
  pub mark: Option<(usize, usize)>,
}

pub struct Broken {
  pub what: &'static str,
  /// One of these is mentioned (lower case).
  pub says: &'static [&'static str],
  pub src: Src,
}

/// Removes the brackets that mark a place.
fn src(text: String) -> Src {
  let (a, b) = (text.find('⟦'), text.find('⟧'));
  let mark = a.zip(b).map(|(a, b)| (a, b - '⟦'.len_utf8()));
  Src { text: text.replace(['⟦', '⟧'], ""), mark }
}

fn vis(c: &mut Ctx) -> &'static str {
  c.pick(&["", "pub ", "pub(crate) "])
}

fn insert(c: &mut Ctx, v: &mut Vec<String>, s: String) {
  let i = c.below(v.len() + 1);
  v.insert(i, s);
}

// ---------------------------------------------------------------- Tokenize

#[derive(Clone)]
struct Var {
  docs: String,
  attrs: Vec<String>,
  name: String,
  fields: String,
}

#[derive(Clone)]
struct Tok {
  bytes: bool,
  head: Vec<String>,
  name: String,
  vis: &'static str,
  vars: Vec<Var>,
}

const PATS: &[&str] = &["[a-z]+", "[0-9]+", "\\+", "if|else", "==?", "\\(", "x{2,3}", "\"[^\"]*\"", "//[^\\n]*\\n", "a.b", "[A-F]", "@"];
const BYTE_PATS: &[&str] = &["[a-z]+", "[0-9]+", "\\+", "(?-u:[\\x80-\\xff])+", "if|else", "(?-u)\\x00", "==?", "\\(", "x{2,3}", "[A-F]"];

fn pattern(c: &mut Ctx, bytes: bool) -> String {
  c.pick(if bytes { BYTE_PATS } else { PATS }).to_string()
}

fn spell(c: &mut Ctx, p: &str) -> String {
  if c.bool() {
    raw_lit(p)
  } else {
    lit(p)
  }
}

fn valid_tok(c: &mut Ctx) -> Tok {
  let bytes = c.prob(1, 3);
  let mut head = vec![];
  if bytes || c.prob(1, 4) {
    head.push(format!("#[char_type({})]", if bytes { "u8" } else { "char" }));
  }
  if c.prob(1, 4) {
    let p = format!("#[enable_par({})]", c.bool());
    insert(c, &mut head, p);
  }
  if c.prob(1, 4) {
    insert(c, &mut head, "/// Kinds.".into());
  }
  let mut used = vec![];
  let n = 1 + c.below(5);
  let mut vars = vec![];
  for i in 0..n {
    let name = text::name(c, &mut used);
    let d = text::doc(c);
    let docs = text::doc_attrs(c, &d);
    let p = pattern(c, bytes);
    let l = spell(c, &p);
    let k = if i == 0 { c.below(2) } else { c.below(4) };
    let (attrs, fields) = match k {
      0 => (vec![format!("#[regex({l})]")], ["", "()"][c.below(2)]),
      1 if bytes => (vec![format!("#[regex({l}, |b: &[u8]| Some(b.len()))]")], "(usize)"),
      1 => (vec![format!("#[regex({l}{})]", ["", ", |s: &str| Some(s.to_string())", ", |s: &str| s.parse().ok()"][c.below(3)])], "(String)"),
      2 => (vec![format!("#[skip({l})]")], ["", "()"][c.below(2)]),
      _ => (vec![], ["", "()", "(u8)"][c.below(3)]),
    };
    vars.push(Var { docs, attrs, name, fields: fields.into() });
  }
  if c.prob(3, 4) {
    let name = text::name(c, &mut used);
    let i = c.below(vars.len() + 1);
    let fields = ["", "()"][c.below(2)].to_string();
    vars.insert(i, Var { docs: String::new(), attrs: vec!["#[eof]".into()], name, fields });
  }
  Tok { bytes, head, name: "Kind".into(), vis: vis(c), vars }
}

impl Tok {
  fn print(&self, c: &mut Ctx) -> Src {
    let mut o = String::from("use laps::prelude::*;\n");
    if c.bool() {
      o.push_str("#[derive(Debug)]\n");
    }
    o.push_str("#[derive(Tokenize)]\n");
    self.head.iter().for_each(|h| o.push_str(&format!("{h}\n")));
    o.push_str(&format!("{}enum {} {{\n", self.vis, self.name));
    for v in &self.vars {
      o.push_str(&v.docs);
      v.attrs.iter().for_each(|a| o.push_str(&format!("  {a}\n")));
      o.push_str(&format!("  {}{},\n", v.name, v.fields));
    }
    o.push_str("}\n");
    src(o)
  }
  /// The variants with an attribute of this kind.
  fn with(&self, a: &str) -> Vec<usize> {
    (0..self.vars.len()).filter(|i| self.vars[*i].attrs.iter().any(|x| x.starts_with(a))).collect()
  }
}

pub fn tokenize(c: &mut Ctx) -> (Src, Broken) {
  let good = valid_tok(c);
  let mut t = good.clone();
  let ok = good.print(c);
  let regexes = t.with("#[regex");
  let attributed: Vec<usize> = (0..t.vars.len()).filter(|i| !t.vars[*i].attrs.is_empty()).collect();
  let extra = |c: &mut Ctx, t: &mut Tok, attrs: Vec<String>, fields: &str| {
    let i = c.below(t.vars.len() + 1);
    t.vars.insert(i, Var { docs: String::new(), attrs, name: "Added".into(), fields: fields.into() });
  };
  let (what, says): (&'static str, &'static [&'static str]) = match c.below(19) {
    0 => {
      let kw = *c.pick(&["struct", "union"]);
      let mut o = String::from("use laps::prelude::*;\n#[derive(Tokenize)]\n");
      t.head.iter().for_each(|h| o.push_str(&format!("{h}\n")));
      o.push_str(&format!("{}{kw} Kind {{ {} a: u8 }}\n", t.vis, if c.bool() { "#[regex(\"a\")]" } else { "" }));
      return (ok, Broken { what: "Tokenize for a struct or union", says: &["enum"], src: src(o) });
    }
    1 => {
      let ty = *c.pick(&["i8", "u16", "str", "&'static str", "String", "[u8; 2]", "(char, u8)", "u32", "Char", "std::primitive::u8", "&u8", "()"]);
      t.head.retain(|h| !h.starts_with("#[char_type"));
      insert(c, &mut t.head, format!("#[char_type({ty})]"));
      ("another character type", &["char_type"])
    }
    2 => {
      if !t.head.iter().any(|h| h.starts_with("#[char_type")) {
        insert(c, &mut t.head, "#[char_type(char)]".into());
      }
      let ty = *c.pick(&["char", "u8"]);
      insert(c, &mut t.head, format!("#[char_type({ty})]"));
      ("two char_type attributes", &["char_type"])
    }
    3 => {
      if !t.head.iter().any(|h| h.starts_with("#[enable_par")) {
        insert(c, &mut t.head, "#[enable_par(true)]".into());
      }
      let b = c.bool();
      insert(c, &mut t.head, format!("#[enable_par({b})]"));
      ("two enable_par attributes", &["enable_par"])
    }
    4 => {
      if t.with("#[eof").is_empty() {
        extra(c, &mut t, vec!["#[eof]".into()], "");
      }
      let i = c.below(t.vars.len() + 1);
      t.vars.insert(i, Var { docs: String::new(), attrs: vec!["#[eof]".into()], name: "Eof9".into(), fields: String::new() });
      ("two end-of-file variants", &["eof"])
    }
    5 => {
      // a second rule for a variant
      let i = *c.pick(&attributed);
      let p = pattern(c, t.bytes);
      let l = spell(c, &p);
      let a = match c.below(3) {
        0 => format!("#[skip({l})]"),
        1 => "#[eof]".into(),
        _ => format!("#[regex({l})]"),
      };
      let mut attrs = std::mem::take(&mut t.vars[i].attrs);
      insert(c, &mut attrs, a);
      t.vars[i].attrs = attrs;
      ("two rules for a variant", &["regex", "skip", "eof"])
    }
    6 => {
      let p = pattern(c, t.bytes);
      let a = if c.bool() || !t.with("#[eof").is_empty() { format!("#[skip({})]", spell(c, &p)) } else { "#[eof]".into() };
      let f = *c.pick(&["(u8)", "(String)", "(())"]);
      extra(c, &mut t, vec![a], f);
      ("a payload for a skipped or end-of-file variant", &["unit", "field"])
    }
    7 => {
      let p = pattern(c, t.bytes);
      let a = format!("#[regex({}, {})]", spell(c, &p), c.pick(&["|_| Some(())", "parse", "Some"]));
      let f = *c.pick(&["", "()"]);
      extra(c, &mut t, vec![a], f);
      ("a parser for a unit variant", &["parser"])
    }
    8 => {
      if !t.bytes {
        t.bytes = true;
        t.head = vec!["#[char_type(u8)]".into()];
        t.vars.retain(|v| v.fields.len() < 3);
      }
      let p = pattern(c, true);
      let a = format!("#[regex({})]", spell(c, &p));
      let f = *c.pick(&["(u8)", "(String)", "(usize)"]);
      extra(c, &mut t, vec![a], f);
      ("no parser for a payload from bytes", &["parser"])
    }
    9 => {
      let p = pattern(c, t.bytes);
      let l = spell(c, &p);
      let a = match c.below(5) {
        0 => vec![],
        1 => vec![format!("#[skip({l})]")],
        2 if t.with("#[eof").is_empty() => vec!["#[eof]".into()],
        _ => vec![format!("#[regex({l})]")],
      };
      let f = *c.pick(&["(u8, u8)", " { a: u8 }", " {}", "(u8, u8, String)", " { a: u8, b: u8 }"]);
      extra(c, &mut t, a, f);
      ("several or named fields", &["field"])
    }
    10 | 11 => {
      // patterns that do not parse
      let bad = c.pick(&["(a", "a)", "[a", "*", "+a", "a{2", "a{3,2}", "\\q", "[z-a]", "(?P<n", "\\p{Nonsense}", "a**{", "(?<n>a)(?<n>b)", "\\", "x{99999999999}", "(?z)a", "[[:foo:]", "\\x{110000}"]).to_string();
      let i = *c.pick(&regexes);
      let kind = if c.bool() && t.vars[i].fields.len() < 3 { "skip" } else { "regex" };
      let tail = if t.vars[i].fields.len() >= 3 { if t.bytes { ", |b: &[u8]| Some(b.len())" } else { ", |s: &str| s.parse().ok()" } } else { "" };
      let l = spell(c, &bad);
      t.vars[i].attrs = vec![format!("#[{kind}(⟦{l}⟧{tail})]")];
      ("a pattern that does not parse", &["regular expression"])
    }
    12 => {
      // patterns that parse and cannot be compiled
      let bad = if t.bytes { c.pick(&["^a", "a$", "\\bx", "a*?", "(?:ab)+?", "(?-u)[^\\x00-\\xff]", "\\p{Greek}", "a{1,2}?", "é|\\B"]) } else { c.pick(&["^a", "a$", "\\bx", "a*?", "(?:ab)+?", "[^\\s\\S]", "(?-u:\\xff)", "(?-u)[^a]", "a{1,2}?", "a??", "[a&&b]"]) }.to_string();
      let i = *c.pick(&regexes);
      let tail = if t.vars[i].fields.len() >= 3 { if t.bytes { ", |b: &[u8]| Some(b.len())" } else { ", |s: &str| s.parse().ok()" } } else { "" };
      t.vars[i].attrs = vec![format!("#[regex({}{tail})]", spell(c, &bad))];
      ("a pattern that cannot be compiled", &["regular expression"])
    }
    13 => {
      for v in &mut t.vars {
        v.attrs.retain(|a| a.starts_with("#[eof"));
        if v.attrs.is_empty() && c.bool() {
          v.fields = String::new();
        }
      }
      ("no rules", &["regular expression"])
    }
    14 => {
      t.head.retain(|h| !h.starts_with("#[enable_par"));
      let a = *c.pick(&["1", "\"true\"", "", "yes", "true, false", "'t'", "Some(true)"]);
      insert(c, &mut t.head, format!("#[enable_par({a})]"));
      ("enable_par with something else than true or false", &[])
    }
    15 => {
      let a = *c.pick(&["#[regex()]", "#[regex(abc)]", "#[regex('a')]", "#[regex(b\"a\")]", "#[regex(\"a\" \"b\")]", "#[regex(3)]", "#[regex(,)]", "#[regex(r)]"]);
      extra(c, &mut t, vec![a.into()], "");
      ("a rule without a pattern", &[])
    }
    16 => {
      let a = *c.pick(&["#[skip()]", "#[skip(abc)]", "#[skip('a')]", "#[skip(\"a\", f)]", "#[skip(\"a\" | \"b\")]", "#[skip(\"a\",)]"]);
      extra(c, &mut t, vec![a.into()], "");
      ("a skip rule without a single pattern", &[])
    }
    17 => {
      let a = *c.pick(&["#[regex(\"a\", f, g)]", "#[regex(\"a\", )]", "#[regex(\"a\"; f)]", "#[regex(\"a\", let)]", "#[regex(\"a\" f)]"]);
      let f = if t.bytes { "(u8)" } else { "(String)" };
      extra(c, &mut t, vec![a.into()], f);
      ("a rule with something else than one parser", &[])
    }
    _ => {
      t.head.retain(|h| !h.starts_with("#[char_type"));
      let a = *c.pick(&["", "char, u8", "\"char\"", "char u8", "3"]);
      insert(c, &mut t.head, format!("#[char_type({a})]"));
      ("char_type without a single type", &[])
    }
  };
  let s = t.print(c);
  (ok, Broken { what, says, src: s })
}

/// Rules that match nothing but the empty string.
pub fn only_empty(c: &mut Ctx) -> Src {
  let mut t = valid_tok(c);
  for v in &mut t.vars {
    for a in &mut v.attrs {
      if !a.starts_with("#[eof") {
        let p = *c.pick(&["", "a{0}", "()", "(|a{0})", "(?:){3}", "(?:)*"]);
        let kind = if a.starts_with("#[skip") { "skip" } else { "regex" };
        let tail = if v.fields.len() >= 3 { if t.bytes { ", |b: &[u8]| Some(b.len())" } else { "" } } else { "" };
        *a = format!("#[{kind}({}{tail})]", spell(c, p));
      }
    }
  }
  t.print(c)
}

// ------------------------------------------------------------------- Parse

const TOKENS: &str = "use laps::prelude::*;
#[token_kind]
#[derive(Debug)]
pub enum K { A, B, C(i32) }
type Tk = laps::token::Token<K>;
token_ast! {
  #[derive(Debug, PartialEq)]
  pub(crate) macro Token<K> {
    [a] => { kind: K::A },
    [b] => { kind: K::B },
    [c] => { kind: K::C(_), prompt: \"number\" },
  }
}
";

fn ty(c: &mut Ctx) -> String {
  let t = format!("Token![{}]", c.pick(&["a", "b", "c"]));
  match c.below(6) {
    0 => format!("Option<{t}>"),
    1 => format!("Vec<{t}>"),
    2 => format!("laps::ast::NonEmptySeq<{t}>"),
    _ => t,
  }
}

fn field_list(c: &mut Ctx, n: usize, tys: &mut dyn FnMut(&mut Ctx, usize) -> String) -> String {
  if c.bool() {
    let fs: Vec<String> = (0..n).map(|i| { let t = tys(c, i); let (attr, t) = t.rsplit_once('\n').unwrap_or(("", &t)); format!("{attr} f{i}: {t}") }).collect();
    format!(" {{ {} }}", fs.join(", "))
  } else {
    let fs: Vec<String> = (0..n).map(|i| tys(c, i).replace('\n', " ")).collect();
    format!("({})", fs.join(", "))
  }
}

fn semi(f: &str) -> &'static str {
  if f.ends_with(')') || f.is_empty() {
    ";"
  } else {
    ""
  }
}

pub fn parse(c: &mut Ctx) -> (Src, Broken) {
  let v = vis(c);
  let body = if c.bool() {
    let n = 1 + c.below(4);
    let f = field_list(c, n, &mut |c, _| ty(c));
    let s = semi(&f);
    format!("{v}struct Ast{f}{s}\n")
  } else {
    let n = 1 + c.below(4);
    let vs: Vec<String> = (0..n)
      .map(|i| {
        let k = c.below(3);
        let f = if k == 0 { String::new() } else { field_list(c, k, &mut |c, _| ty(c)) };
        format!("  V{i}{f},\n")
      })
      .collect();
    format!("{v}enum Ast {{\n{}}}\n", vs.concat())
  };
  let starts = |c: &mut Ctx| {
    let n = 1 + c.below(3);
    let v: Vec<String> = (0..n).map(|_| format!("Token![{}]", c.pick(&["a", "b", "c"]))).collect();
    format!("#[starts_with({})]", v.join(", "))
  };
  let token = || "#[token(Tk)]".to_string();
  let mut head = vec![token()];
  if c.bool() {
    let s = starts(c);
    insert(c, &mut head, s);
  }
  let print = |head: &[String], body: &str| src(format!("{TOKENS}#[derive(Parse)]\n{}\n{body}", head.join("\n")));
  let ok = print(&head, &body);
  let b = match c.below(6) {
    0 => Broken { what: "Parse for a union", says: &["struct", "enum"], src: print(&head, &format!("{v}union Ast {{ a: u8, b: u8 }}\n")) },
    1 => {
      insert(c, &mut head, token());
      Broken { what: "two token attributes", says: &["token"], src: print(&head, &body) }
    }
    2 => {
      if head.len() == 1 {
        let s = starts(c);
        insert(c, &mut head, s);
      }
      let s = starts(c);
      insert(c, &mut head, s);
      Broken { what: "two starts_with attributes", says: &["starts_with"], src: print(&head, &body) }
    }
    3 => {
      head.retain(|h| !h.starts_with("#[starts_with"));
      insert(c, &mut head, "#[starts_with()]".into());
      Broken { what: "starts_with without tokens", says: &[], src: print(&head, &body) }
    }
    4 => {
      head.retain(|h| !h.starts_with("#[token"));
      let a = *c.pick(&["", "Tk, Tk", "3", "\"Tk\"", "&Tk", "Tk Tk"]);
      insert(c, &mut head, format!("#[token({a})]"));
      Broken { what: "token without a single type", says: &[], src: print(&head, &body) }
    }
    _ => {
      head.retain(|h| !h.starts_with("#[starts_with"));
      let a = *c.pick(&["Token![a] Token![b]", "Token![a];", "Token![a],,", "let x = 3"]);
      insert(c, &mut head, format!("#[starts_with({a})]"));
      Broken { what: "starts_with without a list of tokens", says: &[], src: print(&head, &body) }
    }
  };
  (ok, b)
}

// ----------------------------------------------------------------- Spanned

pub fn spanned(c: &mut Ctx) -> (Src, Broken) {
  const HEAD: &str = "use laps::prelude::*;\nuse laps::span::Span;\npub struct S(Span);\nimpl Spanned for S { fn span(&self) -> Span { self.0.clone() } }\n";
  let v = vis(c);
  // at least one of the fields has a span in any case
  let fields = |c: &mut Ctx, n: usize| {
    let sure = c.below(n);
    field_list(c, n, &mut |c, i| if i != sure && c.bool() { "#[try_span]\nOption<S>".into() } else { "S".to_string() })
  };
  let tried = |c: &mut Ctx, n: usize| field_list(c, n, &mut |c, _| c.pick(&["#[try_span]\nOption<S>", "#[try_span]\nVec<S>", "#[try_span]\nS"]).to_string());
  let twice = |c: &mut Ctx, n: usize| {
    let (sure, i) = (c.below(n), c.below(n));
    field_list(c, n, &mut |c, j| if j == i { "#[try_span] #[try_span]\nOption<S>".to_string() } else if j != sure && c.bool() { "#[try_span]\nOption<S>".into() } else { "S".into() })
  };
  let item = |c: &mut Ctx, is_enum: bool, special: Option<String>| {
    if is_enum {
      let n = 1 + c.below(3);
      let at = c.below(n);
      let vs: Vec<String> = (0..n)
        .map(|i| {
          let k = 1 + c.below(3);
          let f = match &special {
            Some(f) if i == at => f.clone(),
            _ => fields(c, k),
          };
          format!("  V{i}{f},\n")
        })
        .collect();
      format!("{HEAD}#[derive(Spanned)]\n{v}enum Ast {{\n{}}}\n", vs.concat())
    } else {
      let k = 1 + c.below(4);
      let f = special.unwrap_or_else(|| fields(c, k));
      let s = semi(&f);
      format!("{HEAD}#[derive(Spanned)]\n{v}struct Ast{f}{s}\n")
    }
  };
  let is_enum = c.bool();
  let ok = src(item(c, is_enum, None));
  let n = 1 + c.below(4);
  let untried = |c: &mut Ctx, n: usize| {
    let first = c.bool();
    let i = if first { 0 } else { n - 1 };
    field_list(c, n, &mut |c, j| if j == i { "Option<S>".to_string() } else if n > 1 && c.bool() { "#[try_span]\nOption<S>".into() } else { "S".into() })
  };
  let b = match c.below(6) {
    5 => {
      let f = untried(c, n);
      Broken { what: "an optional first or last field without try_span", says: &[], src: src(item(c, is_enum, Some(f))) }
    }
    0 => {
      let f = c.pick(&["", "()", " {}"]).to_string();
      Broken { what: "Spanned without fields", says: &["non-unit", "non-empty"], src: src(item(c, is_enum, Some(f))) }
    }
    1 => {
      let f = tried(c, n);
      Broken { what: "try_span for every field", says: &["try_span"], src: src(item(c, is_enum, Some(f))) }
    }
    2 => {
      let f = twice(c, n);
      Broken { what: "two try_span attributes for a field", says: &["try_span"], src: src(item(c, is_enum, Some(f))) }
    }
    3 => Broken { what: "Spanned for an enum without variants", says: &["non-unit", "non-empty"], src: src(format!("{HEAD}#[derive(Spanned)]\n{v}enum Ast {{}}\n")) },
    _ => Broken { what: "Spanned for a union", says: &["struct", "enum"], src: src(format!("{HEAD}#[derive(Spanned)]\n{v}union Ast {{ a: u8 }}\n")) },
  };
  (ok, b)
}

// -------------------------------------------------------------- token_kind

pub fn token_kind(c: &mut Ctx) -> (Src, Broken) {
  let mut used = vec![];
  let n = 1 + c.below(4);
  let tys = ["String", "i32", "bool", "char"];
  let vs: Vec<String> = (0..n)
    .map(|i| {
      let d = text::doc(c);
      let docs = text::doc_attrs(c, &d);
      let name = text::name(c, &mut used);
      let f = if c.bool() { format!("({})", tys[i]) } else { String::new() };
      format!("{docs}  {name}{f},\n")
    })
    .collect();
  let v = vis(c);
  let item = format!("{v}enum Kind {{\n{}}}\n", vs.concat());
  let ok = src(format!("use laps::prelude::*;\n#[token_kind]\n{item}"));
  let b = if c.bool() {
    let a = *c.pick(&["(x)", "(Debug)", " = \"x\"", "(a, b)", "(derive(Debug))", "(true)"]);
    let a = if a.starts_with(" =") { "(\"x\")" } else { a };
    Broken { what: "token_kind with an argument", says: &["token_kind"], src: src(format!("use laps::prelude::*;\n#[token_kind{a}]\n{item}")) }
  } else {
    let other = c.pick(&["struct Kind { a: u8 }", "struct Kind;", "union Kind { a: u8 }", "fn kind() {}", "trait Kind {}", "type Kind = u8;", "mod kind {}", "const KIND: u8 = 1;", "struct Kind(u8);"]);
    Broken { what: "token_kind for something else than an enum", says: &[], src: src(format!("use laps::prelude::*;\n#[token_kind]\n{v}{other}\n")) }
  };
  (ok, b)
}

// --------------------------------------------------------------- token_ast

#[derive(Clone)]
struct Arm {
  token: String,
  arrow: &'static str,
  kind: &'static str,
  pat: String,
  guard: Option<String>,
  prompt: Option<String>,
  /// Between `kind` and the pattern, before `prompt`, after it, after the arm.
  marks: [&'static str; 4],
}

impl Arm {
  fn print(&self, prompt: &str) -> String {
    let g = self.guard.as_ref().map_or(String::new(), |g| format!(" if {g}"));
    let p = self.prompt.as_ref().map_or(String::new(), |p| format!("{} {prompt}{} {p}", self.marks[1], self.marks[2]));
    format!("    {} {} {{ {}{} {}{g}{p} }}{}\n", self.token, self.arrow, self.kind, self.marks[0], self.pat, self.marks[3])
  }
}

pub fn token_ast(c: &mut Ctx) -> (Src, Broken) {
  const HEAD: &str = "use laps::prelude::*;\n#[token_kind]\n#[derive(Debug)]\npub enum K { A, B, C(i32), D(String) }\n";
  let v = *c.pick(&["", "pub(crate) "]);
  let derive = *c.pick(&["", "  #[derive(Debug, PartialEq)]\n"]);
  let names = ["a", "+", "b2", "==", "number", "fn"];
  let n = 1 + c.below(5);
  let arms: Vec<Arm> = (0..n)
    .map(|i| {
      let p = c.bool();
      let pat = if p { c.pick(&["K::C(_)", "K::C(3)", "K::C(0..=9)", "K::A | K::B", "K::D(_)", "K::C(i)", "_"]) } else { c.pick(&["K::A", "K::B", "K::C(3)"]) }.to_string();
      let guard = (p && c.prob(1, 3)).then(|| if pat == "K::C(i)" { "*i > 3" } else { "1 + 1 == 2" }.to_string());
      let t = text::doc(c).concat();
      let prompt = (p || c.prob(1, 4)).then(|| lit(t.trim()));
      Arm { token: format!("[{}]", names[i]), arrow: "=>", kind: "kind", pat, guard, prompt, marks: [":", ",", ":", ","] }
    })
    .collect();
  let print = |macro_: &str, params: &str, prompt: &str, arms: &[Arm]| {
    let a: String = arms.iter().map(|a| a.print(prompt)).collect();
    src(format!("{HEAD}token_ast! {{\n{derive}  {v}{macro_} Token{params} {{\n{a}  }}\n}}\n"))
  };
  let ok = print("macro", "<K>", "prompt", &arms);
  let mut arms = arms;
  let i = c.below(n);
  let mut says: &'static [&'static str] = &[];
  let (mut m, mut params, mut prompt) = ("macro", "<K>", "prompt");
  let what = match c.below(12) {
    10 | 11 => {
      let k = c.below(if i + 1 < n { 4 } else { 3 });
      if k == 1 || k == 2 {
        arms[i].prompt.get_or_insert("\"x\"".into());
      }
      arms[i].marks[k] = *c.pick(if k == 3 { &["", ";"] } else { &["", "", ";", "=", "=>"] });
      "another mark, or none, where one is needed"
    }
    0 => {
      arms[i] = Arm { pat: c.pick(&["K::A", "K::C(3)", "_", "K::A | K::B"]).to_string(), guard: Some(c.pick(&["true", "1 + 1 == 2"]).to_string()), prompt: None, ..arms[i].clone() };
      says = &["prompt"];
      "a guard without a prompt"
    }
    1 => {
      params = *c.pick(&["<K, K>", "<K, K, K>", "<'a>", "<'static, K>", "<3>"]);
      says = &["type parameter"];
      "another number of type parameters than one"
    }
    2 => {
      params = *c.pick(&["", "<>", "(K)", "{K}"]);
      "no type parameter"
    }
    3 => {
      arms[i].kind = *c.pick(&["king", "pat", "Kind", "prompt", "kinds"]);
      says = &["kind"];
      "another word than kind"
    }
    4 => {
      arms[i].prompt.get_or_insert("\"x\"".into());
      // every prompt of the definition is spelled so
      prompt = *c.pick(&["promt", "message", "Prompt", "prompts", "kind"]);
      says = &["prompt"];
      "another word than prompt"
    }
    5 => {
      let bare = arms[i].token.trim_matches(['[', ']']).to_string();
      arms[i].token = c.pick(&["", "(@)", "{@}", "@"]).replace('@', &bare);
      "an arm without brackets"
    }
    6 => {
      arms[i].arrow = *c.pick(&["->", "=", "", ":", "=>>"]);
      "an arm without an arrow"
    }
    7 => {
      arms[i].prompt = Some(c.pick(&["3", "x", "'x'", "", "\"a\" \"b\"", "concat!(\"a\")", "b\"a\"", "\"a\", \"b\"", "\"a\", prompt: \"b\""]).to_string());
      "a prompt that is not one string"
    }
    8 => {
      m = *c.pick(&["", "macro_rules", "enum", "struct", "Macro", "macro macro"]);
      "something else than a macro"
    }
    _ => {
      arms[i].pat = c.pick(&["", "K::A K::B", "=> 3", "K::C(1 +)", "if true", "fn"]).to_string();
      arms[i].guard = None;
      "a kind that is not a pattern"
    }
  };
  let s = print(m, params, prompt, &arms);
  (ok, Broken { what, says, src: s })
}
