//! C11, C12 and C13: derived lexers against longest-match simulation.

use crate::streams::{Chunk, Item, Source, UserStream};
use crate::text::{self, lit};
use laps::input::InputStream;
use laps::lexer::{Lexer, Tokenize};
use laps::reader::{ByteReader, Reader};
use laps::span::FileType;
use laps::token::Tokenizer;
use pbt::{fail, Ctx, R};
use refre::sets::{pattern_set, wide_set};
use refre::{Dfa, Mode, Re, Sym};
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};

#[derive(Clone, Debug, PartialEq)]
pub enum Pay {
  W(u8),
  Str,
  Char,
  U8,
  I32,
  U16,
  Bool,
  /// The inside of a string literal.
  Inner,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rule {
  Regex(String),
  Skip(String),
  Eof,
  None,
}

#[derive(Clone, Debug)]
pub struct Var {
  pub name: String,
  pub doc: Vec<String>,
  pub rule: Rule,
  pub pay: Option<Pay>,
}

pub struct Def {
  pub bytes: bool,
  pub vars: Vec<Var>,
  pub source: String,
  /// States of the minimal automaton, where it was computed.
  pub states: usize,
  pub syms: Vec<Sym>,
}

impl Def {
  pub fn mode(&self) -> Mode {
    if self.bytes {
      Mode::Bytes
    } else {
      Mode::Chars
    }
  }
  fn res(&self) -> Vec<(Re, usize)> {
    self
      .vars
      .iter()
      .enumerate()
      .filter_map(|(i, v)| match &v.rule {
        Rule::Regex(p) | Rule::Skip(p) => Some((re(p, self.mode()).expect("checked when generated"), i)),
        _ => None,
      })
      .collect()
  }
}

fn re(p: &str, mode: Mode) -> Option<Re> {
  Re::from_hir(&refre::parse(p, mode == Mode::Chars).ok()?, mode).ok()
}

/// The pattern, changed so that it does not match the empty string.
fn non_null(c: &mut Ctx, p: String, mode: Mode) -> Option<String> {
  let r = re(&p, mode)?;
  if Dfa::new(&[(r, 0)]).tag(refre::START).is_none() {
    return Some(p);
  }
  Some(match c.below(3) {
    0 => format!("(?:{p})x"),
    1 => format!("=(?:{p})"),
    _ => format!("[a-c](?:{p})"),
  })
}

/// The patterns of a definition that is not about size.
fn some_patterns(c: &mut Ctx, mode: Mode) -> Vec<String> {
  for _ in 0..40 {
    let mut ps = if c.prob(1, 10) { wide_set(c, mode) } else { pattern_set(c, mode, 6) };
    if c.prob(1, 3) {
      ps.push(match mode {
        Mode::Chars => c.pick(&[".", "(?s:.)", "\\s+", "[ \\n]", "[^a-z]"]).to_string(),
        Mode::Bytes => c.pick(&["(?s-u:.)", "[ \\n]+", "(?-u:[\\x80-\\xff])"]).to_string(),
      });
    }
    let ps: Option<Vec<String>> = ps.into_iter().map(|p| non_null(c, p, mode)).collect();
    let Some(ps) = ps else { continue };
    let Some(res) = ps.iter().enumerate().map(|(i, p)| Some((re(p, mode)?, i))).collect::<Option<Vec<_>>>() else { continue };
    let mut d = Dfa::new(&res);
    if d.nfa.positions() > 120 || !d.nfa.quick_to_divide() {
      continue;
    }
    let syms = refre::test_symbols(&d.nfa.cuts(refre::max_sym(mode), []), mode);
    // tables are compiled element by element
    let Some(n) = d.explore(&syms, 200) else { continue };
    if n * syms.len() > 30_000 {
      continue;
    }
    return ps;
  }
  vec!["a+".into(), " ".into()]
}

/// Patterns whose automaton has exactly (or nearly) the given number of
/// states.
fn sized_patterns(c: &mut Ctx, mode: Mode, states: usize) -> Vec<String> {
  let k = states.saturating_sub(1).max(1);
  match c.below(5) {
    _ if states < 6 => match states {
      0..=2 => vec![c.pick(&["a", "[a-c]", "x", "é|[0-9]"]).to_string()]
        .into_iter()
        .filter(|p| re(p, mode).is_some_and(|r| r.positions() == 1) || mode == Mode::Chars)
        .chain(if mode == Mode::Bytes { Some("b".into()) } else { None })
        .take(1)
        .collect(),
      _ => vec![format!("a{{{k}}}")],
    },
    // init, k states
    0 => vec![format!("a{{{k}}}")],
    // a loop at the end
    1 => vec![format!("a{{{}}}b*", k), "c".into()].into_iter().take(1).collect(),
    // two letters in turn
    2 => {
      let w = if k % 2 == 0 { format!("(?:ab){{{}}}", k / 2) } else { format!("(?:ab){{{}}}a", k / 2) };
      vec![w]
    }
    // every prefix is a token as well
    3 => {
      let mut v = vec![format!("[ab]{{{k}}}")];
      if c.bool() {
        v.push("a".into());
      }
      v
    }
    // a small set, filled up by a chain over a new letter with its own tag
    _ => {
      for _ in 0..20 {
        let ps = some_patterns(c, mode);
        let res: Vec<(Re, usize)> = ps.iter().enumerate().map(|(i, p)| (re(p, mode).unwrap(), i)).collect();
        let mut d = Dfa::new(&res);
        let fresh = match mode {
          Mode::Chars => '\u{3042}' as Sym,
          Mode::Bytes => 0x01,
        };
        let syms = refre::test_symbols(&d.nfa.cuts(refre::max_sym(mode), [fresh]), mode);
        if syms.len() > 24 || d.step(refre::START, fresh).is_some() {
          continue;
        }
        if d.explore(&syms, 150).is_none() {
          continue;
        }
        let n = d.minimal_states(&syms);
        if n + 1 >= states {
          continue;
        }
        let mut ps = ps;
        let ch = if mode == Mode::Chars { "\u{3042}" } else { "\\x01" };
        ps.push(format!("{ch}{{{}}}", states - n));
        return ps;
      }
      vec![format!("a{{{k}}}")]
    }
  }
}

/// Which of the parser forms can be used where.
struct Parsers {
  locals: String,
}

const LOCAL: &[&str] = &["parse_it", "table", "is_final", "is_accept", "token_result", "equiv_id", "next_token_impl", "buf", "span", "state"];

fn parser(c: &mut Ctx, pay: &Pay, bytes: bool, i: usize, ps: &mut Parsers) -> Option<String> {
  if !bytes {
    match pay {
      Pay::W(n) => match c.below(10) {
        0 | 1 => None,
        2 => Some(format!("h_gen::rt::cw::<{n}>")),
        3 => Some(format!("|s: &str| h_gen::rt::cw::<{n}>(s)")),
        4 => Some(format!("|s: &str| -> Option<h_gen::rt::W<{n}>> {{ let t = s; h_gen::rt::cw(t) }}")),
        5 => {
          let f = LOCAL[c.below(7)];
          let f = if ps.locals.contains(&format!("fn {f}(")) { format!("{f}{i}") } else { f.to_string() };
          ps.locals.push_str(&format!("fn {f}(s: &str) -> Option<h_gen::rt::W<{n}>> {{ s.parse().ok() }}\n"));
          Some(f)
        }
        6 => Some(format!("h_gen::rt::W::<{n}>::from_text")),
        7 => Some(format!("h_gen::rt::mk::<{n}>()")),
        8 => Some(format!("{{ fn inner(s: &str) -> Option<h_gen::rt::W<{n}>> {{ s.parse().ok() }} inner }}")),
        _ => Some(format!("|buf: &str| buf.parse::<h_gen::rt::W<{n}>>().ok()")),
      },
      Pay::U16 => Some(c.pick(&["laps::lexer::int_literal", "laps::lexer::int_literal::<u16>", "|s: &str| laps::lexer::int_literal(s)"]).to_string()),
      Pay::Inner => Some("laps::lexer::str_literal".into()),
      Pay::Str => match c.below(3) {
        0 => Some("|s: &str| Some(s.to_string())".into()),
        _ => None,
      },
      _ => None,
    }
  } else {
    Some(match pay {
      Pay::W(n) => match c.below(4) {
        0 => format!("h_gen::rt::bw::<{n}>"),
        1 => format!("|b: &[u8]| h_gen::rt::bw::<{n}>(b)"),
        2 => {
          let f = LOCAL[c.below(7)];
          let f = if ps.locals.contains(&format!("fn {f}(")) { format!("{f}{i}") } else { f.to_string() };
          ps.locals.push_str(&format!("fn {f}(s: &[u8]) -> Option<h_gen::rt::W<{n}>> {{ h_gen::rt::bw(s) }}\n"));
          f
        }
        _ => format!("|bytes: &[u8]| -> Option<h_gen::rt::W<{n}>> {{ h_gen::rt::bw(bytes) }}"),
      },
      Pay::Str => "|b: &[u8]| String::from_utf8(b.to_vec()).ok()".into(),
      Pay::U8 => "|b: &[u8]| b.first().copied()".into(),
      _ => unreachable!(),
    })
  }
}

const ENUMS: &[&str] = &["TokenKind", "Kind", "Token", "K", "Span", "Result", "LexerResult", "TokenResult", "T", "InputStream", "I", "E"];

/// Parameters of the enum, all of them with defaults (or lifetimes).
struct Generic {
  params: String,
  clause: String,
  /// The type of the payload that is meant.
  ty: String,
  constant: bool,
}

impl Generic {
  fn new(c: &mut Ctx, n: u8, bytes: bool) -> Self {
    let tr = if bytes { "h_gen::rt::FromBytes" } else { "std::str::FromStr" };
    let w = format!("h_gen::rt::W<{n}>");
    let name = *c.pick(&["P", "U", "Q", "__T"]);
    let (params, clause, ty, constant) = match c.below(7) {
      0 => (format!("<const N: u8 = {n}>"), "".into(), "h_gen::rt::W<N>".into(), true),
      1 => (format!("<const N: u8 = {n}>"), " where h_gen::rt::W<N>: Sized".into(), "h_gen::rt::W<N>".into(), true),
      2 => (format!("<{name}: {tr} = {w}>"), "".into(), name.into(), false),
      3 => (format!("<{name} = {w}>"), format!(" where {name}: {tr}"), name.into(), false),
      4 => (format!("<'a, {name}: {tr} + 'a = {w}>"), "".into(), format!("h_gen::rt::L<'a, {name}>"), false),
      5 => (format!("<'a, const N: u8 = {n}>"), "".into(), "h_gen::rt::L<'a, h_gen::rt::W<N>>".into(), true),
      _ => (format!("<{name}: Clone = {w}>"), format!(" where {name}: {tr},"), name.into(), false),
    };
    Generic { params, clause, ty, constant }
  }

  fn parser(&self, c: &mut Ctx, bytes: bool) -> Option<String> {
    let ty = &self.ty;
    let w = self.constant && !ty.contains('\'');
    Some(if bytes {
      match c.below(4) {
        0 if w => "h_gen::rt::bw::<N>".into(),
        1 => format!("|b: &[u8]| <{ty} as h_gen::rt::FromBytes>::take(b)"),
        2 => format!("<{ty} as h_gen::rt::FromBytes>::take"),
        _ => "h_gen::rt::FromBytes::take".into(),
      }
    } else {
      match c.below(7) {
        0 if w => "h_gen::rt::cw::<N>".into(),
        1 if w => "h_gen::rt::mk::<N>()".into(),
        2 => format!("|s: &str| s.parse::<{ty}>().ok()"),
        3 => format!("|s: &str| -> Option<{ty}> {{ s.parse().ok() }}"),
        _ => return None,
      }
    })
  }
}

/// Spells a definition.
fn emit(c: &mut Ctx, bytes: bool, par: Option<bool>, vars: &[Var], own: bool) -> String {
  let mut ps = Parsers { locals: String::new() };
  // names that the generated code may use itself are fine, too
  let ename = if own { ENUMS[c.weighted(&[8, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1])] } else { "TokenKind" };
  let token_kind = c.bool();
  let mut body = String::new();
  // parameters: of the payloads `W<n>` with one `n`
  let generic = match vars.iter().find_map(|v| match v.pay {
    Some(Pay::W(n)) => Some(n),
    _ => None,
  }) {
    Some(n) if !token_kind && c.bool() => Some((n, Generic::new(c, n, bytes))),
    _ => None,
  };
  for (i, v) in vars.iter().enumerate() {
    let docs = text::doc_attrs(c, &v.doc);
    let pat = |c: &mut Ctx, p: &str| if c.bool() { text::raw_lit(p) } else { lit(p) };
    let mut ty = None;
    let attr = match &v.rule {
      Rule::Regex(p) => {
        let l = pat(c, p);
        let parser = match (&generic, &v.pay) {
          (Some((n, g)), Some(Pay::W(m))) if n == m => {
            ty = Some(g.ty.clone());
            g.parser(c, bytes)
          }
          (_, Some(pay)) => parser(c, pay, bytes, i, &mut ps),
          _ => None,
        };
        match parser {
          Some(e) => format!("  #[regex({l}, {e})]\n"),
          None => format!("  #[regex({l})]\n"),
        }
      }
      Rule::Skip(p) => format!("  #[skip({})]\n", pat(c, p)),
      Rule::Eof => "  #[eof]\n".into(),
      Rule::None => String::new(),
    };
    if c.prob(1, 4) {
      body.push_str(&attr);
      body.push_str(&docs);
    } else {
      body.push_str(&docs);
      body.push_str(&attr);
    }
    if c.prob(1, 10) {
      body.push_str("  #[allow(dead_code)]\n");
    }
    match &v.pay {
      Some(p) => {
        let ty = match p {
          Pay::W(_) if ty.is_some() => ty.unwrap(),
          Pay::W(n) => format!("h_gen::rt::W<{n}>"),
          Pay::Str | Pay::Inner => "String".into(),
          Pay::Char => "char".into(),
          Pay::U8 => "u8".into(),
          Pay::I32 => "i32".into(),
          Pay::U16 => "u16".into(),
          Pay::Bool => "bool".into(),
        };
        body.push_str(&format!("  {}({ty}),\n", v.name));
      }
      None => body.push_str(&format!("  {}{},\n", v.name, if unit_parens(v, i) { "()" } else { "" })),
    }
  }
  // values of the variants: they name no token and change nothing
  let valued = vars.len() < 30 && c.prob(1, 8);
  if valued {
    let step = c.range(1, 7);
    let names: Vec<String> = vars.iter().map(|v| v.name.clone()).collect();
    let mut at = 0;
    let mut out = String::new();
    for l in body.lines() {
      let t = l.trim();
      if at < names.len() && !t.starts_with('#') && t.ends_with(',') && t.starts_with(&names[at]) {
        out.push_str(&format!("  {} = {},\n", t.trim_end_matches(','), (names.len() - at) * step as usize));
        at += 1;
      } else {
        out.push_str(l);
        out.push('\n');
      }
    }
    if at == names.len() {
      body = out;
    }
  }
  let vis = *c.pick(&["pub ", "pub ", "pub(crate) ", ""]);
  let mut o = String::from("#![allow(unused, non_camel_case_types, non_upper_case_globals)]\nuse laps::prelude::*;\n");
  o.push_str(&ps.locals);
  if valued {
    o.push_str("#[repr(u8)]\n");
  }
  let head = [
    if bytes || c.prob(1, 4) { format!("#[char_type({})]\n", if bytes { "u8" } else { "char" }) } else { String::new() },
    match par {
      Some(p) => format!("#[enable_par({p})]\n"),
      None => String::new(),
    },
  ];
  if token_kind {
    o.push_str("#[token_kind]\n");
  }
  let rev = c.bool();
  if rev {
    o.push_str("#[derive(Tokenize)]\n");
  }
  // helper attributes come after the derive
  let helpers = if c.bool() { format!("{}{}", head[0], head[1]) } else { format!("{}{}", head[1], head[0]) };
  if !rev {
    o.push_str("#[derive(Tokenize)]\n");
  }
  o.push_str(&helpers);
  let (params, clause) = match &generic {
    Some((_, g)) => (g.params.as_str(), g.clause.as_str()),
    None => ("", ""),
  };
  o.push_str(&format!("{vis}enum {ename}{params}{clause} {{\n{body}}}\n\n"));
  o.push_str("// driver\n");
  o.push_str(&format!("fn show(k: &{ename}) -> (usize, Option<String>) {{\n  match k {{\n"));
  for (i, v) in vars.iter().enumerate() {
    match &v.pay {
      Some(_) => o.push_str(&format!("    {ename}::{}(v) => ({i}, Some(v.to_string())),\n", v.name)),
      None => o.push_str(&format!("    {ename}::{} {{ .. }} => ({i}, None),\n", v.name)),
    }
  }
  o.push_str("  }\n}\n");
  o.push_str(&format!(
    "pub fn entry() -> h_gen::Entry {{\n  h_gen::Entry::Lex(h_gen::lex::{}::<{ename}>(show))\n}}\n",
    if bytes { "bytes_entry" } else { "chars_entry" }
  ));
  o
}

fn unit_parens(v: &Var, i: usize) -> bool {
  (v.name.len() + i) % 3 == 0
}

fn finish(c: &mut Ctx, bytes: bool, par: Option<bool>, vars: Vec<Var>, own: bool) -> Def {
  let source = emit(c, bytes, par, &vars, own);
  let mut d = Def { bytes, vars, source, states: 0, syms: vec![] };
  let dfa = Dfa::new(&d.res());
  d.syms = refre::test_symbols(&dfa.nfa.cuts(refre::max_sym(d.mode()), []), d.mode());
  d
}

/// Variants around the given patterns.
fn variants(c: &mut Ctx, pats: Vec<String>, bytes: bool) -> Vec<Var> {
  let mut used = vec![];
  let mut vars = vec![];
  let mut free: Vec<Pay> = if bytes { vec![Pay::Str, Pay::U8] } else { vec![Pay::Str, Pay::Char, Pay::U8, Pay::I32, Pay::Bool] };
  let mut w = 0;
  let mut skips = 0;
  let n = pats.len();
  for p in pats {
    let rule = if n > 1 && skips < 2 && c.prob(1, 5) {
      skips += 1;
      Rule::Skip(p)
    } else {
      Rule::Regex(p)
    };
    let pay = if matches!(rule, Rule::Regex(_)) && c.prob(1, 2) {
      if !free.is_empty() && c.prob(1, 3) {
        let k = c.below(free.len());
        Some(free.remove(k))
      } else {
        w += 1;
        Some(Pay::W(w))
      }
    } else {
      None
    };
    vars.push(Var { name: text::name(c, &mut used), doc: text::doc(c), rule, pay });
  }
  if !bytes && c.prob(1, 4) {
    vars.push(Var { name: text::name(c, &mut used), doc: text::doc(c), rule: Rule::Regex("[0-9]+".into()), pay: Some(Pay::U16) });
  }
  if !bytes && c.prob(1, 6) && !vars.iter().any(|v| v.pay == Some(Pay::Str)) {
    vars.push(Var { name: text::name(c, &mut used), doc: text::doc(c), rule: Rule::Regex("\"[a-c !]*\"".into()), pay: Some(Pay::Inner) });
  }
  for (p, rule) in [(5, Rule::Eof), (1, Rule::None)] {
    if c.prob(p, 6) {
      let i = c.below(vars.len() + 1);
      vars.insert(i, Var { name: text::name(c, &mut used), doc: text::doc(c), rule, pay: None });
    }
  }
  vars
}

/// A definition for C11 and C12.
pub fn general(c: &mut Ctx) -> Def {
  let bytes = c.prob(1, 3);
  let mode = if bytes { Mode::Bytes } else { Mode::Chars };
  let pats = some_patterns(c, mode);
  let par = *c.pick(&[None, None, Some(true), Some(false)]);
  let vars = variants(c, pats, bytes);
  finish(c, bytes, par, vars, true)
}

const SIZES: &[usize] = &[2, 3, 126, 127, 128, 129, 254, 255, 256, 257, 258, 300, 400, 510, 511, 512, 513, 600];

/// Definitions for C13: sizes near the limits of the table element types,
/// many classes, every setting.
pub fn sized(c: &mut Ctx, k: usize) -> Vec<Def> {
  let bytes = (k + c.below(2)) % 2 == 0;
  let mode = if bytes { Mode::Bytes } else { Mode::Chars };
  let (pats, states) = if k % 3 == 2 {
    let pats: Vec<String> = wide_set(c, mode).into_iter().take(1).collect();
    (pats, 0)
  } else {
    let t = if c.prob(1, 3) { *c.pick(&[255, 256, 257]) } else { *c.pick(SIZES) };
    (sized_patterns(c, mode, t), t)
  };
  let plain = c.prob(1, 2);
  let vars = if plain {
    let mut used = vec![];
    let mut v: Vec<Var> = pats
      .into_iter()
      .map(|p| Var { name: text::name(c, &mut used), doc: vec![], rule: Rule::Regex(p), pay: None })
      .collect();
    if c.prob(4, 5) {
      v.push(Var { name: "Eof".into(), doc: vec![], rule: Rule::Eof, pay: None });
    }
    v
  } else {
    let mut v = variants(c, pats, bytes);
    // keep the size: no further rules
    v.retain(|v| !matches!(v.pay, Some(Pay::U16 | Pay::Inner)));
    v
  };
  let ascii = vars.iter().all(|v| match &v.rule {
    Rule::Regex(p) | Rule::Skip(p) => p.is_ascii() && re(p, Mode::Bytes).is_some() && re(p, Mode::Chars).is_some() && !p.contains("-u"),
    _ => true,
  });
  let pars = match c.below(3) {
    0 => vec![None, Some(true), Some(false)],
    1 => vec![Some(c.bool())],
    _ => vec![None],
  };
  let mut v = vec![];
  for par in pars {
    v.push((bytes, par));
  }
  if ascii && vars.iter().all(|v| v.pay.is_none()) {
    v.push((!bytes, None));
  }
  v.into_iter()
    .map(|(b, par)| {
      let mut d = finish(c, b, par, vars.clone(), false);
      d.states = states;
      d
    })
    .collect()
}

// ==============================
// Running lexers.
// ==============================

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
  /// One token: from the lexer, from its input without it, or from a new
  /// lexer over the same input.
  Next,
  Direct,
  Anew,
  /// Look at the next character of the input.
  Peek,
  /// Read one character from the input behind the lexer's back.
  Char,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
  Tok { var: usize, pay: Option<String>, span: [u32; 4] },
  Err(String),
  Fatal(String),
  Char(Option<Sym>),
}

#[derive(Clone, Debug)]
pub struct Step {
  pub out: Out,
  /// Start and end of the input's span afterwards.
  pub pos: [u32; 4],
}

pub struct Case {
  pub input: Vec<Sym>,
  pub ops: Vec<Op>,
  /// 0: a reader over a buffer, 1: a reader with short reads, 2: a stream
  /// written by a user.
  pub source: u8,
  pub sizes: Vec<usize>,
  /// Where the source fails, and how: not at all, once, or for ever by bytes
  /// that are not UTF-8.
  pub fail: Option<(usize, bool)>,
}

pub type Entry = Box<dyn Fn(&Case) -> Vec<Step> + Send + Sync>;

fn quad(s: &laps::span::Span) -> [u32; 4] {
  [s.start().line, s.start().col, s.end().line, s.end().col]
}

fn err(e: &laps::span::Error) -> Out {
  match e {
    laps::span::Error::Normal(s) => Out::Err(s.clone()),
    laps::span::Error::Fatal(s) => Out::Fatal(s.clone()),
  }
}

fn drive<I, K, C>(input: I, ops: &[Op], show: fn(&K) -> (usize, Option<String>), to: fn(C) -> Sym) -> Vec<Step>
where
  I: InputStream<CharType = C>,
  C: Clone,
  K: Tokenize<CharType = C>,
{
  let mut l: Option<Lexer<I, K>> = Some(K::lexer(input));
  ops
    .iter()
    .map(|op| {
      let token = match op {
        Op::Next => l.as_mut().unwrap().next_token(),
        Op::Direct => K::next_token(l.as_mut().unwrap().input_mut()),
        Op::Anew => {
          l = Some(K::lexer(l.take().unwrap().into_input()));
          l.as_mut().unwrap().next_token()
        }
        Op::Peek | Op::Char => {
          let input = l.as_mut().unwrap().input_mut();
          let out = match op {
            Op::Peek => input.peek(),
            _ => input.next_char(),
          };
          let out = match out {
            Ok(c) => Out::Char(c.map(to)),
            Err(e) => err(&e),
          };
          return Step { out, pos: quad(l.as_ref().unwrap().input().span()) };
        }
      };
      let out = match token {
        Ok(t) => {
          let (var, pay) = show(&t.kind);
          Out::Tok { var, pay, span: quad(&t.span) }
        }
        Err(e) => err(&e),
      };
      Step { out, pos: quad(l.as_ref().unwrap().input().span()) }
    })
    .collect()
}

/// The source's reads, failing at the given byte.
fn script(bytes: &[u8], sizes: &[usize], fail: Option<(usize, bool)>) -> Source {
  let mut v = VecDeque::new();
  let (mut i, mut k) = (0, 0);
  loop {
    let mut end = bytes.len();
    match fail {
      Some((at, bad)) if at == i => v.push_back(if bad { Chunk::Bytes(vec![0xff]) } else { Chunk::Error(7) }),
      Some((at, _)) if at > i => end = at,
      _ => {}
    }
    if i >= bytes.len() {
      break;
    }
    let n = sizes[k % sizes.len()].min(end - i);
    v.push_back(Chunk::Bytes(bytes[i..i + n].to_vec()));
    i += n;
    k += 1;
  }
  Source { script: v, past_end: 0 }
}

fn items<C>(it: impl Iterator<Item = C>, fail: Option<(usize, bool)>) -> VecDeque<Item<C>> {
  let mut v: VecDeque<Item<C>> = it.map(Item::Ch).collect();
  if let Some((at, _)) = fail {
    v.insert(at, Item::Err(0));
  }
  v
}

pub fn chars_entry<K>(show: fn(&K) -> (usize, Option<String>)) -> Entry
where
  K: Tokenize<CharType = char> + 'static,
{
  Box::new(move |case| {
    let chars: Vec<char> = case.input.iter().map(|s| char::from_u32(*s).expect("a character")).collect();
    let text: String = chars.iter().collect();
    let to = |c: char| c as Sym;
    match case.source {
      0 => drive::<_, K, char>(Reader::from(text.as_str()), &case.ops, show, to),
      1 => {
        let fail = case.fail.map(|(i, bad)| (chars[..i].iter().map(|c| c.len_utf8()).sum(), bad));
        drive::<_, K, char>(Reader::new(script(text.as_bytes(), &case.sizes, fail), FileType::Buffer), &case.ops, show, to)
      }
      _ => drive::<_, K, char>(UserStream::new(items(chars.into_iter(), case.fail)), &case.ops, show, to),
    }
  })
}

pub fn bytes_entry<K>(show: fn(&K) -> (usize, Option<String>)) -> Entry
where
  K: Tokenize<CharType = u8> + 'static,
{
  Box::new(move |case| {
    let bytes: Vec<u8> = case.input.iter().map(|s| *s as u8).collect();
    let to = |c: u8| c as Sym;
    match case.source {
      0 => drive::<_, K, u8>(ByteReader::from(bytes.as_slice()), &case.ops, show, to),
      1 => drive::<_, K, u8>(ByteReader::new(script(&bytes, &case.sizes, case.fail), FileType::Buffer), &case.ops, show, to),
      _ => drive::<_, K, u8>(UserStream::new(items(bytes.into_iter(), case.fail)), &case.ops, show, to),
    }
  })
}

// ==============================
// The reference.
// ==============================

/// The payload of a token with this text; `Err`: it does not parse.
fn payload(pay: &Pay, text: &[Sym], bytes: bool) -> Result<String, ()> {
  if bytes {
    let b: Vec<u8> = text.iter().map(|s| *s as u8).collect();
    return match pay {
      Pay::W(n) => crate::rt::wok(*n, text).then(|| b.escape_ascii().to_string()).ok_or(()),
      Pay::Str => String::from_utf8(b).map_err(|_| ()),
      Pay::U8 => Ok(b[0].to_string()),
      _ => unreachable!(),
    };
  }
  let s: String = text.iter().map(|s| char::from_u32(*s).unwrap()).collect();
  // integers are digits only, perhaps signed
  let int = |lo: i128, hi: i128| -> Result<String, ()> {
    let (neg, d) = match s.as_bytes().first() {
      Some(b'-') => (true, &s[1..]),
      Some(b'+') => (false, &s[1..]),
      _ => (false, &s[..]),
    };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) || (neg && lo == 0) {
      return Err(());
    }
    let mut v: i128 = 0;
    for b in d.bytes() {
      v = (v * 10 + (b - b'0') as i128).min(1 << 100);
    }
    let v = if neg { -v } else { v };
    if v < lo || v > hi {
      return Err(());
    }
    Ok(v.to_string())
  };
  match pay {
    Pay::W(n) => crate::rt::wok(*n, text).then_some(s).ok_or(()),
    Pay::Str => Ok(s),
    Pay::Char => (text.len() == 1).then_some(s).ok_or(()),
    Pay::U8 => int(0, 255),
    Pay::I32 => int(i32::MIN as i128, i32::MAX as i128),
    // only digits get here
    Pay::U16 => int(0, 65535),
    Pay::Bool => (s == "true" || s == "false").then_some(s).ok_or(()),
    Pay::Inner => Ok(s[1..s.len() - 1].to_string()),
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Loc(u32, u32);

fn step(l: Loc, s: Sym) -> Loc {
  if s == '\n' as Sym {
    Loc(l.0 + 1, 0)
  } else {
    Loc(l.0, l.1 + 1)
  }
}

#[derive(Clone, Debug)]
enum Want {
  Tok { var: usize, pay: Option<String>, from: usize, to: usize },
  Eof { var: usize },
  /// Message, and the text it is about.
  Err { msg: String, from: usize, to: usize },
  /// The source failed here.
  Fatal,
  /// Characters, read or looked at.
  Char(Option<Sym>),
}

struct Model<'a> {
  def: &'a Def,
  dfa: &'a mut Dfa<usize>,
  input: &'a [Sym],
  pos: usize,
  /// Where the last token started.
  from: usize,
  fail: Option<usize>,
}

impl Model<'_> {
  fn next(&mut self) -> Want {
    loop {
      let from = self.pos;
      self.from = from;
      let mut id = refre::START;
      loop {
        if self.fail == Some(self.pos) {
          return Want::Fatal;
        }
        if self.pos == self.input.len() {
          break;
        }
        match self.dfa.step(id, self.input[self.pos]) {
          Some(i) => id = i,
          None => break,
        }
        self.pos += 1;
      }
      let to = self.pos;
      let at_end = to == self.input.len();
      if from == to && at_end {
        return match self.def.vars.iter().position(|v| v.rule == Rule::Eof) {
          Some(var) => Want::Eof { var },
          None => Want::Err { msg: "unexpected end-of-file".into(), from, to },
        };
      }
      let Some(&var) = self.dfa.tag(id).filter(|_| to > from) else {
        let msg = if at_end { "unexpected end-of-file" } else { "unrecognized token" };
        return Want::Err { msg: msg.into(), from, to };
      };
      let v = &self.def.vars[var];
      if matches!(v.rule, Rule::Skip(_)) {
        continue;
      }
      return match v.pay.as_ref().map(|p| payload(p, &self.input[from..to], self.def.bytes)).transpose() {
        Ok(pay) => Want::Tok { var, pay, from, to },
        Err(()) => Want::Err { msg: format!("invalid {}", text::prompt(&v.doc, &v.name)), from, to },
      };
    }
  }
}

thread_local! {
  static DFAS: RefCell<HashMap<usize, Dfa<usize>>> = RefCell::new(HashMap::new());
}

/// An input near token sequences.
fn gen_input(c: &mut Ctx, def: &Def, dfa: &mut Dfa<usize>) -> Vec<Sym> {
  let syms = &def.syms;
  let mut v: Vec<Sym> = vec![];
  let max = if def.states > 100 { def.states + 100 } else { 60 };
  let long = def.states > 60 && c.prob(1, 2);
  while c.more(v.len(), 0, max, 5) {
    // a segment that follows one token
    let mut id = refre::START;
    let stop = if long { 400 } else { *c.pick(&[2, 3, 8]) };
    let from = v.len();
    // now and then the very length of a long token is missed by one
    let cut = if long && c.prob(1, 3) { from + def.states.saturating_sub(c.below(5)) } else { usize::MAX };
    let favour = c.below(syms.len());
    loop {
      if v.len() >= cut || v.len() > max * 2 {
        break;
      }
      let start = if long && !c.prob(1, 40) { favour } else { c.below(syms.len()) };
      let next = (0..syms.len()).map(|k| syms[(start + k) % syms.len()]).find_map(|s| dfa.step(id, s).map(|i| (s, i)));
      match next {
        Some((s, i)) => {
          v.push(s);
          id = i;
        }
        None => break,
      }
      if dfa.tag(id).is_some() && c.prob(1, 3) || c.prob(1, stop * 10) {
        break;
      }
    }
    match c.below(8) {
      0 => v.push(*c.pick(syms)),
      1 => v.push(if c.bool() { '\n' as Sym } else { ' ' as Sym }),
      2 if !def.bytes => v.push(*c.pick(&['x' as Sym, 'é' as Sym, '0' as Sym, '\t' as Sym, '你' as Sym, 0x1f600, '-' as Sym, '9' as Sym])),
      _ => {}
    }
  }
  v
}

/// What a check compares.
#[derive(Clone, Copy, PartialEq)]
pub enum Aspect {
  Tokens,
  Spans,
  Both,
}

pub fn check(c: &mut Ctx, index: usize, def: &Def, entry: &Entry, aspect: Aspect) -> R {
  let mut dfa = DFAS
    .with(|d| d.borrow_mut().remove(&index))
    .unwrap_or_else(|| Dfa::new(&def.res()));
  let r = check_with(c, index, def, entry, aspect, &mut dfa);
  DFAS.with(|d| d.borrow_mut().insert(index, dfa));
  r
}

fn check_with(c: &mut Ctx, index: usize, def: &Def, entry: &Entry, aspect: Aspect, dfa: &mut Dfa<usize>) -> R {
  let input = gen_input(c, def, dfa);
  let source = c.below(3) as u8;
  let sizes = if source == 1 { c.vec(1, 4, 2, |c| 1 + c.below(5)) } else { vec![1] };
  // locations after each prefix
  let mut locs = vec![Loc(1, 0)];
  for s in &input {
    locs.push(step(*locs.last().unwrap(), *s));
  }
  // where the source fails
  let fail = (source > 0 && c.prob(1, 6)).then(|| (c.below(input.len() + 1), source == 1 && !def.bytes && c.bool()));
  c.note(|| format!("input {}, source {source} {sizes:?}, failing {fail:?}", refre::show(def.mode(), &input)));
  c.key(&(index, &input, source, fail));
  // what has to happen
  let mut m = Model { def, dfa, input: &input, pos: 0, from: 0, fail: fail.map(|f| f.0) };
  let mut ops = vec![];
  let mut wants: Vec<(Want, Option<usize>)> = vec![];
  let (mut tokens, mut errors, mut ends, mut stuck) = (0, 0, 0, 0);
  while ops.len() < 4 * input.len() + 12 && ends < 3 {
    let before = m.pos;
    if (stuck > 0 && c.prob(3, 4) || c.prob(1, 20)) && m.fail != Some(m.pos) {
      let w = Want::Char(input.get(m.pos).copied());
      if stuck == 0 && c.bool() {
        ops.push(Op::Peek);
      } else {
        stuck = 0;
        ops.push(Op::Char);
        if m.pos < input.len() {
          m.pos += 1;
        }
      }
      wants.push((w, Some(m.pos)));
      continue;
    }
    ops.push([Op::Next, Op::Direct, Op::Anew][c.weighted(&[8, 1, 1])]);
    let w = m.next();
    match &w {
      // what was read of a token is not to be had again
      Want::Fatal => {
        c.label("the source fails");
        let again = m.from == m.pos && !fail.unwrap().1;
        wants.push((w, again.then_some(m.pos)));
        if !again {
          break;
        }
        m.fail = None;
        continue;
      }
      Want::Char(_) => unreachable!(),
      Want::Eof { .. } => ends += 1,
      Want::Err { msg, from, to } => {
        errors += 1;
        c.label(if msg.starts_with("inv") {
          "invalid payload"
        } else if msg.starts_with("unrec") {
          "unrecognized token"
        } else {
          "unexpected end of file"
        });
        if from == to {
          stuck += 1;
          if *from == input.len() {
            ends += 1;
          }
        }
      }
      Want::Tok { .. } => tokens += 1,
    }
    if stuck > 2 {
      ends = 3;
    }
    c.label_if(matches!(w, Want::Tok { from, .. } if from > before), "text skipped before a token");
    wants.push((w, Some(m.pos)));
  }
  c.nontrivial_if(tokens > 1 || (errors > 0 && tokens > 0));
  c.label_if(def.states > 100 && m.pos > 100, "more than 100 states");
  c.label_if((255..=257).contains(&def.states), "255 to 257 states");
  c.label(if def.bytes { "bytes" } else { "characters" });
  let case = Case { input: input.clone(), ops, source, sizes, fail };
  let steps = entry(&case);
  for (i, (step, (want, pos))) in steps.iter().zip(&wants).enumerate() {
    c.checks += 1;
    let show = || format!("operation {i} ({:?}): got {step:?}, expected {want:?} and position {pos:?}", case.ops[i]);
    let text = |from: usize, to: usize| -> [u32; 4] {
      // the location of a character is the one reached by reading it
      let (a, b) = (locs[(from + 1).min(locs.len() - 1)], locs[to.max(from + 1).min(locs.len() - 1)]);
      [a.0, a.1, b.0, b.1]
    };
    let tok = aspect != Aspect::Spans;
    let spans = aspect != Aspect::Tokens;
    match (want, &step.out) {
      (Want::Char(w), Out::Char(s)) => {
        if w != s {
          fail!("{}: the character is not the next one", show());
        }
      }
      (Want::Fatal, Out::Fatal(m)) => {
        let want = match (source, fail) {
          (1, Some((_, true))) => "invalid UTF-8 character",
          (1, _) => "scripted failure 7",
          _ => "scripted",
        };
        if tok && m != want {
          fail!("{}: the error is not {want:?}", show());
        }
      }
      (Want::Tok { var, pay, from, to }, Out::Tok { var: v, pay: p, span }) => {
        if tok && (var != v || pay != p) {
          fail!("{}: wrong token", show());
        }
        if spans && *span != text(*from, *to) {
          fail!("{}: the span is not {:?}", show(), text(*from, *to));
        }
      }
      (Want::Eof { var }, Out::Tok { var: v, span, .. }) => {
        if tok && var != v {
          fail!("{}: wrong token at the end", show());
        }
        let e = locs[input.len()];
        if spans && *span != [e.0, e.1, e.0, e.1] {
          fail!("{}: the end-of-file token is not at the end", show());
        }
      }
      (Want::Err { msg, from, to }, Out::Err(text_)) => {
        if tok && !text_.ends_with(&format!(": {msg}")) {
          fail!("{}: wrong message", show());
        }
        let t = text(*from, *to);
        if spans && !text_.ends_with(&format!(":{}:{}: {msg}", t[0], t[1])) {
          fail!("{}: wrong location or message", show());
        }
      }
      _ => fail!("{}", show()),
    }
    let Some(pos) = pos else { continue };
    let p = locs[*pos];
    if spans && step.pos[..2] != [p.0, p.1] {
      fail!("{}: the input is not at {p:?}", show());
    }
  }
  if steps.len() != wants.len() {
    fail!("{} operations did not all run", steps.len());
  }
  Ok(())
}
