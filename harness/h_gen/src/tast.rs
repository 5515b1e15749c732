//! C22: token ASTs.

use crate::text::{self, lit, raw_lit};
use laps::parse::Parse;
use laps::span::{FileType, Location, Result, Span, Spanned};
use laps::token::{Token, TokenBuffer, TokenStream, Tokenizer};
use pbt::{ensure_eq, fail, Ctx, R};
use std::collections::VecDeque;
use std::fmt::Display;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A token kind, independently of how it is spelled.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
  Ident(String),
  Int(i64),
  Other(char),
  Flag(bool),
  Pair(u8, u8),
  Named(i32),
  Unit,
  Void,
  Eof,
}
pub const SLOTS: usize = 9;

fn slot(v: &Val) -> usize {
  match v {
    Val::Ident(_) => 0,
    Val::Int(_) => 1,
    Val::Other(_) => 2,
    Val::Flag(_) => 3,
    Val::Pair(..) => 4,
    Val::Named(_) => 5,
    Val::Unit => 6,
    Val::Void => 7,
    Val::Eof => 8,
  }
}

/// The fields as numbers.
fn fields(v: &Val) -> Vec<i64> {
  match v {
    Val::Int(i) => vec![*i],
    Val::Other(c) => vec![*c as i64],
    Val::Flag(b) => vec![*b as i64],
    Val::Pair(a, b) => vec![*a as i64, *b as i64],
    Val::Named(a) => vec![*a as i64],
    _ => vec![],
  }
}

#[derive(Clone, Debug)]
enum Fp {
  Any,
  Lit(i64),
  /// Inclusive.
  Range(i64, i64),
  From(i64),
  Or(Vec<Fp>),
  Bind(String),
}

impl Fp {
  fn has(&self, v: i64) -> bool {
    match self {
      Fp::Any | Fp::Bind(_) => true,
      Fp::Lit(l) => v == *l,
      Fp::Range(a, b) => *a <= v && v <= *b,
      Fp::From(a) => v >= *a,
      Fp::Or(ps) => ps.iter().any(|p| p.has(v)),
    }
  }
}

#[derive(Clone, Debug)]
enum Pat {
  Any,
  Var(usize, Vec<Fp>),
  Or(Vec<Pat>),
}

impl Pat {
  fn has(&self, v: &Val) -> bool {
    match self {
      Pat::Any => true,
      Pat::Var(s, ps) => *s == slot(v) && (*s == 0 || ps.is_empty() || ps.iter().zip(fields(v)).all(|(p, f)| p.has(f))),
      Pat::Or(ps) => ps.iter().any(|p| p.has(v)),
    }
  }
}

#[derive(Clone, Debug)]
enum Guard {
  /// The first field.
  Mod(i64, i64),
  Gt(i64),
  /// The text.
  Len(usize),
  Is(&'static str),
  Not(&'static str),
}

impl Guard {
  fn has(&self, v: &Val) -> bool {
    let f = fields(v).first().copied().unwrap_or(0);
    let s = if let Val::Ident(s) = v { s.as_str() } else { "" };
    match self {
      Guard::Mod(n, r) => f.rem_euclid(*n) == *r,
      Guard::Gt(n) => f > *n,
      Guard::Len(n) => s.len() > *n,
      Guard::Is(t) => s == *t,
      Guard::Not(t) => s != *t,
    }
  }
}

struct Arm {
  pat: Pat,
  guard: Option<Guard>,
  /// What is expected, for messages.
  expected: String,
  /// The token in the brackets.
  name: &'static str,
}

impl Arm {
  fn has(&self, v: &Val) -> bool {
    self.pat.has(v) && self.guard.as_ref().map_or(true, |g| g.has(v))
  }
}

pub struct Def {
  names: Vec<String>,
  docs: Vec<Vec<String>>,
  arms: Vec<Arm>,
  pub source: String,
}

impl Def {
  fn display(&self, v: &Val) -> String {
    let s = slot(v);
    let p = text::prompt(&self.docs[s], &self.names[s]);
    match v {
      Val::Ident(s) => format!("{p} `{s}`"),
      Val::Int(i) => format!("{p} `{i}`"),
      Val::Other(c) => format!("{p} `{c}`"),
      Val::Flag(b) => format!("{p} `{b}`"),
      _ => p,
    }
  }
}

// ==============================
// Generation.
// ==============================

const NAMES: &[&str] = &[
  "str", "+", "-", "->", "0", "..=", "<<=", "==", "&&", "if", "\"x\"", "'c'", "a b", "int", "eof", "?", "#", "::", ",", ";", "()", "{}", "[]", "_", "'a", "!", "|",
  "1.5", "+ +", "r#fn", "=>", "fn", "self", "Self", "$", "%", "b\"q\"", "@",
];
const CHARS: &[char] = &['a', 'b', 'z', '+', '-', '*', '/', '0', '9', ' ', '\'', '"', '\\', '{', '}', '\n', 'é', '你', '\u{1f600}', '`'];
const WORDS: &[&str] = &["", "a", "if", "else", "é", "abc", "x y", "{}", "`"];

fn char_lit(c: char) -> String {
  match c {
    '\'' => "'\\''".into(),
    '\\' => "'\\\\'".into(),
    '\n' => "'\\n'".into(),
    c => format!("'{c}'"),
  }
}

fn fp(c: &mut Ctx, s: usize, plain: bool) -> Fp {
  let v = |c: &mut Ctx| match s {
    1 => *c.pick(&[0i64, 1, 2, 3, 5, 7, 10, -1, -5, i64::MAX, i64::MIN]),
    2 => *c.pick(CHARS) as i64,
    3 => c.below(2) as i64,
    4 => *c.pick(&[0, 1, 2, 3, 254, 255]),
    _ => *c.pick(&[0, 1, -1, 5, -7, i32::MAX as i64, i32::MIN as i64]),
  };
  let k = if plain { 0 } else { c.below(6) };
  match k {
    0 | 1 => Fp::Lit(v(c)),
    2 if s != 3 => {
      let (a, b) = (v(c), v(c));
      Fp::Range(a.min(b), a.max(b))
    }
    3 if s != 3 => Fp::From(v(c)),
    4 => {
      let n = 2 + c.below(2);
      Fp::Or((0..n).map(|_| if s != 3 && c.prob(1, 4) { let (a, b) = (v(c), v(c)); Fp::Range(a.min(b), a.max(b)) } else { Fp::Lit(v(c)) }).collect())
    }
    _ => Fp::Any,
  }
}

fn arity(s: usize) -> usize {
  [1, 1, 1, 1, 2, 1, 0, 0, 0][s]
}

fn var_pat(c: &mut Ctx, s: usize, plain: bool) -> Pat {
  if s == 0 || (!plain && c.prob(1, 5)) {
    return Pat::Var(s, vec![]);
  }
  Pat::Var(s, (0..arity(s)).map(|_| fp(c, s, plain)).collect())
}

fn spell_fp(f: &Fp, s: usize) -> String {
  let l = |v: i64| match s {
    2 => char_lit(char::from_u32(v as u32).unwrap()),
    3 => (v == 1).to_string(),
    _ => v.to_string(),
  };
  match f {
    Fp::Any => "_".into(),
    Fp::Lit(v) => l(*v),
    Fp::Range(a, b) => format!("{}..={}", l(*a), l(*b)),
    Fp::From(a) => format!("{}..", l(*a)),
    Fp::Or(ps) => ps.iter().map(|p| spell_fp(p, s)).collect::<Vec<_>>().join(" | "),
    Fp::Bind(n) => n.clone(),
  }
}

fn spell(c: &mut Ctx, p: &Pat, ename: &str, names: &[String]) -> String {
  match p {
    Pat::Any => "_".into(),
    Pat::Var(s, fs) => {
      let n = format!("{ename}::{}", names[*s]);
      match s {
        6 | 8 => n,
        7 => format!("{n}()"),
        _ if fs.is_empty() => match (s, c.below(3)) {
          (5, _) | (_, 0) => format!("{n} {{ .. }}"),
          (4, 1) => format!("{n}(_, _)"),
          (4, _) => format!("{n}(..)"),
          (_, 1) => format!("{n}(_)"),
          _ => format!("{n}(..)"),
        },
        5 => format!("{n} {{ a: {} }}", spell_fp(&fs[0], 5)),
        _ => format!("{n}({})", fs.iter().map(|f| spell_fp(f, *s)).collect::<Vec<_>>().join(", ")),
      }
    }
    Pat::Or(ps) => {
      let v: Vec<String> = ps.iter().map(|p| spell(c, p, ename, names)).collect();
      let v = v.join(" | ");
      match c.below(4) {
        0 => format!("({v})"),
        1 => format!("| {v}"),
        _ => v,
      }
    }
  }
}

const ENUMS: &[&str] = &["TokenKind", "Kind", "K", "T", "E", "TS", "Token", "Result", "Span", "Parse", "TokenStream", "TA", "F"];
const MACROS: &[&str] = &["Token", "Tok", "T", "tok", "TokenKind", "ast", "Parse", "K", "E"];
const BINDS: &[&str] = &["i", "x", "token", "tokens", "kind", "e", "value", "_y", "r#type"];
const PROMPTS: &[&str] = &[
  "something", "a {} b", "{", "}", "{0}", "{{}}", "{token}", "%d", "a \"quoted\" thing", "back\\slash", "", " ", "é你", "`x`", "a, b or c", "line\nbreak", "{name:?}", "'", "expected",
];

pub fn gen(c: &mut Ctx, _k: usize) -> Def {
  let mut used: Vec<String> = vec![];
  let names: Vec<String> = (0..SLOTS).map(|_| text::name(c, &mut used)).collect();
  let docs: Vec<Vec<String>> = (0..SLOTS).map(|_| text::doc(c)).collect();
  let ename = if c.prob(1, 2) { "TokenKind" } else { *c.pick(ENUMS) };
  let mname = loop {
    let m = if c.prob(1, 3) { "Token" } else { *c.pick(MACROS) };
    if m != ename {
      break m;
    }
  };
  let mut mname = mname.to_string();
  let n = 3 + c.below(8);
  let mut free: Vec<&'static str> = NAMES.to_vec();
  let mut arms = vec![];
  let mut spelled = vec![];
  for _ in 0..n {
    let i = c.below(free.len());
    let name = free.remove(i);
    let (pat, guard, prompt, src, expected);
    match c.weighted(&[6, 6, 4, 2, 1]) {
      // the token itself is expected
      0 => {
        let s = 1 + c.below(SLOTS - 1);
        let p = var_pat(c, s, true);
        let v = value_of(&p);
        src = spell(c, &p, ename, &names);
        pat = p;
        guard = None;
        prompt = None;
        expected = Err(v);
      }
      1 => {
        let s = c.below(SLOTS);
        let p = var_pat(c, s, false);
        src = spell(c, &p, ename, &names);
        pat = p;
        guard = None;
        prompt = Some(());
        expected = Ok(());
      }
      // a guard over a bound field
      2 => {
        let b = c.pick(BINDS).to_string();
        let s = c.below(3);
        let g = match s {
          0 => match c.below(3) {
            0 => Guard::Len(c.below(3)),
            1 => Guard::Is(*c.pick(WORDS)),
            _ => Guard::Not(*c.pick(WORDS)),
          },
          _ => {
            if c.bool() {
              Guard::Mod(2 + c.below(2) as i64, c.below(2) as i64)
            } else {
              Guard::Gt(*c.pick(&[0, 1, 5, 97, -3]))
            }
          }
        };
        let sub = if s > 0 && c.prob(1, 3) { Some(fp(c, s, false)) } else { None };
        let num = format!("(*{b} as i64)");
        let cond = match &g {
          Guard::Mod(n, r) => format!("{num}.rem_euclid({n}) == {r}"),
          Guard::Gt(n) => format!("{num} > {n}"),
          Guard::Len(n) => format!("{b}.len() > {n}"),
          Guard::Is(t) => format!("{b} == {}", lit(t)),
          Guard::Not(t) => format!("{{ let t: &str = {b}; t != {} }}", lit(t)),
        };
        // the guard is any expression
        let cond = match c.below(16) {
          0 => format!("matches!({cond}, true)"),
          1 => format!("({cond})"),
          2 => format!("!({{ !({cond}) }})"),
          3 => format!("{{ {cond} }}"),
          4 => format!("if {{ {cond} }} {{ true }} else {{ false }}"),
          5 => format!("match {{ {cond} }} {{ true => true, false => false }}"),
          6 => format!("(|| {cond})()"),
          7 => format!("bool::from({{ {cond} }})"),
          8 => format!("[{{ {cond} }}][0]"),
          9 => format!("({{ {cond} }} as u8) != 0"),
          10 => format!("true && {{ {cond} }} || false"),
          11 => format!("format!(\"{{}}\", {{ {cond} }}) == \"true\""),
          _ => cond,
        };
        let field = match &sub {
          Some(f) => format!("{b} @ ({})", spell_fp(f, s)),
          None => b.clone(),
        };
        src = format!("{ename}::{}({field}) if {cond}", names[s]);
        pat = Pat::Var(s, vec![sub.unwrap_or(Fp::Bind(b))]);
        guard = Some(g);
        prompt = Some(());
        expected = Ok(());
      }
      3 => {
        let n = 2 + c.below(2);
        let ps: Vec<Pat> = (0..n)
          .map(|_| {
            let s = c.below(SLOTS);
            var_pat(c, s, false)
          })
          .collect();
        let p = Pat::Or(ps);
        src = spell(c, &p, ename, &names);
        pat = p;
        guard = None;
        prompt = Some(());
        expected = Ok(());
      }
      _ => {
        src = if c.bool() { "_".into() } else { "anything".into() };
        pat = Pat::Any;
        guard = None;
        prompt = Some(());
        expected = Ok(());
      }
    }
    let p = if prompt.is_some() {
      if c.prob(1, 3) { c.vec(0, 8, 4, |c| *c.pick(CHARS)).into_iter().collect() } else { c.pick(PROMPTS).to_string() }
    } else {
      String::new()
    };
    let mut a = format!("    [{name}] => {{ kind: {src}");
    if prompt.is_some() {
      a.push_str(&format!(", prompt: {}{}", if c.bool() { lit(&p) } else { raw_lit(&p) }, if c.prob(1, 4) { "," } else { "" }));
    }
    a.push_str(" }");
    spelled.push(a);
    arms.push((Arm { pat, guard, expected: p, name }, expected));
  }
  let mut d = Def { names, docs, arms: vec![], source: String::new() };
  for (mut a, e) in arms {
    if let Err(v) = e {
      a.expected = d.display(&v);
    }
    d.arms.push(a);
  }
  // the definition
  let (vis, prefix) = match c.below(8) {
    0 | 1 => ("", ""),
    2 => ("", "self::"),
    3 => ("pub(crate) ", "crate::@MOD@::"),
    4 => ("pub(super) ", "crate::@MOD@::"),
    5 => ("pub(self) ", ""),
    6 => ("pub(in crate::@MOD@) ", "crate::@MOD@::"),
    _ => ("pub ", "crate::@MOD@::"),
  };
  if vis == "pub " {
    mname = format!("{mname}_@MOD@");
  }
  let mut o = String::from("#![allow(warnings)]\n");
  o.push_str(match c.below(2) {
    // the prelude has names that the kind may have, too
    0 if !["Token", "Result", "Span", "Parse", "TokenStream"].contains(&ename) && !["Token", "Parse"].contains(&mname.as_str()) => "use laps::prelude::*;\n",
    _ => "use laps::token::{token_ast, token_kind};\n",
  });
  o.push_str("#[token_kind]\n#[derive(Debug)]\npub enum ");
  o.push_str(&format!("{ename} {{\n"));
  for (i, t) in ["(String)", "(i64)", "(char)", "(bool)", "(u8, u8)", " { a: i32 }", "", "()", ""].iter().enumerate() {
    o.push_str(&text::doc_attrs(c, &d.docs[i]));
    o.push_str(&format!("  {}{t},\n", d.names[i]));
  }
  o.push_str("}\n\ntoken_ast! {\n");
  let derives = c.below(4);
  let docs = c.bool();
  if docs {
    o.push_str("  /// Refers to tokens.\n");
  }
  match derives {
    0 => {}
    1 => o.push_str("  #[derive(Debug, PartialEq)]\n"),
    2 => o.push_str("  #[derive(Debug)]\n  #[derive(Clone, PartialEq)]\n"),
    _ => o.push_str("  #[derive(Clone)]\n"),
  }
  o.push_str(&format!("  {vis}macro {prefix}{mname}<{ename}> {{\n{}{}\n  }}\n}}\n\n// driver\n", spelled.join(",\n"), if c.bool() { "," } else { "" }));
  // types are used from another module where the path permits it
  let inner = prefix.starts_with("crate");
  if inner {
    o.push_str("pub mod user {\n");
  }
  for (i, a) in d.arms.iter().enumerate() {
    o.push_str(&format!("  pub(super) type A{i} = {mname}![{}];\n", a.name).replace("pub(super) ", if inner { "pub(super) " } else { "" }));
  }
  if inner {
    o.push_str("}\nuse user::*;\n");
  }
  let (e, n) = (ename, &d.names);
  o.push_str("use h_gen::tast::Val;\n");
  o.push_str(&format!(
    "fn make(v: &Val) -> {e} {{\n  match v {{\n    Val::Ident(s) => {e}::{}(s.clone()), Val::Int(i) => {e}::{}(*i), Val::Other(c) => {e}::{}(*c), Val::Flag(b) => {e}::{}(*b),\n    Val::Pair(a, b) => {e}::{}(*a, *b), Val::Named(a) => {e}::{} {{ a: *a }}, Val::Unit => {e}::{}, Val::Void => {e}::{}(), Val::Eof => {e}::{},\n  }}\n}}\n",
    n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], n[8]
  ));
  o.push_str("pub fn entry() -> h_gen::Entry {\n  h_gen::Entry::Tast(vec![\n");
  for i in 0..d.arms.len() {
    o.push_str(&format!(
      "    h_gen::tast::arm::<{e}, A{i}>(make, |t| &t.0, |t, s| match s {{ 0 => Val::Ident(t.unwrap::<String, _>()), 1 => Val::Int(t.unwrap::<i64, _>()), 2 => Val::Other(t.unwrap::<char, _>()), _ => Val::Flag(t.unwrap::<bool, _>()) }}, |t, s| match s {{ 0 => Val::Ident(t.unwrap_ref::<&String, _>().clone()), 1 => Val::Int(*t.unwrap_ref::<&i64, _>()), 2 => Val::Other(*t.unwrap_ref::<&char, _>()), _ => Val::Flag(*t.unwrap_ref::<&bool, _>()) }}, {}),\n",
      if derives == 3 { "None" } else { "Some(|a, b| a == b)" }
    ));
  }
  o.push_str("  ])\n}\n");
  d.source = o;
  d
}

/// The only value that a plain pattern matches.
fn value_of(p: &Pat) -> Val {
  let Pat::Var(s, fs) = p else { unreachable!() };
  let l = |i: usize| match fs[i] {
    Fp::Lit(v) => v,
    _ => unreachable!(),
  };
  match s {
    1 => Val::Int(l(0)),
    2 => Val::Other(char::from_u32(l(0) as u32).unwrap()),
    3 => Val::Flag(l(0) == 1),
    4 => Val::Pair(l(0) as u8, l(1) as u8),
    5 => Val::Named(l(0) as i32),
    6 => Val::Unit,
    7 => Val::Void,
    _ => Val::Eof,
  }
}

// ==============================
// Running.
// ==============================

type Quad = [u32; 4];

struct Script<K> {
  items: VecDeque<(Val, Quad)>,
  make: fn(&Val) -> K,
  span: Span,
}

fn quad(s: &Span) -> Quad {
  [s.start().line, s.start().col, s.end().line, s.end().col]
}

impl<K> Tokenizer for Script<K> {
  type Token = Token<K>;
  fn next_token(&mut self) -> Result<Token<K>> {
    let (v, q) = self.items.pop_front().unwrap_or((Val::Eof, [90, 1, 90, 1]));
    let mut e = self.span.clone();
    e.update_loc(Location { line: q[2], col: q[3] });
    let mut s = self.span.clone();
    s.update_loc(Location { line: q[0], col: q[1] });
    s.update_end(&e);
    Ok(Token { kind: (self.make)(&v), span: s })
  }
}

struct User<K> {
  inner: Script<K>,
  back: Vec<Token<K>>,
}
impl<K> Tokenizer for User<K> {
  type Token = Token<K>;
  fn next_token(&mut self) -> Result<Token<K>> {
    match self.back.pop() {
      Some(t) => Ok(t),
      None => self.inner.next_token(),
    }
  }
}
impl<K> TokenStream for User<K> {
  fn unread(&mut self, t: Token<K>) {
    self.back.push(t)
  }
}

/// What happened with an arm and a token.
pub struct Outcome {
  maybe: [std::result::Result<bool, String>; 2],
  parsed: std::result::Result<Parsed, String>,
}
struct Parsed {
  held: Val,
  held_span: Quad,
  span: Quad,
  by_ref: Option<Val>,
  owned: Option<Val>,
  /// Equality with the AST of the same token elsewhere.
  same: Option<bool>,
  next: Vec<(Val, Quad)>,
}

pub struct ArmEntry {
  /// Asks and parses, with the tokens in this order.
  run: Box<dyn Fn(&[(Val, Quad)], bool, usize, &[Val]) -> Outcome + Send + Sync>,
}
pub type Entry = Vec<ArmEntry>;

fn err_text(e: laps::span::Error) -> String {
  match e {
    laps::span::Error::Normal(s) | laps::span::Error::Fatal(s) => s,
  }
}

/// Identifies a kind among the candidates.
fn find<K: PartialEq>(k: &K, make: fn(&Val) -> K, vals: &[Val]) -> Val {
  vals.iter().find(|v| make(v) == *k).cloned().unwrap_or(Val::Eof)
}

pub fn arm<K, A>(make: fn(&Val) -> K, held: fn(&A) -> &Token<K>, owned: fn(A, usize) -> Val, by_ref: fn(&A, usize) -> Val, eq: Option<fn(&A, &A) -> bool>) -> ArmEntry
where
  K: Clone + PartialEq + Display + 'static,
  A: Parse<TokenBuffer<Script2<K>, Token<K>>> + Parse<User2<K>> + Spanned + 'static,
{
  ArmEntry {
    run: Box::new(move |items, user, unwrap, vals| {
      let script = || Script2(Script { items: items.iter().cloned().collect(), make, span: Span::new(FileType::Buffer) });
      if user {
        let mut s = User2(User { inner: script().0, back: vec![] });
        let mut t = User2(User { inner: script().0, back: vec![] });
        go::<K, A, _>(&mut s, &mut t, make, held, owned, by_ref, eq, unwrap, vals)
      } else {
        let mut s = TokenBuffer::new(script());
        let mut t = TokenBuffer::new(script());
        go::<K, A, _>(&mut s, &mut t, make, held, owned, by_ref, eq, unwrap, vals)
      }
    }),
  }
}

/// Public names of the streams.
pub struct Script2<K>(Script<K>);
impl<K> Tokenizer for Script2<K> {
  type Token = Token<K>;
  fn next_token(&mut self) -> Result<Token<K>> {
    self.0.next_token()
  }
}
pub struct User2<K>(User<K>);
impl<K> Tokenizer for User2<K> {
  type Token = Token<K>;
  fn next_token(&mut self) -> Result<Token<K>> {
    self.0.next_token()
  }
}
impl<K> TokenStream for User2<K> {
  fn unread(&mut self, t: Token<K>) {
    self.0.unread(t)
  }
}

#[allow(clippy::too_many_arguments)]
fn go<K, A, S>(
  s: &mut S, other: &mut S, make: fn(&Val) -> K, held: fn(&A) -> &Token<K>, owned: fn(A, usize) -> Val, by_ref: fn(&A, usize) -> Val, eq: Option<fn(&A, &A) -> bool>, unwrap: usize, vals: &[Val],
) -> Outcome
where
  K: Clone + PartialEq + 'static,
  A: Parse<S> + Spanned,
  S: TokenStream<Token = Token<K>>,
{
  let maybe = [A::maybe(s).map_err(err_text), A::maybe(s).map_err(err_text)];
  let parsed = match A::parse(s) {
    Err(e) => Err(err_text(e)),
    Ok(a) => {
      let h = held(&a);
      let (hv, hs) = (find(&h.kind, make, vals), quad(&h.span));
      let span = quad(&a.span());
      let r = catch_unwind(AssertUnwindSafe(|| by_ref(&a, unwrap))).ok();
      let same = eq.and_then(|f| A::parse(other).ok().map(|b| f(&a, &b) && f(&b, &a)));
      let o = catch_unwind(AssertUnwindSafe(|| owned(a, unwrap))).ok();
      let mut next = vec![];
      for _ in 0..2 {
        if let Ok(t) = s.next_token() {
          next.push((find(&t.kind, make, vals), quad(&t.span)));
        }
      }
      Ok(Parsed { held: hv, held_span: hs, span, by_ref: r, owned: o, same, next })
    }
  };
  Outcome { maybe, parsed }
}

fn some_val(c: &mut Ctx) -> Val {
  match c.below(SLOTS) {
    0 => Val::Unit,
    1 => Val::Ident(c.pick(WORDS).to_string()),
    2 => Val::Int(*c.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, -1, -2, -5, -6, i64::MAX, i64::MIN])),
    3 => Val::Other(*c.pick(CHARS)),
    4 => Val::Flag(c.bool()),
    5 => Val::Pair(*c.pick(&[0, 1, 2, 3, 4, 253, 254, 255]), *c.pick(&[0, 1, 2, 3, 4, 253, 254, 255])),
    6 => Val::Named(*c.pick(&[0, 1, 2, -1, -2, 5, 6, -7, i32::MAX, i32::MIN])),
    7 => Val::Void,
    _ => Val::Eof,
  }
}

fn near(c: &mut Ctx, p: &Pat) -> Val {
  match p {
    Pat::Any => some_val(c),
    Pat::Or(ps) => {
      let p = c.pick(ps);
      near(c, p)
    }
    Pat::Var(s, fs) => {
      let mut v = some_val(c);
      for _ in 0..30 {
        if slot(&v) == *s {
          break;
        }
        v = some_val(c);
      }
      // a literal or the ends of a range, or next to them
      let mut f = |i: usize| -> Option<i64> {
        let mut p = fs.get(i)?;
        if let Fp::Or(ps) = p {
          p = c.pick(ps);
        }
        let b = match p {
          Fp::Lit(a) | Fp::From(a) => *a,
          Fp::Range(a, b) => {
            if c.bool() {
              *a
            } else {
              *b
            }
          }
          _ => return None,
        };
        Some(match c.below(6) {
          0 => b.saturating_add(1),
          1 => b.saturating_sub(1),
          _ => b,
        })
      };
      match (&v, f(0), f(1)) {
        (Val::Int(_), Some(a), _) => v = Val::Int(a),
        (Val::Other(_), Some(a), _) => v = Val::Other(char::from_u32(a.max(0) as u32).unwrap_or('a')),
        (Val::Flag(_), Some(a), _) => v = Val::Flag(a == 1),
        (Val::Pair(x, y), a, b) => v = Val::Pair(a.map_or(*x, |a| a.clamp(0, 255) as u8), b.map_or(*y, |b| b.clamp(0, 255) as u8)),
        (Val::Named(_), Some(a), _) => v = Val::Named(a.clamp(i32::MIN as i64, i32::MAX as i64) as i32),
        _ => {}
      }
      v
    }
  }
}

pub fn check(c: &mut Ctx, def: &Def, e: &Entry) -> R {
  let count = 2 + c.below(3);
  let mut seen = [false; 2];
  let mut key = vec![];
  for _ in 0..count {
    let i = c.below(def.arms.len());
    let a = &def.arms[i];
    let n = 1 + c.below(3);
    let items: Vec<(Val, Quad)> = (0..n)
      .map(|k| {
        let v = if k == 0 && c.prob(3, 4) { near(c, &a.pat) } else { some_val(c) };
        let l = 1 + c.below(30) as u32;
        (v, [l, 1 + c.below(40) as u32, l + c.below(2) as u32, 1 + c.below(40) as u32])
      })
      .collect();
    let (user, unwrap) = (c.bool(), c.below(4));
    c.note(|| format!("arm [{}] over {items:?} ({}), unwrapping payload type {unwrap}", a.name, if user { "user stream" } else { "TokenBuffer" }));
    key.push((i, format!("{items:?}")));
    let mut vals: Vec<Val> = items.iter().map(|i| i.0.clone()).collect();
    vals.push(Val::Eof);
    let o = (e[i].run)(&items, user, unwrap, &vals);
    let (v, q) = &items[0];
    let want = a.has(v);
    seen[want as usize] = true;
    c.checks += 1;
    for m in &o.maybe {
      ensure_eq!(*m, Ok(want), "may [{}] start with {v:?}", a.name);
    }
    match o.parsed {
      Ok(p) => {
        if !want {
          fail!("[{}] was parsed from {v:?}, which its pattern does not match", a.name);
        }
        ensure_eq!((&p.held, p.held_span), (v, *q), "the token [{}] holds", a.name);
        ensure_eq!(p.span, *q, "the span of [{}]", a.name);
        let pay = (slot(v) < 4 && slot(v) == unwrap).then(|| v.clone());
        ensure_eq!(p.by_ref, pay, "unwrap_ref of [{}] to payload type {unwrap} (None: panics)", a.name);
        ensure_eq!(p.owned, pay, "unwrap of [{}] to payload type {unwrap} (None: panics)", a.name);
        if let Some(s) = p.same {
          ensure_eq!(s, true, "equality of [{}] with itself", a.name);
        }
        let mut rest = items[1..].to_vec();
        rest.extend([(Val::Eof, [90, 1, 90, 1]), (Val::Eof, [90, 1, 90, 1])]);
        rest.truncate(2);
        ensure_eq!(p.next, rest, "the tokens after [{}]", a.name);
        c.checks += 5;
      }
      Err(t) => {
        if want {
          fail!("[{}] was not parsed from {v:?}, which its pattern matches: {t}", a.name);
        }
        let m = format!(":{}:{}: expected {}, found {}", q[0], q[1], a.expected, def.display(v));
        if !t.ends_with(&m) {
          fail!("[{}] on {v:?}: error {t:?} does not end with {m:?}", a.name);
        }
        c.checks += 1;
      }
    }
  }
  c.key(&(&def.source, key));
  c.label_if(seen[0], "mismatch");
  c.label_if(seen[1], "match");
  c.nontrivial_if(seen[0] && seen[1]);
  Ok(())
}
