//! C28: a front end for configuration documents, made of derived components.

use laps::ast::{NonEmptySepList, OptSepSeq, SepSeq};
use laps::lexer::{char_literal, signed_int_literal, str_literal};
use laps::prelude::*;
use laps::reader::Reader;
use laps::span::{Error, Spanned};
use laps::token::TokenBuffer;
use pbt::{ensure, fail, Ctx, R};
use std::fmt;
use std::str::FromStr;

#[token_kind]
#[derive(Debug, Tokenize)]
enum TokenKind {
  #[skip(r"\s+|#[^\n]*\n")]
  _Skip,
  /// Keyword.
  #[regex(r"true|false|import|section")]
  Keyword(Keyword),
  /// Name.
  #[regex(r"[a-zA-Z_\u{e0}-\u{ff}\u{4e00}-\u{9fff}][a-zA-Z_0-9\u{e0}-\u{ff}\u{4e00}-\u{9fff}]*")]
  Name(Name),
  /// Integer.
  #[regex(r"[+-]?([0-9]+|0x[0-9a-fA-F]+|0b[01]+|0o[0-7]+)", signed_int_literal)]
  Int(i32),
  /// String.
  #[regex(r#""([^\x00-\x1f"\\]|\\([0ntr'"\\]|x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]{1,6}\}))*""#, str_literal)]
  Str(String),
  /// Character.
  #[regex(r"'([^\x00-\x1f'\\]|\\([0ntr'\x22\\]|x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]{1,6}\}))'", char_literal)]
  Char(char),
  /// Arrow.
  #[regex(r"=>")]
  Arrow,
  /// Dots.
  #[regex(r"\.\.\.?")]
  Dots(Dots),
  /// Other character.
  #[regex(r"[^\s\x22'#]")]
  Other(Sign),
  /// End-of-file.
  #[eof]
  Eof,
}

type Token = laps::token::Token<TokenKind>;

macro_rules! payload {
  ($n:ident($t:ty)) => {
    #[derive(Clone, Debug, PartialEq)]
    struct $n($t);
    impl FromStr for $n {
      type Err = <$t as FromStr>::Err;
      fn from_str(s: &str) -> Result<Self, Self::Err> {
        s.parse().map(Self)
      }
    }
    impl fmt::Display for $n {
      fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
      }
    }
  };
}
payload!(Name(String));
payload!(Dots(String));
payload!(Sign(char));

#[derive(Clone, Copy, Debug, PartialEq)]
enum Keyword {
  True,
  False,
  Import,
  Section,
}
impl FromStr for Keyword {
  type Err = ();
  fn from_str(s: &str) -> Result<Self, ()> {
    Ok(match s {
      "true" => Self::True,
      "false" => Self::False,
      "import" => Self::Import,
      "section" => Self::Section,
      _ => return Err(()),
    })
  }
}
impl fmt::Display for Keyword {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "{self:?}")
  }
}

token_ast! {
  #[derive(Debug, PartialEq)]
  macro Token<TokenKind> {
    [bool] => { kind: TokenKind::Keyword(Keyword::True | Keyword::False), prompt: "boolean" },
    [import] => { kind: TokenKind::Keyword(Keyword::Import) },
    [section] => { kind: TokenKind::Keyword(Keyword::Section) },
    [name] => { kind: TokenKind::Name(_), prompt: "name" },
    [int] => { kind: TokenKind::Int(_), prompt: "integer" },
    [small] => { kind: TokenKind::Int(i) if *i >= 0 && *i < 256, prompt: "byte" },
    [str] => { kind: TokenKind::Str(_), prompt: "string" },
    [char] => { kind: TokenKind::Char(_), prompt: "character" },
    [=>] => { kind: TokenKind::Arrow },
    [..] => { kind: TokenKind::Dots(_), prompt: "dots" },
    [=] => { kind: TokenKind::Other(Sign('=')) },
    [:] => { kind: TokenKind::Other(Sign(':')) },
    [;] => { kind: TokenKind::Other(Sign(';')) },
    [,] => { kind: TokenKind::Other(Sign(',')) },
    [.] => { kind: TokenKind::Other(Sign('.')) },
    [@] => { kind: TokenKind::Other(Sign('@')) },
    [lpr] => { kind: TokenKind::Other(Sign('(')) },
    [rpr] => { kind: TokenKind::Other(Sign(')')) },
    [lbk] => { kind: TokenKind::Other(Sign('{')) },
    [rbk] => { kind: TokenKind::Other(Sign('}')) },
    [lbc] => { kind: TokenKind::Other(Sign('[')) },
    [rbc] => { kind: TokenKind::Other(Sign(']')) },
    [eof] => { kind: TokenKind::Eof },
  }
}

#[derive(Parse, Debug)]
#[token(Token)]
struct Doc {
  imports: Vec<Import>,
  items: OptSepSeq<Item, Token![;]>,
  _eof: Token![eof],
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct Import {
  _import: Token![import],
  path: NonEmptySepList<Token![name], Token![.]>,
  #[try_span]
  rest: Option<Token![..]>,
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
enum Item {
  Section(Box<Section>),
  Entry(Entry),
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct Section {
  _section: Token![section],
  name: Token![name],
  _lbk: Token![lbk],
  #[try_span]
  items: OptSepSeq<Item, Token![;]>,
  _rbk: Token![rbk],
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct Entry {
  name: Token![name],
  #[try_span]
  attrs: Vec<Attr>,
  #[try_span]
  ty: Option<(Token![:], Token![name])>,
  _eq: Token![=],
  value: Value,
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct Attr(Token![@], Token![small]);

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
enum Value {
  Bool(Token![bool]),
  Int(Token![int]),
  Str(Token![str]),
  Char(Token![char]),
  List((Token![lbc], OptSepSeq<Value, Token![,]>, Token![rbc])),
  Map(Token![lbk], SepSeq<Pair, Token![,]>, Token![rbk]),
  Call(Call),
  Ref(NonEmptySepList<Token![name], Token![.]>),
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct Pair {
  key: Key,
  _arrow: Token![=>],
  value: Value,
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
enum Key {
  Name(Token![name]),
  Str(Token![str]),
  Int(Token![int]),
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
#[starts_with(Token![name], Token![lpr])]
struct Call {
  name: Token![name],
  _lpr: Token![lpr],
  args: SepSeq<Value, Token![,]>,
  _rpr: Token![rpr],
}

// ---- the model: a tree whose leaves are tokens ----

/// A generated token: its text and what it denotes.
#[derive(Clone, Debug, PartialEq)]
enum T {
  Kw(Keyword),
  Name(String),
  Int(i32),
  Str(String),
  Char(char),
  Arrow,
  Dots(usize),
  Other(char),
}

/// Node of a tree: label, and the tokens that it covers (from, to).
type Node = (String, usize, usize);

struct Gen {
  toks: Vec<T>,
  nodes: Vec<Node>,
}

fn name(c: &mut Ctx) -> String {
  let n = 1 + c.below(4);
  let mut s = String::new();
  for i in 0..n {
    s.push(*c.pick(if i == 0 { &['a', 'Z', '_', 'é', '你', 't'] } else { &['a', '0', '_', 'é', '好', 'e'] }));
  }
  s
}

fn text(c: &mut Ctx) -> char {
  match c.below(5) {
    0 => *c.pick(&['\n', '\t', '\r', '\0', '\'', '"', '\\', '\u{7f}', '\u{1}']),
    1 => char::from_u32(c.below(0x110000) as u32).unwrap_or('\u{10ffff}'),
    _ => *c.pick(&['a', ' ', '#', 'é', '你', '{', ';', 'x', 'u', 'n']),
  }
}

impl Gen {
  fn node(&mut self, label: String, from: usize) {
    self.nodes.push((label, from, self.toks.len() - 1));
  }
  fn put(&mut self, s: &str) {
    for c in s.chars() {
      self.toks.push(T::Other(c));
    }
  }
  fn path(&mut self, c: &mut Ctx) -> String {
    let n = 1 + c.below(3);
    let mut l = vec![];
    for i in 0..n {
      if i > 0 {
        self.put(".");
      }
      let x = name(c);
      l.push(x.clone());
      self.toks.push(T::Name(x));
    }
    l.join(".")
  }
  fn value(&mut self, c: &mut Ctx, depth: usize) {
    let from = self.toks.len();
    let k = if depth == 0 { c.below(5) } else { c.below(8) };
    let label = match k {
      0 => {
        self.toks.push(T::Kw(*c.pick(&[Keyword::True, Keyword::False])));
        "Bool".into()
      }
      1 => {
        let i = match c.below(4) {
          0 => *c.pick(&[i32::MIN, i32::MAX, 0, -1]),
          1 => c.choice(u32::MAX as u64) as u32 as i32,
          _ => c.below(200) as i32 - 100,
        };
        self.toks.push(T::Int(i));
        "Int".into()
      }
      2 => {
        let n = c.below(4);
        let s = (0..n).map(|_| text(c)).collect();
        self.toks.push(T::Str(s));
        "Str".into()
      }
      3 => {
        let x = text(c);
        self.toks.push(T::Char(x));
        "Char".into()
      }
      4 => format!("Ref {}", self.path(c)),
      5 => {
        self.put("[");
        let n = c.below(4);
        for _ in 0..n {
          self.value(c, depth - 1);
          self.put(",");
        }
        if n > 0 && c.bool() {
          self.toks.pop();
        }
        self.put("]");
        format!("List {n}")
      }
      6 => {
        self.put("{");
        let n = c.below(4);
        for i in 0..n {
          if i > 0 {
            self.put(",");
          }
          let from = self.toks.len();
          let key = match c.below(3) {
            0 => T::Name(name(c)),
            1 => T::Str(text(c).to_string()),
            _ => T::Int(c.below(9) as i32),
          };
          self.toks.push(key);
          self.toks.push(T::Arrow);
          self.value(c, depth - 1);
          self.node("Pair".into(), from);
        }
        self.put("}");
        format!("Map {n}")
      }
      _ => {
        let x = name(c);
        self.toks.push(T::Name(x));
        self.put("(");
        let n = c.below(4);
        for i in 0..n {
          if i > 0 {
            self.put(",");
          }
          self.value(c, depth - 1);
        }
        self.put(")");
        format!("Call {n}")
      }
    };
    self.node(label, from);
  }
  fn items(&mut self, c: &mut Ctx, depth: usize) {
    let n = c.below(4);
    for i in 0..n {
      self.item(c, depth);
      if i + 1 < n || c.bool() {
        self.put(";");
      }
    }
  }
  fn item(&mut self, c: &mut Ctx, depth: usize) {
    let from = self.toks.len();
    if depth > 0 && c.prob(1, 3) {
      self.toks.push(T::Kw(Keyword::Section));
      let x = name(c);
      self.toks.push(T::Name(x.clone()));
      self.put("{");
      self.items(c, depth - 1);
      self.put("}");
      return self.node(format!("Section {x}"), from);
    }
    let attrs = if c.prob(1, 3) { c.below(3) } else { 0 };
    let x = name(c);
    self.toks.push(T::Name(x.clone()));
    for _ in 0..attrs {
      self.put("@");
      self.toks.push(T::Int(c.below(256) as i32));
    }
    let ty = c.bool();
    if ty {
      self.put(":");
      let x = name(c);
      self.toks.push(T::Name(x));
    }
    self.put("=");
    let depth = c.below(4);
    self.value(c, depth);
    self.node(format!("Entry {x} {attrs} {ty}"), from);
  }
}

fn escape(c: &mut Ctx, x: char, quote: char) -> String {
  let v = x as u32;
  let plain = v >= 0x20 && x != quote && x != '\\';
  match c.below(4) {
    0 if v < 0x80 => format!("\\x{v:02x}"),
    1 => format!("\\u{{{v:x}}}"),
    2 => match x {
      '\n' => "\\n".into(),
      '\t' => "\\t".into(),
      '\r' => "\\r".into(),
      '\0' => "\\0".into(),
      '\'' => "\\'".into(),
      '"' => "\\\"".into(),
      '\\' => "\\\\".into(),
      _ if plain => x.to_string(),
      _ => format!("\\u{{{v:X}}}"),
    },
    _ if plain => x.to_string(),
    _ => format!("\\u{{{v:04x}}}"),
  }
}

fn spell(c: &mut Ctx, t: &T) -> String {
  match t {
    T::Kw(k) => format!("{k:?}").to_lowercase(),
    T::Name(s) => s.clone(),
    T::Int(i) => {
      let sign = if *i < 0 { "-" } else { c.pick(&["", "", "+"]) };
      let a = i.unsigned_abs();
      // the smallest value has no other spelling
      match c.below(5) {
        0 => format!("{sign}0x{a:x}"),
        1 => format!("{sign}0b{a:b}"),
        2 => format!("{sign}0o{a:o}"),
        3 => format!("{sign}00{a}"),
        _ => format!("{sign}{a}"),
      }
    }
    T::Str(s) => {
      let b: String = s.chars().map(|x| escape(c, x, '"')).collect();
      format!("\"{b}\"")
    }
    T::Char(x) => format!("'{}'", escape(c, *x, '\'')),
    T::Arrow => "=>".into(),
    T::Dots(n) => ".".repeat(*n),
    T::Other(x) => x.to_string(),
  }
}

// ---- observation of the parsed tree ----

struct Seen {
  toks: Vec<(T, Span)>,
  nodes: Vec<(String, Span)>,
}
use laps::span::Span;

fn kind(k: &TokenKind) -> T {
  match k {
    TokenKind::Keyword(k) => T::Kw(*k),
    TokenKind::Name(s) => T::Name(s.0.clone()),
    TokenKind::Int(i) => T::Int(*i),
    TokenKind::Str(s) => T::Str(s.clone()),
    TokenKind::Char(c) => T::Char(*c),
    TokenKind::Arrow => T::Arrow,
    TokenKind::Dots(s) => T::Dots(s.0.len()),
    TokenKind::Other(c) => T::Other(c.0),
    k => panic!("unexpected token {k}"),
  }
}

macro_rules! tok {
  ($s:expr, $t:expr) => {{
    let t = &$t.0;
    $s.toks.push((kind(&t.kind), t.span()));
  }};
}

fn see_path(s: &mut Seen, p: &NonEmptySepList<Token![name], Token![.]>) -> String {
  let mut l = vec![];
  let mut p = p;
  loop {
    match p {
      NonEmptySepList::One(n) => {
        tok!(s, n);
        l.push(n.unwrap_ref::<&Name, _>().0.clone());
        break l.join(".");
      }
      NonEmptySepList::More(n, d, r) => {
        tok!(s, n);
        tok!(s, d);
        l.push(n.unwrap_ref::<&Name, _>().0.clone());
        p = r;
      }
    }
  }
}

/// The separators are not stored; those that were there are put in by position.
fn see_value(s: &mut Seen, v: &Value) {
  let label = match v {
    Value::Bool(t) => {
      tok!(s, t);
      "Bool".into()
    }
    Value::Int(t) => {
      tok!(s, t);
      "Int".into()
    }
    Value::Str(t) => {
      tok!(s, t);
      "Str".into()
    }
    Value::Char(t) => {
      tok!(s, t);
      "Char".into()
    }
    Value::List((l, x, r)) => {
      tok!(s, l);
      for v in x {
        see_value(s, v);
      }
      tok!(s, r);
      format!("List {}", x.0.len())
    }
    Value::Map(l, x, r) => {
      tok!(s, l);
      for p in x {
        match &p.key {
          Key::Name(t) => tok!(s, t),
          Key::Str(t) => tok!(s, t),
          Key::Int(t) => tok!(s, t),
        }
        tok!(s, p._arrow);
        see_value(s, &p.value);
        s.nodes.push(("Pair".into(), p.span()));
      }
      tok!(s, r);
      format!("Map {}", x.0.len())
    }
    Value::Call(x) => {
      tok!(s, x.name);
      tok!(s, x._lpr);
      for v in &x.args {
        see_value(s, v);
      }
      tok!(s, x._rpr);
      format!("Call {}", x.args.0.len())
    }
    Value::Ref(p) => format!("Ref {}", see_path(s, p)),
  };
  s.nodes.push((label, v.span()));
}

fn see_item(s: &mut Seen, i: &Item) {
  let label = match i {
    Item::Section(x) => {
      tok!(s, x._section);
      tok!(s, x.name);
      tok!(s, x._lbk);
      for i in &x.items {
        see_item(s, i);
      }
      tok!(s, x._rbk);
      format!("Section {}", x.name.unwrap_ref::<&Name, _>())
    }
    Item::Entry(e) => {
      tok!(s, e.name);
      for a in &e.attrs {
        tok!(s, a.0);
        tok!(s, a.1);
      }
      if let Some((colon, n)) = &e.ty {
        tok!(s, colon);
        tok!(s, n);
      }
      tok!(s, e._eq);
      see_value(s, &e.value);
      format!("Entry {} {} {}", e.name.unwrap_ref::<&Name, _>(), e.attrs.len(), e.ty.is_some())
    }
  };
  s.nodes.push((label, i.span()));
}

// ---- reference recognizer, for damaged documents ----

/// Index of the first token that cannot be there (the number of tokens for
/// the end of the document), or nothing if well-formed.
struct Rec<'a> {
  t: &'a [T],
  i: usize,
}
type Ok_ = Result<(), usize>;
impl Rec<'_> {
  fn ch(&self, n: usize) -> char {
    match self.t.get(self.i + n) {
      Some(T::Other(c)) => *c,
      _ => '\0',
    }
  }
  fn is(&self, f: impl Fn(&T) -> bool) -> bool {
    self.t.get(self.i).is_some_and(f)
  }
  fn want(&mut self, f: impl Fn(&T) -> bool) -> Ok_ {
    if self.is(f) {
      self.i += 1;
      Ok(())
    } else {
      Err(self.i)
    }
  }
  fn wantc(&mut self, c: char) -> Ok_ {
    self.want(|t| *t == T::Other(c))
  }
  fn name(&mut self) -> Ok_ {
    self.want(|t| matches!(t, T::Name(_)))
  }
  fn path(&mut self) -> Ok_ {
    self.name()?;
    while self.ch(0) == '.' {
      self.i += 1;
      self.name()?;
    }
    Ok(())
  }
  fn doc(&mut self) -> Ok_ {
    while self.is(|t| *t == T::Kw(Keyword::Import)) {
      self.i += 1;
      self.path()?;
      if self.is(|t| matches!(t, T::Dots(_))) {
        self.i += 1;
      }
    }
    self.items()?;
    if self.i == self.t.len() {
      Ok(())
    } else {
      Err(self.i)
    }
  }
  fn starts_item(&self) -> bool {
    self.is(|t| matches!(t, T::Name(_) | T::Kw(Keyword::Section)))
  }
  fn items(&mut self) -> Ok_ {
    while self.starts_item() {
      self.item()?;
      if self.ch(0) != ';' {
        break;
      }
      self.i += 1;
    }
    Ok(())
  }
  fn item(&mut self) -> Ok_ {
    if self.is(|t| *t == T::Kw(Keyword::Section)) {
      self.i += 1;
      self.name()?;
      self.wantc('{')?;
      self.items()?;
      return self.wantc('}');
    }
    self.name()?;
    while self.ch(0) == '@' {
      self.i += 1;
      self.want(|t| matches!(t, T::Int(0..=255)))?;
    }
    if self.ch(0) == ':' {
      self.i += 1;
      self.name()?;
    }
    self.wantc('=')?;
    self.value()
  }
  fn starts_value(&self) -> bool {
    self.is(|t| {
      matches!(
        t,
        T::Kw(Keyword::True | Keyword::False) | T::Int(_) | T::Str(_) | T::Char(_) | T::Other('[' | '{') | T::Name(_)
      )
    })
  }
  fn value(&mut self) -> Ok_ {
    if !self.starts_value() {
      return Err(self.i);
    }
    match &self.t[self.i] {
      T::Other('[') => {
        self.i += 1;
        while self.starts_value() {
          self.value()?;
          if self.ch(0) != ',' {
            break;
          }
          self.i += 1;
        }
        self.wantc(']')
      }
      T::Other(_) => {
        self.i += 1;
        let key = |t: &T| matches!(t, T::Name(_) | T::Str(_) | T::Int(_));
        if self.is(key) {
          loop {
            self.want(key)?;
            self.want(|t| *t == T::Arrow)?;
            self.value()?;
            if self.ch(0) != ',' {
              break;
            }
            self.i += 1;
          }
        }
        self.wantc('}')
      }
      T::Name(_) if self.ch(1) == '(' => {
        self.i += 2;
        if self.starts_value() {
          loop {
            self.value()?;
            if self.ch(0) != ',' {
              break;
            }
            self.i += 1;
          }
        }
        self.wantc(')')
      }
      T::Name(_) => self.path(),
      _ => {
        self.i += 1;
        Ok(())
      }
    }
  }
}

pub fn c28(c: &mut Ctx) -> R {
  let mut g = Gen { toks: vec![], nodes: vec![] };
  let imports = if c.bool() { c.below(3) } else { 0 };
  for _ in 0..imports {
    let from = g.toks.len();
    g.toks.push(T::Kw(Keyword::Import));
    let p = g.path(c);
    let dots = c.prob(1, 3);
    if dots {
      g.toks.push(T::Dots(2 + c.below(2)));
    }
    g.node(format!("Import {p} {dots}"), from);
  }
  g.items(c, 3);
  let damaged = c.prob(1, 3);
  if damaged && !g.toks.is_empty() {
    let n = g.toks.len();
    match c.below(4) {
      0 => {
        g.toks.remove(c.below(n));
      }
      1 => {
        let (i, j) = (c.below(n), c.below(n));
        g.toks.swap(i, j);
      }
      2 => {
        let i = c.below(n);
        let t = g.toks[c.below(n)].clone();
        g.toks.insert(i, t);
      }
      _ => {
        let i = c.below(n);
        g.toks[i] = match c.below(7) {
          0 => T::Other(*c.pick(&['=', ':', ';', ',', '.', '@', '(', ')', '{', '}', '[', ']', '%'])),
          1 => T::Int(256),
          2 => T::Arrow,
          3 => T::Kw(*c.pick(&[Keyword::True, Keyword::Import, Keyword::Section])),
          4 => T::Dots(2),
          5 => T::Char('x'),
          _ => T::Name("a".into()),
        };
      }
    }
  }
  // spell the tokens, with layout that keeps them apart
  let mut src = String::new();
  let (mut line, mut col) = (1u32, 0u32);
  let mut at: Vec<((u32, u32), (u32, u32))> = vec![];
  let advance = |x: char, p: &mut (u32, u32)| {
    if x == '\n' {
      *p = (p.0 + 1, 0);
    } else {
      p.1 += 1;
    }
  };
  let toks = g.toks.clone();
  let mut last = ' ';
  for t in &toks {
    let text = spell(c, t);
    let first = text.chars().next().unwrap_or(' ');
    let word = |x: char| x.is_alphanumeric() || x == '_';
    let apart = word(last) && word(first) || "=.+-".contains(last) && !src.is_empty() || last == '\'' || c.prob(1, 3);
    let mut gap = String::new();
    if c.prob(1, 400) {
      // crosses the boundary of the reader's buffer
      let n = 400 + c.below(700);
      gap += &c.pick(&["\n", " ", "#é\n"]).repeat(n);
    }
    if apart {
      let n = 1 + c.below(2);
      for _ in 0..n {
        gap += c.pick(&[" ", "\n", "\t", "\r\n", "#\n", "# é \" {\n", "\u{3000}"]);
      }
    }
    let mut p = (line, col);
    for x in gap.chars() {
      advance(x, &mut p);
    }
    let mut start = None;
    for x in text.chars() {
      advance(x, &mut p);
      start.get_or_insert(p);
    }
    (line, col) = p;
    at.push((start.unwrap(), p));
    last = text.chars().last().unwrap();
    src += &gap;
    src += &text;
  }
  if c.prob(1, 3) {
    let gap = *c.pick(&["\n", " ", "# end\n"]);
    let mut p = (line, col);
    for x in gap.chars() {
      advance(x, &mut p);
    }
    (line, col) = p;
    src += gap;
  }
  // a token that the document ends inside of
  let unfinished = c.prob(1, 8);
  if unfinished {
    let mut p = (line, col);
    advance(' ', &mut p);
    (line, col) = p;
    src += *c.pick(&["\"", "'", "#", "# abc", "\"abc é", "'x", "'\\", "\"\\u{12", "\"\\x", "\"\\\"", "# é\t\""]);
  }
  c.note(|| format!("document {src:?}"));
  c.key(&src);
  c.nontrivial_if(toks.len() >= 5);
  let reader = Reader::from(src.as_str());
  let span = reader.span().clone();
  let mut tokens = TokenBuffer::new(TokenKind::lexer(reader));
  let got = tokens.parse::<Doc>();
  c.checks += 1;
  let place = (Rec { t: &toks, i: 0 }).doc();
  c.label_if(unfinished, "ends inside of a token");
  // without its end, a document stops where the unfinished token begins
  let place = if unfinished { Err(place.err().unwrap_or(toks.len())) } else { place };
  if let Err(i) = place {
    c.label("malformed");
    let want = at.get(i).map_or((line, col), |a| a.0);
    return match got {
      Ok(d) => fail!("a malformed document was accepted: {d:?}"),
      Err(Error::Fatal(e)) => fail!("a malformed document gave the fatal error {e:?}"),
      Err(Error::Normal(e)) => {
        let says = |(l, c): (u32, u32)| e.starts_with(&format!("<buffer>:{l}:{c}: ")) || e.starts_with(&format!("buffer:{l}:{c}: "));
        // a look-ahead may get there first
        ensure!(says(want) || unfinished && says((line, col)), "the error is {e:?}, expected at {}:{}", want.0, want.1);
        ensure!(span.error_num() == 1, "{} errors were counted", span.error_num());
        Ok(())
      }
    };
  }
  c.label("well-formed");
  let d = match got {
    Ok(d) => d,
    Err(e) => fail!("a well-formed document was rejected: {e:?}"),
  };
  ensure!(span.error_num() == 0, "{} errors were counted", span.error_num());
  if damaged {
    // the nodes are not known
    return Ok(());
  }
  let mut s = Seen { toks: vec![], nodes: vec![] };
  for i in &d.imports {
    tok!(s, i._import);
    let p = see_path(&mut s, &i.path);
    if let Some(t) = &i.rest {
      tok!(s, t);
    }
    s.nodes.push((format!("Import {p} {}", i.rest.is_some()), i.span()));
  }
  for i in &d.items {
    see_item(&mut s, i);
  }
  // separators are not stored
  let show = |a: &((u32, u32), (u32, u32))| format!("{}:{}-{}:{}", a.0 .0, a.0 .1, a.1 .0, a.1 .1);
  let want: Vec<(T, String)> = toks
    .iter()
    .zip(&at)
    .filter(|(t, _)| !matches!(t, T::Other(',' | ';')))
    .map(|(t, a)| (t.clone(), show(a)))
    .collect();
  let got: Vec<(T, String)> = s.toks.iter().map(|(t, s)| (t.clone(), s.to_string())).collect();
  for (i, w) in want.iter().enumerate() {
    ensure!(got.get(i) == Some(w), "stored token {i} is {:?}, expected {w:?}", got.get(i));
  }
  ensure!(got.len() == want.len(), "{} tokens are stored, expected {}", got.len(), want.len());
  let want: Vec<(String, String)> = g.nodes.iter().map(|(l, a, b)| (l.clone(), show(&(at[*a].0, at[*b].1)))).collect();
  let got: Vec<(String, String)> = s.nodes.iter().map(|(l, s)| (l.clone(), s.to_string())).collect();
  ensure!(got == want, "parts of the document: {got:?}, expected {want:?}");
  c.checks += (got.len() + toks.len()) as u64;
  Ok(())
}
