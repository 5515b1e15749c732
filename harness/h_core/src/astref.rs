//! A reference interpreter of the grammars that AST types document, and the
//! checks that compare the types with it.

#![allow(deprecated, dead_code)]

use crate::tokens::{drain, gen_id, id, Id, Item, Model, Stream, Ta, Tk};
use laps::ast::*;
use laps::parse::Parse;
use laps::span::{Result, Span, Spanned, TrySpan};
use laps::token::TokenStream;
use pbt::{ensure, ensure_eq, fail, Ctx, R};
use std::collections::VecDeque;

/// The grammar of a type.
#[derive(Clone, Debug)]
pub enum G {
  /// One token of these kinds.
  Set(u32),
  /// One token of these kinds, only if followed by one of those kinds.
  Look(u32, u32),
  Tuple(Vec<G>),
  Opt(Box<G>),
  Many(Box<G>),
  NeSeq(Box<G>),
  SepSeq(Box<G>, Box<G>),
  NeSepSeq(Box<G>, Box<G>),
  OptSepSeq(Box<G>, Box<G>),
  NeOptSepSeq(Box<G>, Box<G>),
  NeSepList(Box<G>, Box<G>),
  NeOptSepList(Box<G>, Box<G>),
  OptPrefix(Box<G>, Box<G>),
  OptTokenPrefix(Box<G>, Box<G>),
  TokenPrefix(Box<G>, Box<G>),
  /// A derived type.
  Rule(usize),
}

/// A derived type: its variants (a single one without a tag for a struct).
#[derive(Clone, Debug)]
pub struct Rule {
  pub is_enum: bool,
  pub variants: Vec<Vec<G>>,
  /// The kinds of `#[starts_with]`.
  pub starts: Vec<u32>,
}

/// What a value stores.
#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
  Leaf(Id),
  Node(Vec<Tree>),
  Absent,
  /// A variant of a derived enum.
  Var(usize, Vec<Tree>),
}

impl Tree {
  fn leaves(&self, v: &mut Vec<Id>) {
    match self {
      Tree::Leaf(i) => v.push(*i),
      Tree::Node(ts) | Tree::Var(_, ts) => ts.iter().for_each(|t| t.leaves(v)),
      Tree::Absent => {}
    }
  }
  /// From the start of the first to the end of the last stored token.
  pub fn span(&self) -> Option<((u32, u32), (u32, u32))> {
    let mut v = vec![];
    self.leaves(&mut v);
    Some((v.first()?.1, v.last()?.2))
  }
}

/// The position of the error that stopped the interpreter, if it was the
/// tokenizer's.
type E = Option<usize>;

fn has(m: u32, t: Id) -> bool {
  m >> t.0 & 1 == 1
}

/// May the grammar start at this position, according to its documentation?
pub fn maybe(e: &[Rule], g: &G, m: &Model, p: usize) -> std::result::Result<bool, E> {
  let tok = |p: usize| match m.get(p) {
    Item::Tok(t) => Ok(t),
    Item::Err => Err(Some(p)),
  };
  Ok(match g {
    G::Set(s) => has(*s, tok(p)?),
    G::Look(a, b) => {
      let (x, y) = (tok(p)?, tok(p + 1)?);
      has(*a, x) && has(*b, y)
    }
    G::Tuple(v) => maybe(e, &v[0], m, p)?,
    G::Opt(_) | G::Many(_) | G::SepSeq(..) | G::OptSepSeq(..) => true,
    G::NeSeq(t) => maybe(e, t, m, p)?,
    G::NeSepSeq(t, _) | G::NeOptSepSeq(t, _) | G::NeSepList(t, _) | G::NeOptSepList(t, _) => maybe(e, t, m, p)?,
    G::OptPrefix(x, t) => maybe(e, x, m, p)? || maybe(e, t, m, p)?,
    G::OptTokenPrefix(x, t) => {
      if maybe(e, x, m, p)? {
        maybe(e, t, m, p + 1)?
      } else {
        maybe(e, t, m, p)?
      }
    }
    G::TokenPrefix(x, t) => maybe(e, x, m, p)? && maybe(e, t, m, p + 1)?,
    G::Rule(i) => {
      let r = &e[*i];
      if !r.starts.is_empty() {
        for (k, s) in r.starts.iter().enumerate() {
          if !has(*s, tok(p + k)?) {
            return Ok(false);
          }
        }
        true
      } else {
        let mut any = r.variants.is_empty();
        for v in &r.variants {
          any = match v.first() {
            Some(f) => maybe(e, f, m, p)?,
            None => true,
          };
          if any {
            break;
          }
        }
        any
      }
    }
  })
}

/// Parses the grammar from position `p` on, choosing by may-start answers.
pub fn parse(e: &[Rule], g: &G, m: &Model, p: &mut usize) -> std::result::Result<Tree, E> {
  let node = |v| Ok(Tree::Node(v));
  match g {
    G::Set(s) => match m.get(*p) {
      Item::Tok(t) if has(*s, t) => {
        *p += 1;
        Ok(Tree::Leaf(t))
      }
      Item::Tok(_) => Err(None),
      Item::Err => Err(Some(*p)),
    },
    G::Look(a, b) => {
      if maybe(e, &G::Look(*a, *b), m, *p)? {
        parse(e, &G::Set(*a), m, p)
      } else {
        Err(None)
      }
    }
    G::Tuple(v) => {
      let mut ts = vec![];
      for g in v {
        ts.push(parse(e, g, m, p)?);
      }
      node(ts)
    }
    G::Opt(g) => {
      if maybe(e, g, m, *p)? {
        parse(e, g, m, p)
      } else {
        Ok(Tree::Absent)
      }
    }
    G::Many(g) => {
      let mut ts = vec![];
      while maybe(e, g, m, *p)? {
        ts.push(parse(e, g, m, p)?);
      }
      node(ts)
    }
    G::NeSeq(g) => {
      let mut ts = vec![parse(e, g, m, p)?];
      while maybe(e, g, m, *p)? {
        ts.push(parse(e, g, m, p)?);
      }
      node(ts)
    }
    // T (S T)*, separators not stored
    G::SepSeq(t, s) => {
      if maybe(e, t, m, *p)? {
        parse(e, &G::NeSepSeq(t.clone(), s.clone()), m, p)
      } else {
        node(vec![])
      }
    }
    G::NeSepSeq(t, s) => {
      let mut ts = vec![parse(e, t, m, p)?];
      while maybe(e, s, m, *p)? {
        parse(e, s, m, p)?;
        ts.push(parse(e, t, m, p)?);
      }
      node(ts)
    }
    // T (S T)* S?, separators not stored
    G::OptSepSeq(t, s) => {
      if maybe(e, t, m, *p)? {
        parse(e, &G::NeOptSepSeq(t.clone(), s.clone()), m, p)
      } else {
        node(vec![])
      }
    }
    G::NeOptSepSeq(t, s) => {
      let mut ts = vec![parse(e, t, m, p)?];
      while maybe(e, s, m, *p)? {
        parse(e, s, m, p)?;
        if !maybe(e, t, m, *p)? {
          break;
        }
        ts.push(parse(e, t, m, p)?);
      }
      node(ts)
    }
    // with separators, flattened
    G::NeSepList(t, s) => {
      let mut ts = vec![parse(e, t, m, p)?];
      while maybe(e, s, m, *p)? {
        ts.push(parse(e, s, m, p)?);
        ts.push(parse(e, t, m, p)?);
      }
      node(ts)
    }
    G::NeOptSepList(t, s) => {
      let mut ts = vec![parse(e, t, m, p)?];
      while maybe(e, s, m, *p)? {
        ts.push(parse(e, s, m, p)?);
        if !maybe(e, t, m, *p)? {
          break;
        }
        ts.push(parse(e, t, m, p)?);
      }
      node(ts)
    }
    G::OptPrefix(x, t) | G::OptTokenPrefix(x, t) => {
      let a = parse(e, &G::Opt(x.clone()), m, p)?;
      node(vec![a, parse(e, t, m, p)?])
    }
    G::TokenPrefix(x, t) => {
      let a = parse(e, x, m, p)?;
      node(vec![a, parse(e, t, m, p)?])
    }
    G::Rule(i) => {
      let r = &e[*i];
      let mut chosen = r.variants.len() - 1;
      for (k, v) in r.variants.iter().enumerate().take(chosen) {
        let starts = match v.first() {
          Some(f) => maybe(e, f, m, *p)?,
          None => true,
        };
        if starts {
          chosen = k;
          break;
        }
      }
      let mut ts = vec![];
      for g in &r.variants[chosen] {
        ts.push(parse(e, g, m, p)?);
      }
      if r.is_enum { Ok(Tree::Var(chosen, ts)) } else { node(ts) }
    }
  }
}

/// A random sentence of the grammar, as kinds.
pub fn sentence(e: &[Rule], g: &G, c: &mut Ctx, v: &mut Vec<u8>) {
  // now and then a long one
  let cap = if c.below(40) == 39 { 320 } else { 60 };
  sent(e, g, c, v, cap)
}

fn sent(e: &[Rule], g: &G, c: &mut Ctx, v: &mut Vec<u8>, cap: usize) {
  if v.len() > cap {
    return;
  }
  let from = |c: &mut Ctx, s: u32| {
    let ks: Vec<u8> = (0..4).filter(|k| s >> k & 1 == 1).collect();
    *c.pick(&ks)
  };
  match g {
    G::Set(s) => v.push(from(c, *s)),
    G::Look(a, b) => {
      v.push(from(c, *a));
      // what follows must look right: half of the time
      if c.bool() {
        v.push(from(c, *b));
      }
    }
    G::Tuple(gs) => gs.iter().for_each(|g| sent(e, g, c, v, cap)),
    G::Opt(g) => {
      if c.bool() {
        sent(e, g, c, v, cap)
      }
    }
    G::Many(g) | G::NeSeq(g) => {
      let n = if cap > 60 && c.choices.len() < 1000 && c.below(3) == 0 { c.below(cap) } else { c.below(4) };
      for _ in 0..n {
        sent(e, g, c, v, cap)
      }
    }
    G::SepSeq(t, s) | G::NeSepSeq(t, s) | G::NeSepList(t, s) => {
      let n = if cap > 60 && c.choices.len() < 1000 && c.below(3) == 0 { c.below(cap) } else { c.below(4) };
      for i in 0..n {
        if i > 0 {
          sent(e, s, c, v, cap);
        }
        sent(e, t, c, v, cap);
      }
    }
    G::OptSepSeq(t, s) | G::NeOptSepSeq(t, s) | G::NeOptSepList(t, s) => {
      let n = if cap > 60 && c.choices.len() < 1000 && c.below(3) == 0 { c.below(cap) } else { c.below(4) };
      for i in 0..n {
        if i > 0 {
          sent(e, s, c, v, cap);
        }
        sent(e, t, c, v, cap);
      }
      if n > 0 && c.bool() {
        sent(e, s, c, v, cap);
      }
    }
    G::OptPrefix(x, t) | G::OptTokenPrefix(x, t) => {
      if c.bool() {
        sent(e, x, c, v, cap);
      }
      sent(e, t, c, v, cap);
    }
    G::TokenPrefix(x, t) => {
      sent(e, x, c, v, cap);
      sent(e, t, c, v, cap);
    }
    G::Rule(i) => {
      let r = &e[*i];
      let k = c.below(r.variants.len());
      // a unit variant in a recursion may be passed for ever
      if c.choices.len() < 4000 {
        r.variants[k].iter().for_each(|g| sent(e, g, c, v, cap))
      }
    }
  }
}

/// A type under test: its grammar and its stored parts.
pub trait Ast: Parse<Stream> {
  fn g() -> G;
  fn tree(&self) -> Tree;
  /// Takes the value apart by iterating it (types that can be iterated only).
  fn iterate(self) {}
}

fn bx<T: Ast>() -> Box<G> {
  Box::new(T::g())
}

impl<const M: u32> Ast for Ta<M> {
  fn g() -> G {
    G::Set(M)
  }
  fn tree(&self) -> Tree {
    Tree::Leaf(id(&self.0))
  }
}
impl<const M: u32> Spanned for Ta<M> {
  fn span(&self) -> Span {
    self.0.span.clone()
  }
}

/// A token that needs another one behind it.
pub struct La<const A: u32, const B: u32>(Tk);
impl<TS: TokenStream<Token = Tk>, const A: u32, const B: u32> Parse<TS> for La<A, B> {
  fn parse(tokens: &mut TS) -> Result<Self> {
    if Self::maybe(tokens)? {
      Ok(La(tokens.next_token()?))
    } else {
      let t = tokens.peek()?;
      Err(laps::log_error!(t.span, "unexpected"))
    }
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    let (a, b) = tokens.peek2()?;
    Ok(A >> a.kind.0 & 1 == 1 && B >> b.kind.0 & 1 == 1)
  }
}
impl<const A: u32, const B: u32> Ast for La<A, B> {
  fn g() -> G {
    G::Look(A, B)
  }
  fn tree(&self) -> Tree {
    Tree::Leaf(id(&self.0))
  }
}
impl<const A: u32, const B: u32> Spanned for La<A, B> {
  fn span(&self) -> Span {
    self.0.span.clone()
  }
}

impl<T: Ast> Ast for Box<T> {
  fn g() -> G {
    T::g()
  }
  fn tree(&self) -> Tree {
    (**self).tree()
  }
}
impl<T: Ast> Ast for Option<T> {
  fn g() -> G {
    G::Opt(bx::<T>())
  }
  fn tree(&self) -> Tree {
    self.as_ref().map_or(Tree::Absent, T::tree)
  }
}
impl<T: Ast> Ast for Vec<T> {
  fn g() -> G {
    G::Many(bx::<T>())
  }
  fn tree(&self) -> Tree {
    Tree::Node(self.iter().map(T::tree).collect())
  }
}
macro_rules! seq {
  ($n:ident<T $(, $s:ident)?>, $g:ident) => {
    impl<T: Ast $(, $s: Ast)?> Ast for $n<T $(, $s)?> {
      fn g() -> G {
        G::$g(bx::<T>() $(, bx::<$s>())?)
      }
      fn tree(&self) -> Tree {
        let a: Vec<Tree> = self.0.iter().map(T::tree).collect();
        // iterating the value itself gives the same elements
        let b: Vec<Tree> = self.into_iter().map(T::tree).collect();
        assert_eq!(a, b, "iterating a reference");
        Tree::Node(a)
      }
      fn iterate(mut self) {
        let a: Vec<Tree> = self.0.iter().map(T::tree).collect();
        let b: Vec<Tree> = (&mut self).into_iter().map(|t| t.tree()).collect();
        assert_eq!(a, b, "iterating a mutable reference");
        let back: Vec<Tree> = (&mut self).into_iter().rev().map(|t| t.tree()).collect();
        assert!(a.iter().rev().eq(&back), "iterating a mutable reference from the end");
        let n = self.0.len();
        let it = self.into_iter();
        assert_eq!(it.len(), n, "length of the iterator");
        let c: Vec<Tree> = it.map(|t| t.tree()).collect();
        assert_eq!(a, c, "iterating the value");
      }
    }
  };
}
seq!(NonEmptySeq<T>, NeSeq);
seq!(SepSeq<T, S>, SepSeq);
seq!(NonEmptySepSeq<T, S>, NeSepSeq);
seq!(OptSepSeq<T, S>, OptSepSeq);
seq!(NonEmptyOptSepSeq<T, S>, NeOptSepSeq);

impl<T: Ast, S: Ast> Ast for NonEmptySepList<T, S> {
  fn g() -> G {
    G::NeSepList(bx::<T>(), bx::<S>())
  }
  fn tree(&self) -> Tree {
    let mut v = vec![];
    let mut l = self;
    loop {
      match l {
        Self::One(t) => {
          v.push(t.tree());
          return Tree::Node(v);
        }
        Self::More(t, s, r) => {
          v.push(t.tree());
          v.push(s.tree());
          l = r;
        }
      }
    }
  }
}
impl<T: Ast, S: Ast> Ast for NonEmptyOptSepList<T, S> {
  fn g() -> G {
    G::NeOptSepList(bx::<T>(), bx::<S>())
  }
  fn tree(&self) -> Tree {
    let mut v = vec![];
    let mut l = self;
    loop {
      match l {
        Self::One(t) => {
          v.push(t.tree());
          return Tree::Node(v);
        }
        Self::OneWithSep(t, s) => {
          v.push(t.tree());
          v.push(s.tree());
          return Tree::Node(v);
        }
        Self::More(t, s, r) => {
          v.push(t.tree());
          v.push(s.tree());
          l = r;
        }
      }
    }
  }
}
impl<L: Ast, T: Ast, Q: Ast> Ast for Quoted<L, T, Q> {
  fn g() -> G {
    G::Tuple(vec![L::g(), T::g(), Q::g()])
  }
  fn tree(&self) -> Tree {
    Tree::Node(vec![self.0.tree(), self.1.tree(), self.2.tree()])
  }
}
macro_rules! prefix {
  ($n:ident, $g:ident) => {
    impl<P: Ast, T: Ast> Ast for $n<P, T> {
      fn g() -> G {
        G::$g(bx::<P>(), bx::<T>())
      }
      fn tree(&self) -> Tree {
        Tree::Node(vec![self.0.tree(), self.1.tree()])
      }
    }
  };
}
prefix!(OptPrefix, OptPrefix);
prefix!(OptTokenPrefix, OptTokenPrefix);
prefix!(TokenPrefix, TokenPrefix);

macro_rules! tuple {
  ($($t:ident)*) => {
    impl<$($t: Ast),*> Ast for ($($t,)*) {
      fn g() -> G {
        G::Tuple(vec![$($t::g()),*])
      }
      fn tree(&self) -> Tree {
        #[allow(non_snake_case)]
        let ($($t,)*) = self;
        Tree::Node(vec![$($t.tree()),*])
      }
    }
  };
}
macro_rules! tuples {
  ($($done:ident)* ;) => {};
  ($($done:ident)* ; $n:ident $($rest:ident)*) => {
    tuple!($($done)* $n);
    tuples!($($done)* $n ; $($rest)*);
  };
}
tuples!(; A B C D E F G_ H I J K_ L M N O P Q R_ S T U V W X Y Z);

/// Places of a span.
pub fn at(s: Span) -> ((u32, u32), (u32, u32)) {
  ((s.start().line, s.start().col), (s.end().line, s.end().col))
}

pub type Where = Option<((u32, u32), (u32, u32))>;

pub struct Parsed {
  pub tree: Tree,
  /// `None`: the type has no span; otherwise what it reports.
  pub span: Option<Where>,
}

pub struct Entry {
  pub name: String,
  pub rules: Vec<Rule>,
  pub g: G,
  pub parse: fn(&mut Stream) -> Result<Parsed>,
  pub maybe: fn(&mut Stream) -> Result<bool>,
}

pub fn sp_s<T: Spanned>(t: &T) -> Option<Where> {
  let a = at(t.span());
  assert_eq!(t.try_span().map(at), Some(a), "try_span of a type that always has a span");
  Some(Some(a))
}
pub fn sp_t<T: TrySpan>(t: &T) -> Option<Where> {
  Some(t.try_span().map(at))
}
pub fn sp_n<T>(_: &T) -> Option<Where> {
  None
}

#[macro_export]
macro_rules! entries {
  ($($f:ident $t:ty;)*) => {
    vec![$($crate::astref::Entry {
      name: stringify!($t).split_whitespace().collect::<Vec<_>>().join(" "),
      rules: vec![],
      g: <$t as $crate::astref::Ast>::g(),
      parse: |s| {
        let v = <$crate::tokens::Stream as laps::token::TokenStream>::parse::<$t>(s)?;
        let parsed = $crate::astref::Parsed { tree: $crate::astref::Ast::tree(&v), span: $crate::astref::$f(&v) };
        $crate::astref::Ast::iterate(v);
        Ok(parsed)
      },
      maybe: <$t as laps::parse::Parse<$crate::tokens::Stream>>::maybe,
    }),*]
  };
}

/// A stream near the sentences of the grammar.
pub fn gen_stream(c: &mut Ctx, e: &Entry, err: u32) -> (VecDeque<Item>, bool, bool) {
  let mut kinds = vec![];
  if c.prob(5, 6) {
    sentence(&e.rules, &e.g, c, &mut kinds);
  }
  if c.prob(1, 2) {
    let n = 1 + c.below(2);
    for _ in 0..n {
      let i = c.below(kinds.len() + 1);
      match c.below(3) {
        0 => kinds.insert(i, c.below(4) as u8),
        1 if i < kinds.len() => kinds[i] = c.below(4) as u8,
        2 if i < kinds.len() => {
          kinds.remove(i);
        }
        _ => {}
      }
    }
  }
  let tail = c.below(4);
  for _ in 0..tail {
    kinds.push(c.below(4) as u8);
  }
  let mut n = 0;
  let mut items: VecDeque<Item> = VecDeque::new();
  for k in kinds {
    let mut i = gen_id(c, &mut n, 1);
    i.0 = k;
    items.push_back(Item::Tok(i));
  }
  if err > 0 && c.prob(1, err as u64) {
    let i = if c.bool() { c.below(items.len() + 1) } else { c.below(items.len() + 1).min(2) };
    items.insert(i, Item::Err);
  }
  (items, err > 0 && c.prob(1, 2 + err as u64), c.bool())
}

/// Builds the stream, sometimes with some tokens already read ahead or put
/// back.
pub fn make_stream(c: &mut Ctx, items: &VecDeque<Item>, err_at_end: bool, user: bool) -> Stream {
  let mut s = Stream::new(items.clone(), err_at_end, user);
  let clean = items.iter().take_while(|i| **i != Item::Err).count();
  if clean > 0 && c.prob(1, 3) {
    let k = c.below(clean) + 1;
    if c.bool() {
      let _ = s.peek_n(k);
    } else {
      let mut v = vec![];
      for _ in 0..k {
        v.push(laps::token::Tokenizer::next_token(&mut s).expect("a token"));
      }
      for t in v.into_iter().rev() {
        s.unread(t);
      }
    }
  }
  s
}

pub fn describe(e: &Entry, items: &VecDeque<Item>, err_at_end: bool, user: bool) -> String {
  let v: Vec<String> = items
    .iter()
    .map(|i| match i {
      Item::Tok(t) => t.0.to_string(),
      Item::Err => "error".into(),
    })
    .collect();
  format!(
    "type {} over kinds [{}] then {} ({})",
    e.name,
    v.join(" "),
    if err_at_end { "errors" } else { "end" },
    if user { "user stream" } else { "TokenBuffer" }
  )
}

/// May-start answers leave the stream alone.
pub fn check_maybe(c: &mut Ctx, e: &Entry) -> R {
  let (items, err_at_end, user) = gen_stream(c, e, 2);
  c.note(|| describe(e, &items, err_at_end, user));
  c.key(&format!("{}{items:?}{err_at_end}{user}", e.name));
  let mut s = make_stream(c, &items, err_at_end, user);
  let mut m = Model { items, err_at_end };
  let mut answers: Vec<bool> = vec![];
  let had_err = m.items.contains(&Item::Err) || m.err_at_end;
  for round in 0..3 {
    match (e.maybe)(&mut s) {
      Ok(b) => {
        c.label(if b { "may start" } else { "may not start" });
        if let Some(p) = answers.last() {
          ensure_eq!(b, *p, "asked again ({round})");
        }
        answers.push(b);
      }
      Err(_) => {
        // the tokenizer's error is reported, and nothing else is gone
        c.label("tokenizer error while asking");
        c.nontrivial();
        let at = (0..32).find(|i| m.get(*i) == Item::Err);
        let Some(at) = at else { fail!("asking failed without an error of the tokenizer in sight") };
        m.drop_err(at);
        answers.clear();
      }
    }
    c.checks += 1;
  }
  c.nontrivial_if(m.items.len() > 1 || had_err);
  drain(&mut s, &mut m, "after asking")
}

/// Parsed values and may-start answers.  `err`: one stream out of so many
/// has a tokenizer error (0: none).
pub fn check_parse(c: &mut Ctx, e: &Entry, err: u32) -> R {
  let (items, err_at_end, user) = gen_stream(c, e, err);
  c.note(|| describe(e, &items, err_at_end, user));
  c.key(&format!("{}{items:?}{err_at_end}{user}", e.name));
  let mut s = make_stream(c, &items, err_at_end, user);
  let mut m = Model { items, err_at_end };
  // the may-start answer
  if c.prob(2, 3) {
    let want = maybe(&e.rules, &e.g, &m, 0);
    let got = (e.maybe)(&mut s);
    match (&got, want) {
      (Ok(a), Ok(b)) => ensure_eq!(*a, b, "may it start here"),
      (Err(_), Err(Some(i))) => m.drop_err(i),
      (_, want) => fail!("may it start here: got {got:?}, expected {want:?}"),
    }
    c.checks += 1;
  }
  let mut p = 0;
  let want = parse(&e.rules, &e.g, &m, &mut p);
  let got = (e.parse)(&mut s);
  c.note(|| format!("expected {want:?}, then position {p}"));
  match (got, want) {
    (Ok(g), Ok(w)) => {
      c.label("parsed");
      c.nontrivial_if(p > 1);
      ensure_eq!(g.tree, w, "parsed value");
      for _ in 0..p {
        m.next();
      }
      drain(&mut s, &mut m, "after parsing")?;
    }
    (Err(_), Err(_)) => {
      c.label("rejected");
      c.nontrivial_if(p > 0);
    }
    (Ok(g), Err(_)) => fail!("parsed {:?}, the documented form is violated at item {p}", g.tree),
    (Err(_), Ok(w)) => fail!("rejected, the documented form matches {p} items: {w:?}"),
  }
  c.checks += 1;
  Ok(())
}

/// Spans of parsed values.
pub fn check_span(c: &mut Ctx, e: &Entry) -> R {
  let mut kinds = vec![];
  sentence(&e.rules, &e.g, c, &mut kinds);
  let tail = c.below(3);
  for _ in 0..tail {
    kinds.push(c.below(4) as u8);
  }
  let mut n = 0;
  let mut items = VecDeque::new();
  for k in kinds {
    let mut i = gen_id(c, &mut n, 1);
    i.0 = k;
    if c.prob(1, 3) {
      // spans in any order: nothing may depend on it
      i.1 .0 = 1 + c.below(50) as u32;
      i.2 .0 = 1 + c.below(50) as u32;
    }
    items.push_back(Item::Tok(i));
  }
  c.note(|| describe(e, &items, false, false));
  c.key(&format!("{}{items:?}", e.name));
  let mut s = Stream::new(items, false, c.bool());
  let base = s.base().clone();
  if let Ok(v) = (e.parse)(&mut s) {
    let want = v.tree.span();
    c.note(|| format!("parsed {:?}, span {:?}", v.tree, v.span));
    if let Some(got) = v.span {
      ensure_eq!(got, want, "span of a {}", e.name);
      c.checks += 1;
      let mut ls = vec![];
      v.tree.leaves(&mut ls);
      c.label(match ls.len() {
        0 => "nothing stored",
        1 => "one part",
        _ => "several parts",
      });
      c.nontrivial_if(ls.len() > 1);
    }
  }
  ensure!(base.error_num() < 2, "errors counted twice");
  Ok(())
}

