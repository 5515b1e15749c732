//! C16: token streams against a model.

use laps::parse::Parse;
use laps::span::{FileType, Location, Result, Span};
use laps::token::{Token, TokenBuffer, TokenStream, Tokenizer};
use pbt::{ensure, ensure_eq, fail, Ctx, R};
use std::collections::VecDeque;
use std::fmt;

/// A token kind: a small number, so that equal kinds are common.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct K(pub u8);
impl fmt::Display for K {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "kind {}", self.0)
  }
}
pub type Tk = Token<K>;
pub const EOF: u8 = 31;

/// Identity of a token: its kind and the (unique) place it was made for.
pub type Id = (u8, (u32, u32), (u32, u32));

pub fn id(t: &Tk) -> Id {
  (t.kind.0, (t.span.start().line, t.span.start().col), (t.span.end().line, t.span.end().col))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Item {
  Tok(Id),
  Err,
}

/// The tokenizer: a script, then end-of-file tokens or errors for ever.
pub struct Script {
  pub items: VecDeque<Item>,
  pub err_at_end: bool,
  pub span: Span,
}

pub const EOF_ID: Id = (EOF, (9999, 1), (9999, 2));

fn place(span: &Span, id: Id) -> Tk {
  let mut e = span.clone();
  e.update_loc(Location { line: id.2 .0, col: id.2 .1 });
  let mut s = span.clone();
  s.update_loc(Location { line: id.1 .0, col: id.1 .1 });
  s.update_end(&e);
  Token::new(K(id.0), s)
}

impl Tokenizer for Script {
  type Token = Tk;
  fn next_token(&mut self) -> Result<Tk> {
    match self.items.pop_front() {
      Some(Item::Tok(i)) => Ok(place(&self.span, i)),
      Some(Item::Err) => Err(laps::log_error!(self.span, "scripted")),
      None if self.err_at_end => Err(laps::log_error!(self.span, "scripted end")),
      None => Ok(place(&self.span, EOF_ID)),
    }
  }
}

/// A token stream as a user would write it: required methods only.
pub struct UserTokens {
  inner: Script,
  back: Vec<Tk>,
}

impl Tokenizer for UserTokens {
  type Token = Tk;
  fn next_token(&mut self) -> Result<Tk> {
    match self.back.pop() {
      Some(t) => Ok(t),
      None => self.inner.next_token(),
    }
  }
}
impl TokenStream for UserTokens {
  fn unread(&mut self, t: Tk) {
    self.back.push(t)
  }
}

/// Either kind of stream, with a bound on the number of operations so that
/// endless loops become failures.
pub enum Inner {
  Buf(TokenBuffer<Script, Tk>),
  User(UserTokens),
}
pub struct Stream {
  pub inner: Inner,
  pub fuel: u32,
}

impl Stream {
  pub fn new(items: VecDeque<Item>, err_at_end: bool, user: bool) -> Self {
    let s = Script { items, err_at_end, span: Span::new(FileType::Buffer) };
    Stream {
      inner: if user { Inner::User(UserTokens { inner: s, back: vec![] }) } else { Inner::Buf(if s.items.len() % 2 == 0 { TokenBuffer::new(s) } else { s.into() }) },
      fuel: 20000,
    }
  }
  pub fn base(&self) -> &Span {
    match &self.inner {
      Inner::Buf(b) => &b.inner().span,
      Inner::User(u) => &u.inner.span,
    }
  }
  pub fn make(&self, id: Id) -> Tk {
    place(self.base(), id)
  }
  fn burn(&mut self) {
    self.fuel -= 1;
    assert!(self.fuel > 0, "more than 20000 token stream operations: does not end");
  }
}

impl Tokenizer for Stream {
  type Token = Tk;
  fn next_token(&mut self) -> Result<Tk> {
    self.burn();
    match &mut self.inner {
      Inner::Buf(b) => b.next_token(),
      Inner::User(u) => u.next_token(),
    }
  }
}
macro_rules! fwd {
  ($self:ident, $m:ident $(, $a:expr)*) => {{
    $self.burn();
    match &mut $self.inner {
      Inner::Buf(b) => b.$m($($a),*),
      Inner::User(u) => u.$m($($a),*),
    }
  }};
}
impl TokenStream for Stream {
  fn unread(&mut self, t: Tk) {
    fwd!(self, unread, t)
  }
  fn peek(&mut self) -> Result<Tk> {
    fwd!(self, peek)
  }
  fn peek2(&mut self) -> Result<(Tk, Tk)> {
    fwd!(self, peek2)
  }
  fn peek_n(&mut self, n: usize) -> Result<Vec<Tk>> {
    fwd!(self, peek_n, n)
  }
  fn skip_until<F: FnMut(&Tk) -> bool>(&mut self, f: F) -> Result<()> {
    fwd!(self, skip_until, f)
  }
  fn collect_until<F: FnMut(&Tk) -> bool>(&mut self, f: F) -> Result<Vec<Tk>> {
    fwd!(self, collect_until, f)
  }
  fn expect<T>(&mut self, t: T) -> Result<Tk>
  where
    Tk: PartialEq<T>,
    T: fmt::Display,
  {
    fwd!(self, expect, t)
  }
}

/// What is still to come.
#[derive(Clone, Debug)]
pub struct Model {
  pub items: VecDeque<Item>,
  pub err_at_end: bool,
}

impl Model {
  pub fn get(&self, i: usize) -> Item {
    self.items.get(i).copied().unwrap_or(if self.err_at_end { Item::Err } else { Item::Tok(EOF_ID) })
  }
  /// Removes the error that was just reported; the one at the end stays.
  pub fn drop_err(&mut self, i: usize) {
    if i < self.items.len() {
      assert_eq!(self.items.remove(i), Some(Item::Err));
    }
  }
  pub fn next(&mut self) -> Item {
    let i = self.get(0);
    self.items.pop_front();
    i
  }
  /// The next `n` tokens, or the position of the first error among them.
  pub fn peek(&self, n: usize) -> std::result::Result<Vec<Id>, usize> {
    (0..n)
      .map(|i| match self.get(i) {
        Item::Tok(t) => Ok(t),
        Item::Err => Err(i),
      })
      .collect()
  }
}

pub fn gen_id(c: &mut Ctx, n: &mut u32, kinds: u8) -> Id {
  *n += 1;
  let k = c.below(kinds as usize) as u8;
  // unique line; not necessarily in order
  let start = (*n, 1 + c.below(60) as u32);
  if c.prob(1, 4) {
    // one character
    return (k, start, start);
  }
  (k, start, (*n + c.below(3) as u32, 61 + c.below(60) as u32))
}

/// Draining the stream gives what the model says.
pub fn drain(s: &mut Stream, m: &mut Model, what: &str) -> R {
  let n = m.items.len() + 3;
  for i in 0..n {
    let got = s.next_token();
    match (m.next(), &got) {
      (Item::Tok(w), Ok(g)) if id(g) == w => {}
      (Item::Err, Err(_)) => {}
      (w, g) => fail!("{what}: item {i} of the remaining stream: got {:?}, expected {w:?}", g.as_ref().map(id)),
    }
  }
  Ok(())
}

/// Single-token ASTs for `Lookahead::maybe`.
pub struct Ta<const M: u32>(#[allow(dead_code)] pub Tk);
impl<TS: TokenStream<Token = Tk>, const M: u32> Parse<TS> for Ta<M> {
  fn parse(tokens: &mut TS) -> Result<Self> {
    let t = tokens.next_token()?;
    if M >> t.kind.0 & 1 == 1 {
      Ok(Ta(t))
    } else {
      Err(laps::log_error!(t.span, "unexpected"))
    }
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    Ok(M >> tokens.peek()?.kind.0 & 1 == 1)
  }
}

const MASKS: [u32; 4] = [0b0011, 0b0101, 0b1110, u32::MAX];

pub fn c16(c: &mut Ctx) -> R {
  let mut n = 0;
  let mut items = VecDeque::new();
  let errors = c.prob(1, 3);
  // now and then far ahead: no bound on what is put back or looked at
  let far = c.prob(1, 12);
  c.label_if(far, "far ahead");
  let (min, max) = if far { (60, 160) } else { (0, 14) };
  while c.more(items.len(), min, max, 5) {
    let it = if errors && c.prob(1, if far { 40 } else { 5 }) { Item::Err } else { Item::Tok(gen_id(c, &mut n, 4)) };
    items.push_back(it);
  }
  let err_at_end = c.prob(1, 4);
  let user = c.bool();
  c.note(|| {
    format!(
      "{} over {items:?}, then {} for ever",
      if user { "user stream" } else { "TokenBuffer" },
      if err_at_end { "errors" } else { "end-of-file tokens" }
    )
  });
  c.key(&format!("{items:?}{user}"));
  let mut s = Stream::new(items.clone(), err_at_end, user);
  let mut m = Model { items, err_at_end };
  let steps = 1 + c.below(25);
  let mut history: Vec<Tk> = vec![];
  let (mut puts, mut peeks) = (0, 0);
  for no in 0..steps {
    let op = c.weighted(&[6, 4, 1, 4, 4, 4, 2, 2, 4, 3, 4, 1]);
    let tag = format!("operation {no}");
    match op {
      0 => {
        let got = s.next_token();
        let want = m.next();
        c.note(|| format!("next_token -> {:?}", got.as_ref().map(id)));
        match (&got, want) {
          (Ok(g), Item::Tok(w)) if id(g) == w => history.push(got.unwrap()),
          (Err(_), Item::Err) => {}
          _ => fail!("{tag}: next_token: got {:?}, expected {want:?}", got.as_ref().map(id)),
        }
      }
      1 => {
        if let Some(t) = history.pop() {
          c.note(|| format!("unread {:?}", id(&t)));
          m.items.push_front(Item::Tok(id(&t)));
          s.unread(t);
          puts += 1;
        }
      }
      2 => {
        let i = gen_id(c, &mut n, 4);
        c.note(|| format!("unread new {i:?}"));
        let t = s.make(i);
        m.items.push_front(Item::Tok(i));
        s.unread(t);
        puts += 1;
      }
      3..=5 => {
        peeks += 1;
        let k = match op {
          3 => 1,
          4 => 2,
          _ if far => c.below(90),
          _ => c.below(7),
        };
        let got: Result<Vec<Id>> = match op {
          3 => s.peek().map(|t| vec![id(&t)]),
          4 => s.peek2().map(|(a, b)| vec![id(&a), id(&b)]),
          _ => s.peek_n(k).map(|v| v.iter().map(id).collect()),
        };
        let want = m.peek(k);
        c.note(|| format!("peek {k} -> {got:?}"));
        match (&got, want) {
          (Ok(g), Ok(w)) => ensure_eq!(*g, w, "{tag}: peeking {k}"),
          (Err(_), Err(i)) => {
            c.label("peek over an error");
            m.drop_err(i);
          }
          (_, want) => fail!("{tag}: peeking {k}: got {got:?}, expected {want:?}"),
        }
      }
      6 | 7 => {
        // the end-of-file kind always stops, so that it ends
        let mask = 1u32 << EOF | c.below(16) as u32;
        // or, whatever its kind, the token asked about after this many
        let limit = if c.prob(1, 3) { c.below(if far { 60 } else { 5 }) } else { usize::MAX };
        let mut want = vec![];
        let res = loop {
          match m.get(0) {
            Item::Tok(t) if mask >> t.0 & 1 == 1 || want.len() >= limit => break true,
            Item::Tok(t) => {
              want.push(t);
              m.next();
            }
            Item::Err => {
              m.drop_err(0);
              break false;
            }
          }
        };
        let mut calls = 0;
        if op == 6 {
          let got = s.skip_until(|t| {
            calls += 1;
            mask >> t.kind.0 & 1 == 1 || calls > limit
          });
          c.note(|| format!("skip_until {mask:#b}, limit {limit} -> {got:?}"));
          ensure_eq!(got.is_ok(), res, "{tag}: skip_until succeeds");
        } else {
          let got = s.collect_until(|t| {
            calls += 1;
            mask >> t.kind.0 & 1 == 1 || calls > limit
          });
          c.note(|| format!("collect_until {mask:#b}, limit {limit} -> {:?}", got.as_ref().map(|v| v.iter().map(id).collect::<Vec<_>>())));
          match &got {
            Ok(g) if res => ensure_eq!(g.iter().map(id).collect::<Vec<_>>(), want, "{tag}: collect_until"),
            Err(_) if !res => {}
            _ => fail!("{tag}: collect_until: success is {}, expected {res}", got.is_ok()),
          }
        }
        if !want.is_empty() {
          history.clear();
        }
      }
      8 => {
        let k = K(c.below(4) as u8);
        let exact = c.bool();
        let mut same = None;
        let got = if exact {
          s.expect(k)
        } else {
          // by token: equal kinds are equal tokens, wherever they are
          let t = s.make((k.0, (7777, 1), (7777, 2)));
          same = Some(id(&t));
          s.expect(t)
        };
        c.note(|| format!("expect {k:?} {same:?} -> {:?}", got.as_ref().map(id)));
        match (m.get(0), &got) {
          (Item::Tok(w), Ok(g)) if w.0 == k.0 => {
            ensure_eq!(id(g), w, "{tag}: expect");
            m.next();
            history.push(got.unwrap());
          }
          (Item::Tok(w), Err(e)) if w.0 != k.0 => {
            ensure!(!e.is_fatal(), "{tag}: a failing expect is fatal");
            c.label("expect refused");
          }
          (Item::Err, Err(_)) => m.drop_err(0),
          (w, g) => fail!("{tag}: expect {k:?}: got {:?}, the next item is {w:?}", g.as_ref().map(id)),
        }
      }
      9 => {
        // look ahead by hand; dropping puts everything back
        let k = c.below(if far { 50 } else { 5 });
        let mut got = vec![];
        let mut failed = false;
        {
          let mut la = s.lookahead();
          for _ in 0..k {
            match la.peek_next() {
              Ok(t) => got.push(id(&t)),
              Err(_) => {
                failed = true;
                if c.bool() {
                  break;
                }
                failed = false;
                got.push((255, (0, 0), (0, 0)));
              }
            }
          }
          if !failed && c.prob(1, 4) {
            let r = la.result();
            ensure_eq!(r, Ok(true), "{tag}: result of a look-ahead without conditions");
          }
        }
        peeks += 1;
        c.note(|| format!("lookahead, {k} times peek_next -> {got:?}, stopped by an error: {failed}"));
        // errors are reported once, tokens are put back
        let mut want = vec![];
        let mut pos = 0;
        for _ in 0..k {
          match m.get(pos) {
            Item::Tok(t) => {
              want.push(t);
              pos += 1;
            }
            Item::Err => {
              m.drop_err(pos);
              if failed && got.len() == want.len() {
                break;
              }
              want.push((255, (0, 0), (0, 0)));
            }
          }
        }
        ensure_eq!(got, want, "{tag}: tokens seen by the look-ahead");
      }
      10 => {
        // a chain of conditions
        let k = 1 + c.below(if far { 24 } else { 4 });
        // far ahead, mostly conditions that hold
        let masks: Vec<usize> = (0..k).map(|_| if far && c.prob(9, 10) { 3 } else { c.below(4) }).collect();
        let got = (|| {
          let mut la = s.lookahead();
          for i in &masks {
            la = match i {
              0 => la.maybe(Ta::<{ MASKS[0] }>)?,
              1 => la.maybe(Ta::<{ MASKS[1] }>)?,
              2 => la.maybe(Ta::<{ MASKS[2] }>)?,
              _ => la.maybe(Ta::<{ MASKS[3] }>)?,
            };
          }
          la.result()
        })();
        peeks += 1;
        c.note(|| format!("lookahead over {:?} -> {got:?}", masks.iter().map(|i| format!("{:#b}", MASKS[*i])).collect::<Vec<_>>()));
        // up to the first mismatch or error
        let mut want = Ok(true);
        for (i, k) in masks.iter().enumerate() {
          match m.get(i) {
            Item::Tok(t) if MASKS[*k] >> t.0 & 1 == 1 => {}
            Item::Tok(_) => {
              want = Ok(false);
              break;
            }
            Item::Err => {
              want = Err(i);
              break;
            }
          }
        }
        match (&got, want) {
          (Ok(g), Ok(w)) => ensure_eq!(*g, w, "{tag}: result of the look-ahead"),
          (Err(_), Err(i)) => m.drop_err(i),
          // reading on after a mismatch is allowed, and may meet an error
          (Err(_), Ok(false)) => match (0..masks.len()).find(|i| m.get(*i) == Item::Err) {
            Some(i) => m.drop_err(i),
            None => fail!("{tag}: the look-ahead failed without an error in sight"),
          },
          _ => fail!("{tag}: the look-ahead gave {got:?}, expected {want:?}"),
        }
      }
      _ => {
        // parse a single token
        let got = s.parse::<Ta<{ MASKS[3] }>>();
        c.note(|| format!("parse a token -> {:?}", got.as_ref().map(|t| id(&t.0))));
        match (m.next(), &got) {
          (Item::Tok(w), Ok(g)) if id(&g.0) == w => history.push(got.unwrap().0),
          (Item::Err, Err(_)) => {}
          (w, g) => fail!("{tag}: parse a token: got {:?}, expected {w:?}", g.as_ref().map(|t| id(&t.0))),
        }
      }
    }
    c.checks += 1;
  }
  c.label_if(puts > 0, "unread");
  c.nontrivial_if(puts > 0 && peeks > 0);
  if let Inner::Buf(b) = &mut s.inner {
    // the tokenizer inside: what it has not been asked for is what is to come
    let left: Vec<Item> = b.inner().items.iter().copied().collect();
    let same: Vec<Item> = b.inner_mut().items.iter().copied().collect();
    ensure_eq!(left, same, "the tokenizer by reference and by mutable reference");
    let come: Vec<Item> = m.items.iter().copied().collect();
    ensure!(come.ends_with(&left), "the tokenizer inside still has {left:?}, to come are {come:?}");
  }
  drain(&mut s, &mut m, "draining")?;
  if let Inner::Buf(b) = s.inner {
    ensure!(b.into_inner().items.is_empty(), "the tokenizer of the drained stream still has tokens");
  }
  Ok(())
}

/// Tokens compare, hash and convert as their kinds do.
pub fn c16_tokens(c: &mut Ctx) -> R {
  use std::borrow::{Borrow, BorrowMut};
  use std::collections::hash_map::DefaultHasher;
  use std::hash::{Hash, Hasher};
  let mut n = 0;
  let base = Span::new(FileType::Buffer);
  let (a, b) = (gen_id(c, &mut n, 3), gen_id(c, &mut n, 3));
  c.note(|| format!("tokens {a:?} {b:?}"));
  c.key(&(a, b));
  c.nontrivial_if(a.0 == b.0);
  let (mut x, y) = (place(&base, a), place(&base, b));
  ensure_eq!(x == y, a.0 == b.0, "token == token");
  ensure_eq!(x == K(b.0), a.0 == b.0, "token == kind");
  let h = |f: &dyn Fn(&mut DefaultHasher)| {
    let mut h = DefaultHasher::new();
    f(&mut h);
    h.finish()
  };
  ensure_eq!(h(&|s| x.hash(s)), h(&|s| x.kind.hash(s)), "hash of a token and of its kind");
  ensure_eq!(x.to_string(), x.kind.to_string(), "display of a token");
  ensure!(*AsRef::<K>::as_ref(&x) == K(a.0) && *Borrow::<K>::borrow(&x) == K(a.0), "a token's kind by reference");
  *AsMut::<K>::as_mut(&mut x) = K(b.0);
  ensure!(x == y, "a token's kind changed by AsMut");
  *BorrowMut::<K>::borrow_mut(&mut x) = K(9);
  ensure!(x == K(9), "a token's kind changed by BorrowMut");
  ensure_eq!(id(&x), (9, a.1, a.2), "span of a changed token");
  ensure!(laps::span::Spanned::span(&y) == y.span, "span of a token");
  c.checks += 9;
  Ok(())
}
