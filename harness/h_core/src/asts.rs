//! C17, C18 and C20 over the predefined AST types.

#![allow(deprecated)]

use crate::astref::{at, check_maybe, check_parse, check_span, Entry, La, Where};
use crate::tokens::{gen_id, Id, Stream, Ta};
use laps::ast::*;
use laps::span::TrySpan;
use pbt::{ensure_eq, Ctx, R};
use std::collections::VecDeque;
use std::sync::OnceLock;

// element types: overlapping sets of the kinds 0..4
type T0 = Ta<0b0001>;
type T1 = Ta<0b0010>;
type T2 = Ta<0b0100>;
type T3 = Ta<0b1000>;
type T01 = Ta<0b0011>;
type T12 = Ta<0b0110>;
type T013 = Ta<0b1011>;
type L01 = La<0b0001, 0b0010>;
type L12 = La<0b0110, 0b1001>;
type P01 = (T0, T1);
type P22 = (T2, T2);
type P1o2 = (T1, Option<T2>);
type X = Box<T0>;

fn all() -> Vec<Entry> {
  crate::entries! {
  sp_s T0;
  sp_s T013;
  sp_s L01;
  sp_s Box<T12>;
  sp_s Box<Box<P01>>;
  sp_t Option<T0>;
  sp_t Option<P01>;
  sp_t Option<L01>;
  sp_t Option<Box<T1>>;
  sp_t Option<Option<T0>>;
  sp_t Vec<T0>;
  sp_t Vec<P01>;
  sp_t Vec<L01>;
  sp_t Vec<Box<T013>>;
  sp_t Vec<NonEmptySepSeq<T0, T1>>;
  sp_t Option<Vec<T1>>;
  sp_n (Option<T0>, Vec<T1>);
  sp_n (Vec<T0>, Option<T1>, Vec<T0>);
  sp_n (Option<P01>, T2);
  sp_n (Vec<T01>, T2);
  sp_n (T2, Vec<T01>);
  sp_s (T0, Vec<T01>, T2);
  sp_s (T0, Option<T1>, Option<L12>, T3);
  sp_s NonEmptySeq<T0>;
  sp_s NonEmptySeq<T01>;
  sp_s NonEmptySeq<P01>;
  sp_s NonEmptySeq<L01>;
  sp_s NonEmptySeq<OptPrefix<T1, T0>>;
  sp_s NonEmptySeq<OptTokenPrefix<T1, T0>>;
  sp_s NonEmptySeq<TokenPrefix<T1, T0>>;
  sp_s NonEmptySeq<NonEmptySepSeq<T0, T1>>;
  sp_t SepSeq<T0, T1>;
  sp_t SepSeq<T01, T12>;
  sp_t SepSeq<T0, T0>;
  sp_t SepSeq<P01, T2>;
  sp_t SepSeq<T0, P22>;
  sp_t SepSeq<L01, T1>;
  sp_t SepSeq<T0, L12>;
  sp_t SepSeq<Box<T013>, T2>;
  sp_t SepSeq<NonEmptySeq<T0>, T1>;
  sp_n SepSeq<(T0, Option<T1>), T2>;
  sp_t SepSeq<Quoted<T0, T1, T0>, T2>;
  sp_s NonEmptySepSeq<T0, T1>;
  sp_s NonEmptySepSeq<T01, T12>;
  sp_s NonEmptySepSeq<T0, T0>;
  sp_s NonEmptySepSeq<P01, T2>;
  sp_s NonEmptySepSeq<T0, P22>;
  sp_s NonEmptySepSeq<L01, T1>;
  sp_s NonEmptySepSeq<T0, L12>;
  sp_s NonEmptySepSeq<NonEmptySeq<T0>, T1>;
  sp_n NonEmptySepSeq<P1o2, T0>;
  sp_t OptSepSeq<T0, T1>;
  sp_t OptSepSeq<T01, T12>;
  sp_t OptSepSeq<T0, T0>;
  sp_t OptSepSeq<P01, T2>;
  sp_t OptSepSeq<T0, P22>;
  sp_t OptSepSeq<L01, T1>;
  sp_t OptSepSeq<T0, L12>;
  sp_t OptSepSeq<NonEmptySeq<T0>, T1>;
  sp_t OptSepSeq<OptSepSeqItem, T2>;
  sp_s NonEmptyOptSepSeq<T0, T1>;
  sp_s NonEmptyOptSepSeq<T01, T12>;
  sp_s NonEmptyOptSepSeq<T0, T0>;
  sp_s NonEmptyOptSepSeq<P01, T2>;
  sp_s NonEmptyOptSepSeq<T0, P22>;
  sp_s NonEmptyOptSepSeq<L01, T1>;
  sp_s NonEmptyOptSepSeq<T0, L12>;
  sp_s NonEmptyOptSepSeq<NonEmptySeq<T0>, T1>;
  sp_s NonEmptySepList<T0, T1>;
  sp_s NonEmptySepList<T01, T12>;
  sp_s NonEmptySepList<T0, T0>;
  sp_s NonEmptySepList<P01, T2>;
  sp_s NonEmptySepList<T0, P22>;
  sp_s NonEmptySepList<L01, T1>;
  sp_s NonEmptySepList<T0, L12>;
  sp_s NonEmptySepList<NonEmptyOptSepList<T0, T1>, T2>;
  sp_t SepList<T0, T1>;
  sp_t SepList<T01, T12>;
  sp_t SepList<P01, T2>;
  sp_t SepList<L01, T1>;
  sp_s NonEmptyOptSepList<T0, T1>;
  sp_s NonEmptyOptSepList<T01, T12>;
  sp_s NonEmptyOptSepList<T0, T0>;
  sp_s NonEmptyOptSepList<P01, T2>;
  sp_s NonEmptyOptSepList<T0, P22>;
  sp_s NonEmptyOptSepList<L01, T1>;
  sp_s NonEmptyOptSepList<T0, L12>;
  sp_t OptSepList<T0, T1>;
  sp_t OptSepList<T01, T12>;
  sp_t OptSepList<P01, T2>;
  sp_t OptSepList<L01, T1>;
  sp_s Quoted<T0, T1, T2>;
  sp_s Quoted<T0, Option<T1>, T0>;
  sp_s Quoted<T0, Vec<T01>, T2>;
  sp_s Quoted<T0, SepSeq<T1, T2>, T0>;
  sp_s Quoted<P01, OptSepSeq<T0, T2>, L01>;
  sp_s Quoted<T0, OptSepList<T01, T2>, T3>;
  sp_s OptPrefix<T0, T1>;
  sp_s OptPrefix<T01, T12>;
  sp_s OptPrefix<P01, T0>;
  sp_s OptPrefix<T0, L01>;
  sp_s OptPrefix<L01, T1>;
  sp_s OptPrefix<NonEmptySeq<T0>, T1>;
  sp_s OptPrefix<T0, Box<OptPrefix<T1, T2>>>;
  sp_s OptTokenPrefix<T0, T1>;
  sp_s OptTokenPrefix<T01, T12>;
  sp_s OptTokenPrefix<T0, L01>;
  sp_s OptTokenPrefix<L01, T1>;
  sp_s OptTokenPrefix<X, P01>;
  sp_s OptTokenPrefix<T0, OptTokenPrefix<T1, T2>>;
  sp_n OptTokenPrefix<T0, Option<T1>>;
  sp_s TokenPrefix<T0, T1>;
  sp_s TokenPrefix<T01, T12>;
  sp_s TokenPrefix<T0, L12>;
  sp_s TokenPrefix<L01, T1>;
  sp_s TokenPrefix<X, P22>;
  sp_s TokenPrefix<T0, TokenPrefix<T1, T2>>;
  sp_s TokenPrefix<T0, OptTokenPrefix<T1, NonEmptySepSeq<T2, T3>>>;
  sp_n TokenPrefix<T0, Vec<T1>>;
  sp_t Option<TokenPrefix<T0, T1>>;
  sp_t Vec<TokenPrefix<T0, T1>>;
  sp_t Vec<OptTokenPrefix<T0, T1>>;
  sp_t Option<OptTokenPrefix<T0, L01>>;
  sp_s (T0,);
  sp_s (T0, T1);
  sp_s (T0, T1, T2);
  sp_s (T0, T1, T2, T3);
  sp_s (T0, T1, T2, T3, T01);
  sp_s (T0, T1, T2, T3, T01, T12);
  sp_s (T0, T1, T2, T3, T01, T12, T0);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12, T3);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12, T3, T0);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12, T3, T0, T2);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12, T3, T0, T2, T1);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12, T3, T0, T2, T1, T3);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12, T3, T0, T2, T1, T3, T0);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12, T3, T0, T2, T1, T3, T0, T1);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12, T3, T0, T2, T1, T3, T0, T1, T2);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12, T3, T0, T2, T1, T3, T0, T1, T2, T3);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12, T3, T0, T2, T1, T3, T0, T1, T2, T3, T0);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12, T3, T0, T2, T1, T3, T0, T1, T2, T3, T0, T1);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12, T3, T0, T2, T1, T3, T0, T1, T2, T3, T0, T1, T2);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12, T3, T0, T2, T1, T3, T0, T1, T2, T3, T0, T1, T2, T3);
  sp_s (T0, T1, T2, T3, T01, T12, T0, T1, T2, T3, T01, T12, T3, T0, T2, T1, T3, T0, T1, T2, T3, T0, T1, T2, T3, T01);
}}
type OptSepSeqItem = NonEmptyOptSepList<T0, T1>;


fn pick(c: &mut Ctx) -> &'static Entry {
  static ALL: OnceLock<Vec<Entry>> = OnceLock::new();
  c.pick(ALL.get_or_init(all))
}

pub fn c17(c: &mut Ctx) -> R {
  let e = pick(c);
  check_maybe(c, e)
}

pub fn c18(c: &mut Ctx) -> R {
  let e = pick(c);
  check_parse(c, e, 8)
}

pub fn c20(c: &mut Ctx) -> R {
  let e = pick(c);
  check_span(c, e)
}

/// Values built by hand: parts missing anywhere.
pub fn c20_values(c: &mut Ctx) -> R {
  let s = Stream::new(VecDeque::new(), false, false);
  let mut n = 0;
  let mut all: Vec<Id> = vec![];
  let mut tok = |c: &mut Ctx| {
    let i = gen_id(c, &mut n, 4);
    all.push(i);
    s.make(i)
  };
  let mut opt = |c: &mut Ctx| if c.bool() { Some(tok(c)) } else { None };
  let shape = c.below(7);
  // now and then many elements
  let m = if c.prob(1, 30) { 30 } else { 1 };
  let got: Where = match shape {
    0 => opt(c).try_span().map(at),
    1 => c.vec(0, 6 * m, 3 * m, &mut opt).try_span().map(at),
    2 => c.vec(0, 4 * m, 2 * m, |c| c.vec(0, 3, 1, &mut opt)).try_span().map(at),
    3 => Some(Some(c.vec(0, 4 * m, 2 * m, &mut opt))).try_span().map(at),
    4 => c
      .vec(0, 5 * m, 3 * m, |c| opt(c).map(|t| Box::new(t)))
      .try_span()
      .map(at),
    5 => c.vec(0, 5 * m, 3 * m, |c| opt(c).map(|t| (t,))).try_span().map(at),
    _ => c.vec(0, 4 * m, 2 * m, |c| Some(Some(opt(c)))).try_span().map(at),
  };
  c.note(|| format!("shape {shape}, stored {all:?}, span {got:?}"));
  c.key(&(shape, &all));
  let want = all.first().map(|f| (f.1, all.last().unwrap().2));
  c.nontrivial_if(all.len() > 1);
  c.checks += 1;
  ensure_eq!(got, want, "span of a hand-built value of shape {shape}");
  Ok(())
}
