//! A token AST with type parameters, for generic rules.

use crate::astref::{Ast, Tree, G};
use crate::tokens::{id, Tk};
use laps::prelude::*;
use laps::span::{Result, Span};
use std::marker::PhantomData;

/// Something that the parameters of a rule have to be.
pub trait Mark {}
impl Mark for () {}
impl Mark for str {}
impl<T: Mark + ?Sized> Mark for &T {}
impl<A: Mark, B: Mark> Mark for (A, B) {}

pub struct Tg<T: Mark + ?Sized, const M: u32>(pub Tk, pub PhantomData<T>);

impl<TS: TokenStream<Token = Tk>, T: Mark + ?Sized, const M: u32> Parse<TS> for Tg<T, M> {
  fn parse(tokens: &mut TS) -> Result<Self> {
    let t = tokens.next_token()?;
    if M >> t.kind.0 & 1 == 1 {
      Ok(Tg(t, PhantomData))
    } else {
      Err(laps::log_error!(t.span, "unexpected"))
    }
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    Ok(M >> tokens.peek()?.kind.0 & 1 == 1)
  }
}

impl<T: Mark + ?Sized, const M: u32> Spanned for Tg<T, M> {
  fn span(&self) -> Span {
    self.0.span.clone()
  }
}

impl<T: Mark + ?Sized, const M: u32> Ast for Tg<T, M> {
  fn g() -> G {
    G::Set(M)
  }
  fn tree(&self) -> Tree {
    Tree::Leaf(id(&self.0))
  }
}
