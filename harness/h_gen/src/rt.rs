//! What generated definitions use.

use refre::Sym;
use std::fmt;
use std::marker::PhantomData;
use std::str::FromStr;

/// A payload that keeps its text, and does not accept every text.
#[derive(Clone, Debug, PartialEq)]
pub struct W<const N: u8>(pub String);

pub fn wok(n: u8, text: &[Sym]) -> bool {
  let s: u32 = text.iter().fold(n as u32, |a, b| a.wrapping_mul(31).wrapping_add(*b));
  s % 6 != 0
}

impl<const N: u8> FromStr for W<N> {
  type Err = String;
  fn from_str(s: &str) -> Result<Self, String> {
    let syms: Vec<Sym> = s.chars().map(|c| c as Sym).collect();
    if wok(N, &syms) {
      Ok(W(s.to_string()))
    } else {
      Err("not this one".into())
    }
  }
}
impl<const N: u8> W<N> {
  pub fn from_text(s: &str) -> Option<Self> {
    s.parse().ok()
  }
}
impl<const N: u8> fmt::Display for W<N> {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str(&self.0)
  }
}

pub fn cw<const N: u8>(s: &str) -> Option<W<N>> {
  s.parse().ok()
}
pub fn mk<const N: u8>() -> fn(&str) -> Option<W<N>> {
  cw::<N>
}
pub fn bw<const N: u8>(b: &[u8]) -> Option<W<N>> {
  let syms: Vec<Sym> = b.iter().map(|c| *c as Sym).collect();
  wok(N, &syms).then(|| W(b.escape_ascii().to_string()))
}

/// What can be made of bytes.
pub trait FromBytes: Sized {
  fn take(b: &[u8]) -> Option<Self>;
}
impl<const N: u8> FromBytes for W<N> {
  fn take(b: &[u8]) -> Option<Self> {
    bw(b)
  }
}

/// A payload with a lifetime.
#[derive(Clone, Debug, PartialEq)]
pub struct L<'a, T: ?Sized>(PhantomData<&'a ()>, T);
impl<'a, T: FromStr> FromStr for L<'a, T> {
  type Err = T::Err;
  fn from_str(s: &str) -> Result<Self, T::Err> {
    s.parse().map(|t| L(PhantomData, t))
  }
}
impl<'a, T: FromBytes> FromBytes for L<'a, T> {
  fn take(b: &[u8]) -> Option<Self> {
    T::take(b).map(|t| L(PhantomData, t))
  }
}
impl<'a, T: fmt::Display> fmt::Display for L<'a, T> {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    self.1.fmt(f)
  }
}
