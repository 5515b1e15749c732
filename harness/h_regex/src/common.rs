use laps_regex::mir::{Mir, MirBuilder, SymbolOp};
use laps_regex::re::{Error, RegexBuilder, RegexMatcher};
use laps_regex::table::StateTransTable;
pub use refre::sets::*;
use refre::{Dfa, Mode, Sym};
use std::fmt::Debug;
use std::hash::Hash;

/// A symbol type of laps, convertible to and from reference symbols.
pub trait S: Copy + Ord + Hash + SymbolOp + Sync + Send + Debug + 'static {
  const MODE: Mode;
  fn of(s: Sym) -> Self;
  fn to(self) -> Sym;
}
impl S for char {
  const MODE: Mode = Mode::Chars;
  fn of(s: Sym) -> char {
    char::from_u32(s).expect("reference symbol is a character")
  }
  fn to(self) -> Sym {
    self as Sym
  }
}
impl S for u8 {
  const MODE: Mode = Mode::Bytes;
  fn of(s: Sym) -> u8 {
    s as u8
  }
  fn to(self) -> Sym {
    self as Sym
  }
}

pub fn build<C: S, T: Clone + Hash + Ord>(
  pats: &[(String, T)],
  par: Option<bool>,
) -> Result<RegexMatcher<C, T>, Error<T>>
where
  Mir<C, T>: MirBuilder,
{
  let b = pats.iter().fold(RegexBuilder::new(), |b, (p, t)| b.add(p, t.clone())).enable_par(par);
  match C::MODE {
    Mode::Chars => b.build(),
    Mode::Bytes => b.build_bytes(),
  }
}

/// Test symbols for a reference and a table: both ends of every interval on
/// which both are constant.
pub fn symbols<C: S, T: Clone + Ord, U>(dfa: &Dfa<T>, table: Option<&StateTransTable<C, U>>) -> Vec<Sym> {
  let max = refre::max_sym(C::MODE);
  let mut extra = vec![];
  if let Some(t) = table {
    for (r, (l, _)) in t.sym_map() {
      extra.push(l.to());
      extra.push(r.to() + 1);
    }
  }
  refre::test_symbols(&dfa.nfa.cuts(max, extra), C::MODE)
}

