//! Sets of patterns, and sequences near their matches.

use crate::gen::{self, Gen, Profile, P};
use crate::{Dfa, Mode, Re, Sym};
use pbt::Ctx;
use std::fmt::Debug;

/// Reference expressions of patterns; `None` if one is not in the domain
/// (generators make this rare).
pub fn reference<T: Clone>(mode: Mode, pats: &[(String, T)]) -> Option<Vec<(Re, T)>> {
  let mut v = vec![];
  for (p, t) in pats {
    let hir = crate::parse(p, mode == Mode::Chars).ok()?;
    v.push((Re::from_hir(&hir, mode).ok()?, t.clone()));
  }
  Some(v)
}

pub fn positions<T>(res: &[(Re, T)]) -> usize {
  res.iter().map(|(r, _)| r.positions()).sum()
}

/// Generates the texts of a set of patterns.
pub fn pattern_set(c: &mut Ctx, mode: Mode, max: usize) -> Vec<String> {
  match c.weighted(&[10, 3, 3, 2]) {
    0 => {
      let mut g = Gen::new(c, mode);
      let mut ps: Vec<P> = vec![];
      while c.more(ps.len(), 1, max, 2) {
        g.budget = g.budget.clamp(6, 16);
        let p = if !ps.is_empty() && c.prob(1, 5) {
          let q = c.pick(&ps).clone();
          gen::rewrite(c, &q, 0)
        } else {
          g.any(c)
        };
        ps.push(p);
      }
      ps.iter().map(|p| gen::text(p, mode)).collect()
    }
    1 => {
      let pool = if mode == Mode::Chars { gen::REAL_CHARS } else { gen::REAL_BYTES };
      c.vec(1, max.min(5), 2, |c| c.pick(pool).to_string())
    }
    2 => {
      // keywords one by one, and identifiers over the same alphabet
      let mut g = Gen::new(c, mode);
      if g.profile == Profile::Wide {
        g.profile = Profile::Tiny;
      }
      let mut v: Vec<String> = c.vec(1, max, 3, |c| {
        let w = P::Cat(c.vec(1, 5, 2, |c| P::Lit(g.sym(c))));
        gen::text(&w, mode)
      });
      let cls = g.class(c);
      v.push(gen::text(&P::Rep(Box::new(cls), 1, None), mode));
      v
    }
    _ => {
      let mut g = Gen::new(c, mode);
      g.profile = Profile::Tiny;
      g.perl = false;
      let d = c.range(2, 5);
      let mut v = vec![];
      while c.more(v.len(), 1, 3, 1) {
        g.budget = 12;
        let p = g.pat(c, d);
        v.push(gen::text(&p, mode));
      }
      v
    }
  }
}

/// Distinct symbols in one alternation: many symbol classes.
pub fn wide_set(c: &mut Ctx, mode: Mode) -> Vec<String> {
  let n = c.range(20, if mode == Mode::Chars { 150 } else { 110 });
  let base = *c.pick(&[0x21u32, 0x100, 0x3b1, 0x4e00, 0x1f600]);
  let sym = |i: usize| -> P {
    match mode {
      Mode::Chars => P::Lit(base + 2 * i as u32),
      Mode::Bytes => P::Lit(2 * i as u32),
    }
  };
  let depth2 = c.bool();
  let words: Vec<P> = (0..n).map(|i| if depth2 { P::Cat(vec![sym(i), sym((i * 7 + 3) % n)]) } else { sym(i) }).collect();
  // every symbol must be distinguished, so each second word gets a suffix of
  // its own or repeats
  let words = words.into_iter().enumerate().map(|(i, w)| if i % 3 == 0 { P::Cat(vec![w, sym((i * 5 + 1) % n)]) } else { w }).collect();
  let mut v = vec![gen::text(&P::Alt(words), mode)];
  let extra = c.below(3);
  for _ in 0..extra {
    let k = c.range(1, n);
    let p = P::Alt((0..k).map(|i| P::Cat(vec![sym(i), sym(n - 1 - i)])).collect());
    v.push(gen::text(&p, mode));
  }
  v
}

/// Hundreds of patterns of which each begins with a character of its own and,
/// with tags of their own, has to stay apart: several hundred symbol classes
/// and states.
pub fn many_set(c: &mut Ctx) -> Vec<String> {
  let n = c.range(200, 400) as u32;
  let base = *c.pick(&[0x100u32, 0x4e00, 0x1f600, 0xac00]);
  let pairs = c.bool();
  let common = c.below(4);
  (0..n)
    .map(|i| {
      let s = base + 3 * i;
      let mut t = match pairs && c.prob(1, 4) {
        true => format!("[{}-{}]", char::from_u32(s).unwrap(), char::from_u32(s + 1).unwrap()),
        false => char::from_u32(s).unwrap().to_string(),
      };
      t.push_str(match if c.prob(1, 3) { c.below(4) } else { common } {
        0 => "",
        1 => "x",
        2 => "[xy]*",
        _ => "(y|xx)",
      });
      t
    })
    .collect()
}

/// A set with tags: a permutation of small numbers, sometimes with repeats.
pub fn tagged(c: &mut Ctx, pats: Vec<String>) -> Vec<(String, i32)> {
  let n = pats.len();
  let mut tags: Vec<i32> = (0..n as i32).collect();
  if c.prob(1, 2) {
    // Fisher-Yates
    for i in (1..n).rev() {
      let j = c.range(0, i);
      tags.swap(i, j);
    }
  }
  if c.prob(1, 8) {
    for t in tags.iter_mut() {
      *t = *t / 2 - 2;
    }
  }
  pats.into_iter().zip(tags).collect()
}

/// A set with pairwise different tags.
pub fn tagged_unique(c: &mut Ctx, pats: Vec<String>) -> Vec<(String, i32)> {
  let n = pats.len();
  let mut tags: Vec<i32> = (0..n as i32).collect();
  for i in (1..n).rev() {
    let j = c.range(0, i);
    tags.swap(i, j);
  }
  pats.into_iter().zip(tags).collect()
}

/// A sequence that mostly follows viable transitions of the reference.
pub fn walk<T: Clone + Ord>(c: &mut Ctx, dfa: &mut Dfa<T>, syms: &[Sym], max: usize) -> Vec<Sym> {
  let mut id = Some(crate::START);
  let mut v = vec![];
  while c.more(v.len(), 0, max, 6) {
    let mut chosen = *c.pick(syms);
    if let Some(i) = id {
      if !c.prob(1, 12) && dfa.step(i, chosen).is_none() {
        let start = c.below(syms.len());
        for k in 0..syms.len() {
          let s = syms[(start + k) % syms.len()];
          if dfa.step(i, s).is_some() {
            chosen = s;
            break;
          }
        }
      }
      id = dfa.step(i, chosen);
    }
    v.push(chosen);
    if id.is_none() && c.prob(2, 3) {
      break;
    }
  }
  v
}

pub fn show_set<T: Debug>(pats: &[(String, T)]) -> String {
  pats.iter().map(|(p, t)| format!("{t:?}: {p:?}")).collect::<Vec<_>>().join(", ")
}
