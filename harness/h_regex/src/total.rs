//! C07: building from arbitrary pattern texts.

use crate::common::*;
use laps_regex::mir::{Mir, MirBuilder};
use laps_regex::re::{Error, RegexBuilder, RegexMatcher};
use pbt::{ensure, fail, Ctx, R};
use refre::{Mode, Re, Unsupported};

const FRAGMENTS: &[&str] = &[
  "a", "b", "z", "0", "é", "𝄞", "\u{10ffff}", "\\n", "\\x41", "\\x{1F600}", "\\xff", "\\x80", "\\u0041", ".", "*", "+", "?", "*?", "+?", "??",
  "|", "(", ")", "(?:", "(?P<n>", "(?i)", "(?-u)", "(?s)", "(?m)", "(?U)", "(?x) ", "(?i-u:", "[", "]", "[^", "[a-z]", "[^a-z]", "[a-", "[z-a]", "[\\d", "-",
  "{", "}", "{2}", "{2,}", "{1,3}", "{3,1}", "{0}", "{0,0}", "{,2}", "{1}?", "{2,}?", "^", "$", "\\b", "\\B", "\\A", "\\z", "\\Z", "\\d", "\\W", "\\s", "\\pL",
  "\\p{Greek}", "\\p{Nope}", "\\", "\\1", "\\Q", "[[:alpha:]]", "[^\\s\\S]", "[a&&b]", "[a--a]", "[\\w--\\d]", "(?-u:[^\\x00-\\xff])", "(?-u:\\xff)",
  "(?-u:\\W)", "(?-u:.)", "(?s-u:.)", "(?-u:[\\x80-\\xff])", "(?-u:\\xc3\\xa9)", "(?=a)", "(?<=a)", "(?!a)", "#", " ", "\n", "\t", "\0", "/", "\"", "'", "(?-u:\\b)",
  "(?:a|)", "()", "(|a)", "(a*)*", "(?:)", "[\\x{D7FF}-\\x{E000}]", "\\x{D800}", "\\x{110000}", "\\p{any}", "\\P{any}", "(?m:^)", "(?-u:[[:^alpha:]])",
];

fn pattern(c: &mut Ctx) -> String {
  match c.weighted(&[6, 5, 2, 1, 2]) {
    0 => c.vec(0, 9, 3, |c| *c.pick(FRAGMENTS)).concat(),
    1 => {
      // a valid pattern with a few edits
      let mode = if c.bool() { Mode::Bytes } else { Mode::Chars };
      let mut s: Vec<char> = pattern_set(c, mode, 1).remove(0).chars().take(60).collect();
      let n = c.below(4);
      for _ in 0..n {
        let i = c.below(s.len() + 1);
        match c.below(4) {
          0 if i < s.len() => {
            s.remove(i);
          }
          1 if i < s.len() => {
            let x = s[i];
            s.insert(i, x);
          }
          2 => {
            for (k, x) in c.pick(FRAGMENTS).chars().enumerate() {
              s.insert(i + k, x);
            }
          }
          _ => s.insert(i, *c.pick(&['(', ')', '[', ']', '*', '?', '|', '\\', '{', '}', '^', '$', '+', 'a', '\u{0}'])),
        }
      }
      s.into_iter().collect()
    }
    2 => c.vec(0, 8, 4, |c| char::from_u32(c.choice(0x7f) as u32).unwrap()).into_iter().collect(),
    3 => c.vec(0, 6, 3, |c| char::from_u32(c.choice(0x10ffff) as u32).unwrap_or('x')).into_iter().collect(),
    _ => {
      let pool = [refre::gen::REAL_CHARS, refre::gen::REAL_BYTES];
      let p = *c.pick(&pool);
      c.pick(p).to_string()
    }
  }
}

#[derive(Debug, PartialEq)]
enum Want {
  Parse,
  Unsupported(Unsupported),
  Good,
}

fn classify(p: &str, utf8: bool, mode: Mode) -> Want {
  match refre::parse(p, utf8) {
    Err(_) => Want::Parse,
    Ok(h) => match Re::from_hir(&h, mode) {
      Ok(_) => Want::Good,
      Err(e) => Want::Unsupported(e),
    },
  }
}

fn one<C: S>(c: &mut Ctx, pats: &[(String, u16)], utf8: bool, par: Option<bool>) -> R
where
  Mir<C, u16>: MirBuilder,
{
  let want: Vec<Want> = pats.iter().map(|(p, _)| classify(p, utf8, C::MODE)).collect();
  if want.contains(&Want::Unsupported(Unsupported::TooBig)) {
    c.label("too-big");
    return Ok(());
  }
  let res: Vec<Re> = pats.iter().filter_map(|(p, _)| refre::parse(p, utf8).ok().and_then(|h| Re::from_hir(&h, C::MODE).ok())).collect();
  if res.iter().map(|r| r.positions()).sum::<usize>() > 120 || wide(c, &res) {
    c.label("too-big");
    return Ok(());
  }
  let what = format!("{} mode, {} syntax", if C::MODE == Mode::Chars { "char" } else { "byte" }, if utf8 { "UTF-8" } else { "bytes" });
  let b = pats.iter().fold(RegexBuilder::new(), |b, (p, t)| b.add(p, *t)).enable_par(par);
  let got: Result<RegexMatcher<C, u16>, _> = if utf8 { b.build() } else { b.build_bytes() };
  c.checks += 1;
  let bad = pats.is_empty() || want.iter().any(|w| *w != Want::Good);
  match &got {
    Ok(_) => {
      c.label("built");
      ensure!(!bad, "{what}: building succeeded although {want:?}");
    }
    Err(e) => {
      ensure!(bad, "{what}: building failed with `{e}` although all patterns are supported");
      match e {
        Error::EmptyBuilder => {
          c.label("empty-list");
          ensure!(pats.is_empty(), "{what}: reported an empty list");
        }
        Error::Regex(_, tag) => {
          c.label("parse-error");
          ensure!(!pats.is_empty(), "{what}: parse error for an empty list");
          let named: Vec<_> = pats.iter().zip(&want).filter(|((_, t), _)| t == tag).collect();
          if named.is_empty() {
            fail!("{what}: parse error names tag {tag}, which was never added");
          }
          ensure!(
            named.iter().any(|(_, w)| **w == Want::Parse),
            "{what}: parse error names tag {tag}, whose pattern parses"
          );
        }
        Error::Mir(_) => {
          c.label("unsupported");
          ensure!(
            want.iter().any(|w| matches!(w, Want::Unsupported(_))),
            "{what}: reported `{e}` although the patterns are {want:?}"
          );
        }
      }
      ensure!(!e.to_string().is_empty(), "{what}: error without a text");
    }
  }
  Ok(())
}

/// Whether the expressions distinguish so many symbols that a build is slow.
fn wide(c: &mut Ctx, res: &[Re]) -> bool {
  let rare = c.prob(1, 40);
  let tagged: Vec<(Re, ())> = res.iter().map(|r| (r.clone(), ())).collect();
  let mut dfa = refre::Dfa::new(&tagged);
  if !dfa.nfa.quick_to_divide() {
    return true;
  }
  let syms = refre::test_symbols(&dfa.nfa.cuts(0x10ffff, []), Mode::Chars);
  (syms.len() > 250 && !rare) || dfa.explore(&syms, 600).is_none()
}

pub fn c07(c: &mut Ctx) -> R {
  let n = c.weighted(&[6, 3, 2, 1]);
  let n = if c.prob(1, 40) { 0 } else { n + 1 };
  let pats: Vec<String> = (0..n).map(|_| pattern(c)).collect();
  let pats: Vec<(String, u16)> = tagged(c, pats).into_iter().map(|(p, t)| (p, (t + 10) as u16)).collect();
  let par = *c.pick(&[None, Some(false), Some(true)]);
  c.note(|| format!("{} (enable_par {par:?})", show_set(&pats)));
  c.key(&pats);
  let plain = pats.iter().all(|(p, _)| p.chars().all(char::is_alphanumeric));
  c.nontrivial_if(!plain);
  one::<char>(c, &pats, true, par)?;
  one::<char>(c, &pats, false, par)?;
  one::<u8>(c, &pats, true, par)?;
  one::<u8>(c, &pats, false, par)
}
