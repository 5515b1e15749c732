//! Generators of pattern texts.

use crate::{Mode, Sym};
use pbt::Ctx;

#[derive(Clone, Debug, PartialEq)]
pub enum P {
  Empty,
  Lit(Sym),
  /// Ranges, negated or not.
  Class(bool, Vec<(Sym, Sym)>),
  Raw(&'static str),
  Cat(Vec<P>),
  Alt(Vec<P>),
  /// Repetition with bounds; `None` is unbounded.
  Rep(Box<P>, u32, Option<u32>),
  /// Redundant group: 0 `(..)`, 1 `(?:..)`, 2 `(?P<n>..)`-free variant `((..))`.
  Group(u8, Box<P>),
}

/// Characters at which encodings, ranges or neighbour computations change.
pub const EDGE_CHARS: &[Sym] = &[
  0, 1, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x7fe, 0x7ff, 0x800, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfffe, 0xffff, 0x10000,
  0x10001, 0x10ffe, 0x10fff, 0x11000, 0x10fffe, 0x10ffff, 0x61, 0x62, 0x0a,
];
pub const EDGE_BYTES: &[Sym] = &[0, 1, 2, 0x0a, 0x41, 0x61, 0x62, 0x7e, 0x7f, 0x80, 0x81, 0xc3, 0xfe, 0xff];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Profile {
  /// Two to four letters: automata with much overlap.
  Tiny,
  /// Letters, digits and punctuation.
  Ascii,
  /// Symbols at the edges of the encoding.
  Edge,
  /// Many different symbols.
  Wide,
}

pub struct Gen {
  pub mode: Mode,
  pub profile: Profile,
  /// Remaining positions this pattern may use.
  pub budget: i64,
  /// Whether `\w`, `\d`, `.` and the like may be used.
  pub perl: bool,
}

impl Gen {
  pub fn new(c: &mut Ctx, mode: Mode) -> Gen {
    let profile = [Profile::Tiny, Profile::Ascii, Profile::Edge, Profile::Wide][c.weighted(&[6, 3, 3, 1])];
    let perl = profile != Profile::Tiny && c.prob(1, 3);
    Gen { mode, profile, budget: 24, perl }
  }

  pub fn sym(&self, c: &mut Ctx) -> Sym {
    match self.profile {
      Profile::Tiny => b'a' as Sym + c.choice(2) as Sym,
      Profile::Ascii => *c.pick(b"abcxyz019_+-*/=<>\"' \n.ABZ") as Sym,
      Profile::Edge => match self.mode {
        Mode::Chars => *c.pick(EDGE_CHARS),
        Mode::Bytes => *c.pick(EDGE_BYTES),
      },
      Profile::Wide => match self.mode {
        Mode::Chars => match c.below(4) {
          0 => 0x21 + c.choice(0x5d) as Sym,
          1 => 0xa1 + c.choice(0x200) as Sym,
          2 => 0x4e00 + c.choice(0x1000) as Sym,
          _ => 0x1f600 + c.choice(0x40) as Sym,
        },
        Mode::Bytes => c.choice(255) as Sym,
      },
    }
  }

  fn fix(&self, s: Sym) -> Sym {
    if self.mode == Mode::Chars && (0xd800..0xe000).contains(&s) {
      0xe000
    } else {
      s.min(crate::max_sym(self.mode))
    }
  }

  pub fn class(&self, c: &mut Ctx) -> P {
    let neg = c.prob(1, 5);
    let v = c.vec(1, 4, 1, |c| {
      let a = self.sym(c);
      match c.below(3) {
        0 => (a, a),
        1 => {
          let b = self.sym(c);
          (a.min(b), a.max(b))
        }
        _ => {
          let b = self.fix(a.saturating_add(c.choice(3) as Sym));
          (a.min(b), a.max(b))
        }
      }
    });
    let v = if neg {
      // a negated class must not be empty
      let max = crate::max_sym(self.mode);
      if v.iter().any(|(l, r)| *l == 0 && *r == max) {
        vec![(0, 0)]
      } else {
        let total: u64 = v.iter().map(|(l, r)| (*r - *l) as u64 + 1).sum();
        if total >= max as u64 / 2 { vec![v[0].0].into_iter().map(|x| (x, x)).collect() } else { v }
      }
    } else {
      v
    };
    P::Class(neg, v)
  }

  pub fn atom(&mut self, c: &mut Ctx) -> P {
    self.budget -= 1;
    let raws: &[&'static str] = match self.mode {
      Mode::Chars => {
        // the last ones have hundreds of ranges
        if c.prob(19, 20) {
          &["\\s", ".", "\\S", "(?s:.)", "(?i:k)", "(?i:ab)", "[[:alpha:]]", "[[:word:]]", "(?-u:\\d)", "(?-u:\\w)", "\\p{Tifinagh}", "\\P{Ogham}"]
        } else {
          &["\\d", "\\D", "\\p{Greek}", "\\w", "\\W"]
        }
      }
      Mode::Bytes => &["\\d", "\\w", "\\s", ".", "\\D", "\\W", "(?s:.)", "(?i:a)", "[[:alpha:]]"],
    };
    match c.weighted(&[8, 4, if self.perl { 3 } else { 0 }]) {
      0 => P::Lit(self.sym(c)),
      1 => self.class(c),
      _ => P::Raw(c.pick(raws)),
    }
  }

  pub fn pat(&mut self, c: &mut Ctx, depth: usize) -> P {
    if depth == 0 || self.budget <= 1 {
      return self.atom(c);
    }
    match c.weighted(&[6, 6, 5, 6, 1, 1]) {
      0 => self.atom(c),
      1 => P::Cat(c.vec(1, 5, 2, |c| self.pat(c, depth - 1))),
      2 => P::Alt(c.vec(1, 4, 2, |c| self.pat(c, depth - 1))),
      3 => {
        let before = self.budget;
        let p = self.pat(c, depth - 1);
        let used = (before - self.budget).max(1);
        let (lo, hi) = match c.weighted(&[6, 4, 4, 1, 1, 1, 1]) {
          0 => (0, None),
          1 => (1, None),
          2 => (0, Some(1)),
          3 => {
            let n = c.choice(3) as u32;
            (n, Some(n))
          }
          4 => (c.choice(3) as u32, None),
          5 => {
            let n = c.choice(2) as u32;
            (n, Some(n + c.choice(3) as u32))
          }
          _ => (0, Some(c.choice(4) as u32)),
        };
        let copies = hi.unwrap_or(lo + 1).max(1) as i64;
        self.budget -= used * (copies - 1);
        P::Rep(Box::new(p), lo, hi)
      }
      4 => P::Group(c.choice(2) as u8, Box::new(self.pat(c, depth - 1))),
      _ => P::Empty,
    }
  }

  /// A list of literal words with shared prefixes.
  pub fn words(&mut self, c: &mut Ctx, max: usize) -> P {
    let v = c.vec(1, max, 4, |c| P::Cat(c.vec(1, 6, 3, |c| P::Lit(self.sym(c)))));
    P::Alt(v)
  }

  /// Much of one thing: long literals, high counts, many ranges or branches,
  /// deep nesting.
  pub fn stretched(&mut self, c: &mut Ctx) -> P {
    let p = match c.below(6) {
      0 => P::Cat(c.vec(7, 70, 20, |c| P::Lit(self.sym(c)))),
      1 => {
        let (lo, more) = (c.choice(24) as u32, c.choice(24) as u32);
        let hi = match c.below(3) {
          0 => Some(lo + 5),
          1 => Some(lo + more.max(1)),
          _ => None,
        };
        let x = match c.below(3) {
          0 => P::Cat(c.vec(1, 3, 1, |c| P::Lit(self.sym(c)))),
          _ => self.atom(c),
        };
        P::Rep(Box::new(x), lo + 5, hi.map(|h| h + 5))
      }
      2 => {
        let n = 6 + c.below(40) as Sym;
        let (base, step) = match self.mode {
          Mode::Chars => (*c.pick(&[0x21, 0x61, 0x7f0, 0x4e00, 0xd760, 0xfff0]), 2 + c.choice(5) as Sym),
          Mode::Bytes => (c.choice(60) as Sym, 2 + c.choice(1) as Sym),
        };
        let v = (0..n).map(|i| base + i * step).map(|l| (self.fix(l), self.fix(l + c.choice(1) as Sym))).collect();
        P::Class(c.prob(1, 5), v)
      }
      3 => P::Alt(c.vec(9, 40, 15, |c| P::Cat(c.vec(1, 4, 2, |c| P::Lit(self.sym(c)))))),
      4 => {
        let mut p = self.atom(c);
        let n = 6 + c.below(15);
        for _ in 0..n {
          p = match c.below(5) {
            0 => P::Rep(Box::new(p), 0, None),
            1 => P::Rep(Box::new(p), 0, Some(1)),
            2 => P::Rep(Box::new(p), 1, None),
            3 => P::Cat(vec![self.atom(c), p]),
            _ => P::Alt(vec![p, self.atom(c)]),
          };
        }
        p
      }
      _ => {
        let w = P::Cat(c.vec(7, 30, 10, |c| P::Lit(self.sym(c))));
        let x = self.atom(c);
        P::Cat(vec![P::Rep(Box::new(x), 0, None), w])
      }
    };
    match c.below(4) {
      0 => P::Cat(vec![p, self.atom(c)]),
      1 => P::Alt(vec![self.atom(c), p]),
      _ => p,
    }
  }

  pub fn any(&mut self, c: &mut Ctx) -> P {
    if c.prob(1, 25) {
      return self.stretched(c);
    }
    if c.prob(1, 6) {
      self.words(c, 8)
    } else {
      let d = c.range(1, 4);
      self.pat(c, d)
    }
  }
}

/// An equivalent pattern.
pub fn rewrite(c: &mut Ctx, p: &P, depth: usize) -> P {
  let p = match p {
    P::Cat(v) => P::Cat(v.iter().map(|x| rewrite(c, x, depth + 1)).collect()),
    P::Alt(v) => P::Alt(v.iter().map(|x| rewrite(c, x, depth + 1)).collect()),
    P::Rep(x, l, h) => P::Rep(Box::new(rewrite(c, x, depth + 1)), *l, *h),
    P::Group(k, x) => P::Group(*k, Box::new(rewrite(c, x, depth + 1))),
    x => x.clone(),
  };
  if !c.prob(1, 3) || depth > 6 {
    return p;
  }
  match p {
    P::Alt(mut v) if v.len() > 1 => {
      if c.bool() {
        v.reverse();
      } else {
        v.rotate_left(1);
      }
      P::Alt(v)
    }
    P::Rep(x, 0, None) => match c.below(3) {
      0 => P::Rep(Box::new(P::Rep(x, 1, None)), 0, Some(1)),
      1 => P::Rep(Box::new(P::Rep(x, 0, Some(1))), 0, None),
      _ => P::Alt(vec![P::Empty, P::Rep(x, 1, None)]),
    },
    P::Rep(x, 1, None) => P::Cat(vec![(*x).clone(), P::Rep(x, 0, None)]),
    P::Rep(x, 0, Some(1)) => P::Alt(vec![P::Empty, *x]),
    P::Class(false, v) if v.len() > 1 => P::Alt(v.into_iter().map(|r| P::Class(false, vec![r])).collect()),
    P::Cat(v) if v.len() > 1 => {
      let k = c.range(1, v.len() - 1);
      P::Cat(vec![P::Cat(v[..k].to_vec()), P::Cat(v[k..].to_vec())])
    }
    x => match c.below(3) {
      0 => P::Group(0, Box::new(x)),
      1 => P::Alt(vec![x.clone(), x]),
      _ => P::Cat(vec![P::Empty, x]),
    },
  }
}

fn lit(s: Sym, mode: Mode, in_class: bool) -> String {
  match mode {
    Mode::Bytes if s >= 0x80 => format!("\\x{:02X}", s),
    _ => {
      let ch = char::from_u32(s).unwrap();
      if ch.is_ascii_alphanumeric() {
        ch.to_string()
      } else if mode == Mode::Bytes || s < 0x20 || (0x7f..0xa0).contains(&s) || s % 2 == 0 {
        format!("\\x{{{:X}}}", s)
      } else if ch.is_ascii() || in_class {
        if ch.is_ascii_punctuation() { format!("\\{ch}") } else { ch.to_string() }
      } else {
        ch.to_string()
      }
    }
  }
}

/// Precedence: 0 alternation, 1 concatenation, 2 repetition operand.
pub fn print(p: &P, mode: Mode, prec: u8) -> String {
  let wrap = |s: String, w: bool| if w { format!("(?:{s})") } else { s };
  match p {
    P::Empty => "(?:)".into(),
    P::Lit(s) => lit(*s, mode, false),
    P::Class(neg, v) => {
      let mut o = String::from(if *neg { "[^" } else { "[" });
      for (l, r) in v {
        o.push_str(&lit(*l, mode, true));
        if r != l {
          o.push('-');
          o.push_str(&lit(*r, mode, true));
        }
      }
      o.push(']');
      o
    }
    P::Raw(s) => s.to_string(),
    P::Cat(v) if v.is_empty() => "(?:)".into(),
    P::Cat(v) if v.len() == 1 => print(&v[0], mode, prec),
    P::Cat(v) => wrap(v.iter().map(|x| print(x, mode, 1)).collect(), prec > 1),
    P::Alt(v) if v.is_empty() => "(?:)".into(),
    P::Alt(v) if v.len() == 1 => print(&v[0], mode, prec),
    P::Alt(v) => wrap(
      v.iter().map(|x| if *x == P::Empty { String::new() } else { print(x, mode, 0) }).collect::<Vec<_>>().join("|"),
      prec > 0,
    ),
    P::Rep(x, l, h) => {
      let op = match (l, h) {
        (0, None) => "*".to_string(),
        (1, None) => "+".to_string(),
        (0, Some(1)) => "?".to_string(),
        (l, None) => format!("{{{l},}}"),
        (l, Some(h)) if l == h => format!("{{{l}}}"),
        (l, Some(h)) => format!("{{{l},{h}}}"),
      };
      wrap(format!("{}{}", print(x, mode, 2), op), prec > 1)
    }
    P::Group(0, x) => format!("({})", print(x, mode, 0)),
    P::Group(1, x) => format!("(?:{})", print(x, mode, 0)),
    P::Group(_, x) => format!("(({}))", print(x, mode, 0)),
  }
}

/// The text of a whole pattern.
pub fn text(p: &P, mode: Mode) -> String {
  match mode {
    Mode::Chars => print(p, mode, 0),
    Mode::Bytes => format!("(?s-u){}", print(p, mode, 0)),
  }
}

/// Patterns in the style of real lexers.
pub const REAL_CHARS: &[&str] = &[
  "\\s+",
  "if|else|while|return|int|void",
  "[_a-zA-Z][_a-zA-Z0-9]*",
  "[0-9]|[1-9][0-9]+",
  "0|[1-9][0-9]*|0x[0-9a-fA-F]+",
  "\"([^\\\\\"\\n]|\\\\.)*\"",
  "'([^'\\\\\\n\\r\\t]|\\\\'|\\\\n|\\\\u\\{[0-9a-f]{1,3}\\})'",
  "//[^\\n]*",
  "/\\*([^*]|\\*+[^*/])*\\*+/",
  "\\+|-|\\*|/|%|<<|>>|<=|>=|==|!=|<|>|=",
  "[-+]?[0-9]+(\\.[0-9]+)?([eE][-+]?[0-9]+)?",
  "[()\\[\\]{},;:]",
  "[^\\s()]+",
  "\\.\\.\\.|\\.",
  "r\"[^\"]*\"|r#\"([^\"]|\"[^#])*\"#",
  "true|false|null",
  "[a-z]+(-[a-z]+)*",
  "(ab|a)*b?",
];
pub const REAL_BYTES: &[&str] = &[
  "(?-u:\\s+)",
  "if|else|while",
  "[_a-zA-Z][_a-zA-Z0-9]*",
  "[0-9]|[1-9][0-9]+",
  "(?-u)\"[^\"\\x00]*\"",
  "(?-u:[\\x80-\\xff]+)",
  "(?-u)\\x00[^\\x00]*\\xff",
  "\\+|-|\\*|/|<<|<=|<|==|=",
  "(?s-u:/\\*([^*]|\\*+[^*/])*\\*+/)",
  "é|ab",
  "(?-u)é+|[a-f]é",
];
