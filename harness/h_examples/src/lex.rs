//! Reference lexer: the longest run of input that can begin a token.

use refre::{parse, Dfa, Mode, Re, Sym, START};

pub struct Rules {
  dfa: Dfa<usize>,
  skip: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
  /// Index of the rule.
  pub rule: usize,
  pub text: String,
  /// Line and column of the first and last character.
  pub start: (u32, u32),
  pub end: (u32, u32),
}

impl Rules {
  /// Rule 0 is the one to skip.
  pub fn new(patterns: &[&str]) -> Self {
    let res: Vec<(Re, usize)> = patterns
      .iter()
      .enumerate()
      .map(|(i, p)| (Re::from_hir(&parse(p, true).expect("pattern"), Mode::Chars).ok().expect("supported"), i))
      .collect();
    Rules { dfa: Dfa::new(&res), skip: 0 }
  }

  /// The tokens up to the first text that is none, and whether there was such.
  pub fn lex(&mut self, s: &str) -> (Vec<Tok>, bool) {
    let cs: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let (mut i, mut line, mut col) = (0, 1, 0);
    while i < cs.len() {
      let (from, mut state, mut start) = (i, START, None);
      while i < cs.len() {
        let Some(n) = self.dfa.step(state, cs[i] as Sym) else { break };
        state = n;
        if cs[i] == '\n' {
          line += 1;
          col = 0;
        } else {
          col += 1;
        }
        start.get_or_insert((line, col));
        i += 1;
      }
      match self.dfa.tag(state) {
        Some(t) if i > from => {
          if *t != self.skip {
            v.push(Tok { rule: *t, text: cs[from..i].iter().collect(), start: start.unwrap(), end: (line, col) });
          }
        }
        _ => return (v, true),
      }
    }
    (v, false)
  }
}

/// Joins tokens with random layout that mostly keeps them apart.
pub fn layout(c: &mut pbt::Ctx, toks: &[String]) -> String {
  let mut s = String::new();
  let style = c.below(4);
  let space = |c: &mut pbt::Ctx| match style {
    0 => " ".to_string(),
    1 => "\n".to_string(),
    _ => {
      let n = 1 + c.below(3);
      (0..n).map(|_| *c.pick(&[" ", "\n", "\t", "\r\n", "  ", " \n "])).collect()
    }
  };
  if c.prob(1, 4) {
    s += &space(c);
  }
  // crosses the boundaries of the reader's buffer
  let long = if c.prob(1, 15) { c.below(toks.len() + 1) } else { usize::MAX };
  for (i, t) in toks.iter().enumerate() {
    if i == long {
      let n = c.below(3000);
      s += &c.pick(&[" ", "\n"]).repeat(n);
    }
    if i > 0 {
      let (a, b) = (toks[i - 1].chars().last().unwrap_or(' '), t.chars().next().unwrap_or(' '));
      let glue = |x: char| x.is_alphanumeric() || x == '_' || x == '.';
      let op = |x: char| "<>=!&|".contains(x);
      let apart = glue(a) && glue(b) || op(a) && op(b) || c.prob(1, 300);
      if apart || c.bool() {
        s += &space(c);
      }
    }
    s += t;
  }
  if c.bool() {
    s += &space(c);
  }
  s
}

/// Damages the text of a program.
pub fn hurt(c: &mut pbt::Ctx, src: &mut String, extra: &[&str]) {
  let at: Vec<usize> = src.char_indices().map(|x| x.0).collect();
  if at.is_empty() || !c.prob(1, 8) {
    return;
  }
  let i = *c.pick(&at);
  match c.below(3) {
    0 => src.truncate(i),
    1 => {
      src.remove(i);
    }
    _ => src.insert_str(i, c.pick(extra)),
  }
}

/// Damages a token list.
pub fn damage(c: &mut pbt::Ctx, toks: &mut Vec<String>, extra: &[&str]) {
  for _ in 0..1 + c.below(2) {
    let n = toks.len();
    match c.below(5) {
      0 if n > 0 => {
        let i = c.below(n);
        toks.remove(i);
      }
      1 if n > 0 => {
        let i = c.below(n);
        let t = toks[i].clone();
        toks.insert(i, t);
      }
      2 if n > 1 => {
        let (i, j) = (c.below(n), c.below(n));
        toks.swap(i, j);
      }
      3 if n > 0 => {
        let i = c.below(n);
        toks[i] = c.pick(extra).to_string();
      }
      _ => {
        let i = c.below(n + 1);
        toks.insert(i, c.pick(extra).to_string());
      }
    }
  }
}
