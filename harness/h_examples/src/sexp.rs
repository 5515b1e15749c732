//! The S-expression parser.

use crate::lex::{hurt, layout, Rules};
use crate::run::{rejected, run};
use pbt::{ensure, fail, Ctx, R};

fn elem(c: &mut Ctx, depth: usize, v: &mut Vec<String>) {
  if depth == 0 || c.bool() {
    let n = 1 + c.below(4);
    let mut a: String = (0..n).map(|_| *c.pick(&['a', 'B', '7', '-', '\'', '"', '\\', 'é', '你', '+', '[', '\u{7f}', '\u{1F600}'])).collect();
    if c.prob(1, 20) {
      a.push('\u{0}');
    }
    v.push(a);
  } else {
    v.push("(".into());
    let n = c.below(5);
    for _ in 0..n {
      elem(c, depth - 1, v);
    }
    v.push(")".into());
  }
}

/// Undoes `{:?}` of a string or character.
pub fn unquote(s: &str) -> Option<String> {
  let q = s.chars().next()?;
  let s = s.strip_prefix(q)?.strip_suffix(q)?;
  let mut o = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if c != '\\' {
      o.push(c);
      continue;
    }
    match it.next()? {
      'n' => o.push('\n'),
      'r' => o.push('\r'),
      't' => o.push('\t'),
      '0' => o.push('\0'),
      'u' => {
        let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
        o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
      }
      c => o.push(c),
    }
  }
  Some(o)
}

thread_local! {
  static RULES: std::cell::RefCell<Rules> = std::cell::RefCell::new(Rules::new(&[r"\s+", r"[()]", r"[^\s()]+"]));
}

pub fn c28(c: &mut Ctx) -> R {
  let mut toks = vec![];
  let n = c.below(5);
  for _ in 0..n {
    let depth = c.below(5);
    elem(c, depth, &mut toks);
  }
  if c.prob(1, 4) && !toks.is_empty() {
    let i = c.below(toks.len());
    if c.bool() {
      toks.remove(i);
    } else {
      toks[i] = c.pick(&["(", ")"]).to_string();
    }
  }
  let src = if c.prob(1, 4) { layout(c, &toks).replace(' ', "\u{3000}") } else { layout(c, &toks) };
  let mut src = src;
  hurt(c, &mut src, &["(", ")", "\0", "\u{10ffff}", "\u{85}"]);
  c.note(|| format!("input {src:?}"));
  c.key(&src);
  let (lexed, _) = RULES.with(|r| r.borrow_mut().lex(&src));
  // complete statements, and whether something malformed follows
  let (mut depth, mut complete, mut statements, mut malformed) = (0, 0, 0, false);
  for (i, t) in lexed.iter().enumerate() {
    match t.text.as_str() {
      "(" => depth += 1,
      ")" if depth == 0 => {
        malformed = true;
        break;
      }
      ")" => depth -= 1,
      _ => {}
    }
    if depth == 0 {
      complete = i + 1;
      statements += 1;
    }
  }
  malformed |= depth > 0;
  c.label(if malformed { "malformed" } else { "well-formed" });
  c.nontrivial_if(lexed.len() >= 5);
  let r = run("sexp", &[], &src)?;
  c.checks += 1;
  if malformed {
    rejected(&r, "an unbalanced expression")?;
  } else {
    ensure!(r.code == Some(0), "well-formed expressions were rejected with {:?}: {}", r.code, r.err);
  }
  // decode the printed trees
  let mut got = vec![];
  let mut lines = r.out.lines().map(str::trim).peekable();
  let mut kind: Option<(usize, String)> = None;
  while let Some(l) = lines.next() {
    if l == "kind: Paren(" || l == "kind: Atom(" {
      let rule = if l == "kind: Atom(" { 2 } else { 1 };
      let text = lines.next().and_then(|s| unquote(s.strip_suffix(',')?));
      match text {
        Some(t) => kind = Some((rule, t)),
        None => fail!("cannot read the output {:?}", r.out),
      }
    } else if let Some(s) = l.strip_prefix("span: Span(").and_then(|s| s.strip_suffix("),")) {
      match kind.take() {
        Some((rule, text)) => got.push((rule, text, s.to_string())),
        None => fail!("cannot read the output {:?}", r.out),
      }
    }
  }
  let want: Vec<_> = lexed[..complete]
    .iter()
    .map(|t| (t.rule, t.text.clone(), format!("{}:{}-{}:{}", t.start.0, t.start.1, t.end.0, t.end.1)))
    .collect();
  ensure!(got == want, "the printed expressions have the tokens {got:?}, expected {want:?}");
  let tops = r.out.lines().filter(|l| *l == "Elem(").count();
  ensure!(tops == statements, "{tops} statements were printed, expected {statements}");
  // nesting of lists
  let mut depth = 0;
  let mut deepest = 0;
  for t in &lexed[..complete] {
    match t.text.as_str() {
      "(" => depth += 1,
      ")" => depth -= 1,
      _ => {}
    }
    deepest = deepest.max(depth);
  }
  let lists = r.out.lines().filter(|l| l.trim() == "SExp(").count();
  let opened = lexed[..complete].iter().filter(|t| t.text == "(").count();
  // every list is printed as Elem::SExp(SExp(..))
  ensure!(lists == 2 * opened, "{lists} list nodes were printed for {opened} lists");
  c.label_if(deepest >= 3, "nested deeply");
  Ok(())
}
