//! The calculator.

use crate::lex::{hurt, damage, layout, Rules, Tok};
use crate::known::{judge, Verdict, RIGHT};
use crate::run::{rejected, run, Ran};
use pbt::{ensure, Ctx, R};

#[derive(Clone, Debug)]
enum E {
  Num(String),
  Neg(Box<E>),
  Paren(Box<E>),
  Bin(Box<E>, char, Box<E>),
}

fn number(c: &mut Ctx) -> String {
  let d = |c: &mut Ctx, n| c.vec(1, n, 1, |c| (b'0' + c.below(10) as u8) as char).into_iter().collect::<String>();
  let mut s = match c.below(4) {
    0 => String::new(),
    _ => d(c, 6),
  };
  if s.is_empty() || c.prob(1, 3) {
    s += ".";
    s += &d(c, 4);
  }
  if c.prob(1, 5) {
    s.push(*c.pick(&['e', 'E']));
    s += c.pick(&["", "+", "-"]);
    s += &d(c, 2);
  }
  s
}

fn expr(c: &mut Ctx, depth: usize) -> E {
  if depth == 0 {
    return E::Num(number(c));
  }
  match c.weighted(&[3, 2, 1, 6]) {
    0 => E::Num(number(c)),
    1 => E::Paren(Box::new(expr(c, depth - 1))),
    2 => E::Neg(Box::new(expr(c, depth - 1))),
    _ => E::Bin(Box::new(expr(c, depth - 1)), *c.pick(&['+', '-', '*', '/', '%']), Box::new(expr(c, depth - 1))),
  }
}

fn prec(op: char) -> u8 {
  if "+-".contains(op) {
    1
  } else {
    2
  }
}

/// Prints with only the parentheses that are needed.
fn print(e: &E, min: u8, v: &mut Vec<String>) {
  let paren = |v: &mut Vec<String>, f: &dyn Fn(&mut Vec<String>)| {
    v.push("(".into());
    f(v);
    v.push(")".into());
  };
  match e {
    E::Num(n) => v.push(n.clone()),
    E::Paren(e) => paren(v, &|v| print(e, 1, v)),
    E::Neg(e) => {
      v.push("-".into());
      print(e, 3, v);
    }
    E::Bin(a, op, b) => {
      let p = prec(*op);
      let f = |v: &mut Vec<String>| {
        print(a, p, v);
        v.push(op.to_string());
        print(b, p + 1, v);
      };
      if p < min {
        paren(v, &f);
      } else {
        f(v);
      }
    }
  }
}

fn value(e: &E) -> f64 {
  match e {
    E::Num(n) => n.parse().expect("number"),
    E::Paren(e) => value(e),
    E::Neg(e) => -value(e),
    E::Bin(a, op, b) => {
      let (a, b) = (value(a), value(b));
      match op {
        '+' => a + b,
        '-' => a - b,
        '*' => a * b,
        '/' => a / b,
        _ => a % b,
      }
    }
  }
}

/// Shunting-yard evaluation of arbitrary tokens; nothing if malformed.
/// `right`: binary operators of one precedence from right to left.
fn evaluate(toks: &[Tok], right: bool) -> Option<f64> {
  let mut vals: Vec<f64> = vec![];
  let mut ops: Vec<char> = vec![];
  fn apply(vals: &mut Vec<f64>, op: char) -> Option<()> {
    let b = vals.pop()?;
    if op == 'n' {
      vals.push(-b);
      return Some(());
    }
    let a = vals.pop()?;
    vals.push(match op {
      '+' => a + b,
      '-' => a - b,
      '*' => a * b,
      '/' => a / b,
      '%' => a % b,
      _ => return None,
    });
    Some(())
  }
  let p = |op: char| match op {
    'n' => 3,
    '(' => 0,
    o => prec(o),
  };
  let mut operand = true;
  for t in toks {
    if t.rule == 1 {
      if !operand {
        return None;
      }
      vals.push(t.text.parse().ok()?);
      operand = false;
      continue;
    }
    let ch = t.text.chars().next()?;
    match (ch, operand) {
      ('-', true) => ops.push('n'),
      ('(', true) => ops.push('('),
      (')', false) => {
        loop {
          match ops.pop()? {
            '(' => break,
            o => apply(&mut vals, o)?,
          }
        }
      }
      ('+' | '-' | '*' | '/' | '%', false) => {
        while ops.last().is_some_and(|o| p(*o) >= prec(ch) + right as u8) {
          let o = ops.pop().unwrap();
          apply(&mut vals, o)?;
        }
        ops.push(ch);
        operand = true;
      }
      _ => return None,
    }
  }
  if operand {
    return None;
  }
  while let Some(o) = ops.pop() {
    if o == '(' {
      return None;
    }
    apply(&mut vals, o)?;
  }
  (vals.len() == 1).then(|| vals[0])
}

thread_local! {
  static RULES: std::cell::RefCell<Rules> =
    std::cell::RefCell::new(Rules::new(&[r"\s+", r"[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?", r"."]));
}

pub fn c28(c: &mut Ctx) -> R {
  let depth = c.below(6);
  let e = expr(c, depth);
  let mut toks = vec![];
  print(&e, 1, &mut toks);
  let damaged = c.prob(1, 3);
  if damaged {
    damage(c, &mut toks, &["+", "-", "*", "/", "%", "(", ")", "1", ".5", "1.", "2e", "x", ".", "é", "3e+", "="]);
  }
  let mut src = layout(c, &toks);
  hurt(c, &mut src, &[".", "e", "-", "(", ")", "0", "\0", "\u{10ffff}", "\u{85}"]);
  c.note(|| format!("input {src:?}"));
  c.key(&src);
  let (lexed, bad) = RULES.with(|r| r.borrow_mut().lex(&src));
  let want = if bad { None } else { evaluate(&lexed, false) };
  if !damaged && !bad && lexed.iter().map(|t| &t.text).eq(toks.iter()) {
    assert_eq!(want.map(f64::to_bits), Some(value(&e).to_bits()).filter(|_| !value(&e).is_nan()).or(want.map(f64::to_bits)), "references differ");
    assert!(want.is_some());
  }
  c.nontrivial_if(toks.len() >= 5);
  c.label(if want.is_some() { "well-formed" } else { "malformed" });
  let r = run("calc", &[], &src);
  c.checks += 1;
  judge(c, &[RIGHT], |known| {
    let want = if known.is_empty() { want } else { evaluate(&lexed, true).filter(|_| !bad) };
    Verdict::Is(compare(&r, want))
  })
}

fn compare(r: &Result<Ran, String>, want: Option<f64>) -> R {
  let r = r.as_ref().map_err(|e| e.clone())?;
  match want {
    Some(v) => {
      ensure!(r.code == Some(0), "a well-formed expression was rejected with {:?}: {}", r.code, r.err);
      ensure!(r.out == format!("{v}\n"), "result {:?}, expected {v}", r.out);
    }
    None => {
      rejected(r, "a malformed expression")?;
      ensure!(r.out.is_empty(), "a malformed expression has a result: {:?}", r.out);
    }
  }
  Ok(())
}
