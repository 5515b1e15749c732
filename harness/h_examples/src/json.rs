//! The JSON parser.

use crate::known::{judge, Verdict, HEX};
use crate::lex::{hurt, damage, layout, Rules, Tok};
use crate::run::{rejected, run, Ran};
use crate::sexp::unquote;
use pbt::{ensure, Ctx, R};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
enum V {
  Null,
  Bool(bool),
  /// Bits of the number.
  Num(u64),
  Str(String),
  Arr(Vec<V>),
  Obj(BTreeMap<String, V>),
}

fn string(c: &mut Ctx) -> String {
  let mut s = String::from("\"");
  let n = c.below(6);
  for _ in 0..n {
    match c.below(6) {
      0..=2 => s.push(*c.pick(&['a', 'b', 'c', 'u', 'n', '/', '\'', ' ', 'é', '你', '\u{1F600}', '\u{7f}', '{', ','])),
      3 => {
        s.push('\\');
        s.push(*c.pick(&['"', '\\', '/', 'b', 'f', 'n', 'r', 't']));
      }
      _ => {
        // no surrogates: the example rejects them
        let v = match c.below(4) {
          0 => c.below(0x80) as u32,
          1 => 0xe000 + c.below(0x2000) as u32,
          _ => c.below(0xd800) as u32,
        };
        let h = if c.bool() { format!("{v:04x}") } else { format!("{v:04X}") };
        s += &format!("\\u{h}");
      }
    }
  }
  s + "\""
}

fn number(c: &mut Ctx) -> String {
  let mut s = String::new();
  if c.prob(1, 3) {
    s.push('-');
  }
  match c.below(4) {
    0 => s.push('0'),
    _ => {
      s.push((b'1' + c.below(9) as u8) as char);
      let n = c.below(12);
      for _ in 0..n {
        s.push((b'0' + c.below(10) as u8) as char);
      }
    }
  }
  if c.prob(1, 3) {
    s.push('.');
    let n = 1 + c.below(4);
    for _ in 0..n {
      s.push((b'0' + c.below(10) as u8) as char);
    }
  }
  if c.prob(1, 4) {
    s.push(*c.pick(&['e', 'E']));
    s += c.pick(&["", "+", "-"]);
    s += &c.below(330).to_string();
  }
  s
}

fn value(c: &mut Ctx, depth: usize, v: &mut Vec<String>) {
  let k = if depth == 0 { 0 } else { c.below(3) };
  match k {
    0 => match c.below(5) {
      0 => v.push("null".into()),
      1 => v.push(c.pick(&["true", "false"]).to_string()),
      2 => v.push(number(c)),
      _ => v.push(string(c)),
    },
    1 => {
      v.push("[".into());
      let n = c.below(5);
      for i in 0..n {
        if i > 0 {
          v.push(",".into());
        }
        value(c, depth - 1, v);
      }
      v.push("]".into());
    }
    _ => {
      v.push("{".into());
      let n = c.below(5);
      for i in 0..n {
        if i > 0 {
          v.push(",".into());
        }
        v.push(if c.bool() { format!("\"{}\"", c.pick(&["a", "b", "k"])) } else { string(c) });
        v.push(":".into());
        value(c, depth - 1, v);
      }
      v.push("}".into());
    }
  }
}

/// Content of a string literal; nothing for surrogates.
fn unescape(s: &str) -> Option<String> {
  let cs: Vec<char> = s[1..s.len() - 1].chars().collect();
  let mut o = String::new();
  let mut i = 0;
  while i < cs.len() {
    if cs[i] != '\\' {
      o.push(cs[i]);
      i += 1;
      continue;
    }
    match cs[i + 1] {
      'b' => o.push('\u{8}'),
      'f' => o.push('\u{c}'),
      'n' => o.push('\n'),
      'r' => o.push('\r'),
      't' => o.push('\t'),
      'u' => {
        let h: String = cs[i + 2..i + 6].iter().collect();
        o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
        i += 4;
      }
      c => o.push(c),
    }
    i += 2;
  }
  Some(o)
}

/// `unescape` as the example does it: decimal digits only count in `\u`
/// escapes, other characters are taken for escapes of their own.  An error if
/// the code of a character gets too large.
fn unescape_known(s: &str) -> Result<Option<String>, TooLarge> {
  let mut o = String::new();
  let mut escape = false;
  let mut missing = 0;
  let mut hex = 0;
  for c in s[1..s.len() - 1].chars() {
    if !escape {
      match c {
        '\\' => escape = true,
        c => o.push(c),
      }
    } else if missing > 0 && c.is_ascii_digit() {
      hex = u32::checked_mul(hex, 16).ok_or(TooLarge)? + c as u32 - '0' as u32;
      missing -= 1;
      if missing == 0 {
        match char::from_u32(hex) {
          Some(c) => o.push(c),
          None => return Ok(None),
        }
        hex = 0;
        escape = false;
      }
    } else if c == 'u' {
      missing = 4;
    } else {
      o.push(match c {
        '"' | '\\' | '/' => c,
        'b' => '\u{8}',
        'f' => '\u{c}',
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        _ => return Ok(None),
      });
      escape = false;
    }
  }
  Ok(Some(o))
}

struct TooLarge;

fn parse_all(lexed: &[Tok], bad: bool, known: bool) -> Option<V> {
  let mut t = lexed;
  if bad {
    return None;
  }
  parse(&mut t, if known { |s| unescape_known(s).unwrap_or(None) } else { unescape }).filter(|_| t.is_empty())
}

fn parse(t: &mut &[Tok], unescape: fn(&str) -> Option<String>) -> Option<V> {
  let (f, rest) = t.split_first()?;
  *t = rest;
  Some(match (f.rule, f.text.as_str()) {
    (1, "true") => V::Bool(true),
    (1, "false") => V::Bool(false),
    (1, _) => V::Null,
    (2, n) => V::Num(n.parse::<f64>().ok()?.to_bits()),
    (3, s) => V::Str(unescape(s)?),
    (_, "[") => {
      let mut v = vec![];
      if t.first()?.text == "]" {
        *t = &t[1..];
        return Some(V::Arr(v));
      }
      loop {
        v.push(parse(t, unescape)?);
        let n = t.first()?.text.as_str();
        *t = &t[1..];
        match n {
          "," => {}
          "]" => break V::Arr(v),
          _ => return None,
        }
      }
    }
    (_, "{") => {
      let mut v = BTreeMap::new();
      if t.first()?.text == "}" {
        *t = &t[1..];
        return Some(V::Obj(v));
      }
      loop {
        let k = t.first()?;
        if k.rule != 3 || t.get(1)?.text != ":" {
          return None;
        }
        *t = &t[2..];
        let k = unescape(&k.text)?;
        v.insert(k, parse(t, unescape)?);
        let n = t.first()?.text.as_str();
        *t = &t[1..];
        match n {
          "," => {}
          "}" => break V::Obj(v),
          _ => return None,
        }
      }
    }
    _ => return None,
  })
}

/// Reads what `{:#?}` printed.
fn decode(s: &[&str], i: &mut usize) -> Option<V> {
  let l = s.get(*i)?.trim_end_matches(',');
  *i += 1;
  let leaf = |i: &mut usize| {
    let x = s.get(*i)?.strip_suffix(',')?;
    *i += 1;
    (*s.get(*i)? == ")" || *s.get(*i)? == "),").then_some(())?;
    *i += 1;
    Some(x)
  };
  Some(match l {
    "Null" => V::Null,
    "Bool(" => V::Bool(leaf(i)?.parse().ok()?),
    "Number(" => V::Num(leaf(i)?.parse::<f64>().ok()?.to_bits()),
    "String(" => V::Str(unquote(leaf(i)?)?),
    "Array(" => {
      let mut v = vec![];
      match *s.get(*i)? {
        "[]," => *i += 1,
        "[" => {
          *i += 1;
          while *s.get(*i)? != "]," {
            v.push(decode(s, i)?);
          }
          *i += 1;
        }
        _ => return None,
      }
      *i += 1;
      V::Arr(v)
    }
    "Object(" => {
      let mut v = BTreeMap::new();
      match *s.get(*i)? {
        "{}," => *i += 1,
        "{" => {
          *i += 1;
          while *s.get(*i)? != "}," {
            // "key": Value(
            let line = *s.get(*i)?;
            let at = line.rfind("\": ")?;
            let (k, rest) = (&line[..at + 1], &line[at + 3..]);
            let mut copy: Vec<&str> = s.to_vec();
            copy[*i] = rest;
            let x = decode(&copy, i)?;
            if v.insert(unquote(k)?, x).is_some() {
              return None;
            }
          }
          *i += 1;
        }
        _ => return None,
      }
      *i += 1;
      V::Obj(v)
    }
    _ => return None,
  })
}

fn decoded(r: &Ran) -> Option<V> {
  let lines: Vec<&str> = r.out.lines().map(|l| l.trim_start_matches(' ')).collect();
  let mut i = 0;
  let v = decode(&lines, &mut i)?;
  (i == lines.len()).then_some(v)
}

/// Prints a value as JSON in another way.
fn print(c: &mut Ctx, v: &V, o: &mut Vec<String>) {
  let quote = |c: &mut Ctx, s: &str| {
    let mut o = String::from("\"");
    for x in s.chars() {
      if (x as u32) < 0x20 || x == '"' || x == '\\' || (x as u32) < 0x10000 && c.prob(1, 4) {
        o += &format!("\\u{:04x}", x as u32);
      } else {
        o.push(x);
      }
    }
    o + "\""
  };
  match v {
    V::Null => o.push("null".into()),
    V::Bool(b) => o.push(b.to_string()),
    V::Num(b) => {
      let f = f64::from_bits(*b);
      o.push(if f.is_infinite() { format!("{}1e999", if f < 0.0 { "-" } else { "" }) } else { format!("{f:e}") })
    }
    V::Str(s) => o.push(quote(c, s)),
    V::Arr(x) => {
      o.push("[".into());
      for (i, e) in x.iter().enumerate() {
        if i > 0 {
          o.push(",".into());
        }
        print(c, e, o);
      }
      o.push("]".into());
    }
    V::Obj(x) => {
      o.push("{".into());
      for (i, (k, e)) in x.iter().enumerate() {
        if i > 0 {
          o.push(",".into());
        }
        o.push(quote(c, k));
        o.push(":".into());
        print(c, e, o);
      }
      o.push("}".into());
    }
  }
}

thread_local! {
  static RULES: std::cell::RefCell<Rules> = std::cell::RefCell::new(Rules::new(&[
    r"[ \r\n\t]+",
    r"true|false|null",
    r"-?([0-9]|[1-9][0-9]+)(\.[0-9]+)?([Ee][+-]?[0-9]+)?",
    r#""([^\x00-\x1f"\\]|\\(["\\/bfnrt]|u[0-9a-fA-F]{4}))*""#,
    r".",
  ]));
}

pub fn c28(c: &mut Ctx) -> R {
  let mut toks = vec![];
  let depth = c.below(5);
  value(c, depth, &mut toks);
  if c.prob(1, 3) {
    damage(c, &mut toks, &["[", "]", "{", "}", ":", ",", "null", "\"a\"", "1", "01", "-", "1.", "tru", "nul", "x", "\"\\q\"", "\"", "\"\\u12g4\"", "\"\t\"", "\"\\ud800\"", ".5", "+1", "2e", "é"]);
  }
  let mut src = layout(c, &toks);
  hurt(c, &mut src, &["\"", "\\", "\u{1}", "0", "-", "e", ".", "t", "[", "}", "\u{10ffff}", "\0"]);
  c.note(|| format!("input {src:?}"));
  c.key(&src);
  let (lexed, bad) = RULES.with(|r| r.borrow_mut().lex(&src));
  let want = parse_all(&lexed, bad, false);
  c.nontrivial_if(toks.len() >= 5);
  c.label(if want.is_some() { "well-formed" } else { "malformed" });
  let r = run("json", &[], &src);
  c.checks += 1;
  decide(c, &r, &want, &lexed, bad)?;
  let Some(got) = r.ok().and_then(|r| decoded(&r)) else { return Ok(()) };
  if c.prob(1, 3) {
    let mut toks = vec![];
    print(c, &got, &mut toks);
    let again = layout(c, &toks);
    c.note(|| format!("printed and parsed again: {again:?}"));
    let r = run("json", &[], &again);
    c.checks += 1;
    c.label("printed and parsed again");
    let (lexed, bad) = RULES.with(|r| r.borrow_mut().lex(&again));
    let want = Some(got);
    decide(c, &r, &want, &lexed, bad)?;
  }
  Ok(())
}

fn decide(c: &mut Ctx, r: &Result<Ran, String>, want: &Option<V>, lexed: &[Tok], bad: bool) -> R {
  judge(c, &[HEX], |known| {
    if known.is_empty() {
      return Verdict::Is(compare(r, want));
    }
    if lexed.iter().any(|t| t.rule == 3 && unescape_known(&t.text).is_err()) {
      return Verdict::Unknown;
    }
    Verdict::Is(compare(r, &parse_all(lexed, bad, true)))
  })
}

fn compare(r: &Result<Ran, String>, want: &Option<V>) -> R {
  let r = r.as_ref().map_err(|e| e.clone())?;
  let Some(v) = want else {
    rejected(r, "a malformed document")?;
    ensure!(r.out.is_empty(), "a malformed document was printed: {:?}", r.out);
    return Ok(());
  };
  ensure!(r.code == Some(0), "a well-formed document was rejected with {:?}: {}", r.code, r.err);
  let got = decoded(r).ok_or_else(|| format!("cannot read the output {:?}", r.out))?;
  ensure!(got == *v, "got {got:?}, expected {v:?}");
  Ok(())
}
