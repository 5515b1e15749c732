//! C14 and C15: literal parsers against independent references.

use laps::lexer::{char_literal, int_literal, signed_int_literal, str_literal};
use pbt::{ensure_eq, fail, Ctx, R};

/// A mathematical integer: sign and magnitude; `None` magnitude: more than
/// `u128::MAX`.
fn ref_magnitude(s: &[char]) -> Option<Option<u128>> {
  let (radix, digits): (u128, &[char]) = match s {
    ['0', 'b', rest @ ..] => (2, rest),
    ['0', 'o', rest @ ..] => (8, rest),
    ['0', 'x', rest @ ..] => (16, rest),
    _ => (10, s),
  };
  if digits.is_empty() {
    return None;
  }
  let mut v = Some(0u128);
  for d in digits {
    let d = match *d {
      c @ '0'..='9' => c as u128 - '0' as u128,
      c @ 'a'..='f' => c as u128 - 'a' as u128 + 10,
      c @ 'A'..='F' => c as u128 - 'A' as u128 + 10,
      _ => return None,
    };
    if d >= radix {
      return None;
    }
    v = v.and_then(|v| v.checked_mul(radix)).and_then(|v| v.checked_add(d));
  }
  Some(v)
}

/// Largest positive and largest negative magnitude, and bits of a type.
#[derive(Clone, Copy)]
struct Ty {
  name: &'static str,
  max: u128,
  min: u128,
  bits: u32,
  un: fn(&str) -> Option<String>,
  si: fn(&str) -> Option<String>,
}

macro_rules! ty {
  ($($t:ident),*) => {
    &[$(Ty {
      name: stringify!($t),
      max: $t::MAX as u128,
      min: if $t::MIN == 0 { 0 } else { $t::MAX as u128 + 1 },
      bits: $t::BITS,
      un: |s| int_literal::<$t>(s).map(|v| v.to_string()),
      si: |s| signed_int_literal::<$t>(s).map(|v| v.to_string()),
    }),*]
  };
}
static TYPES: &[Ty] = ty!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

fn ref_unsigned(ty: &Ty, s: &[char]) -> Option<String> {
  ref_magnitude(s)?.filter(|v| *v <= ty.max).map(|v| v.to_string())
}

fn negative(m: u128) -> String {
  if m == 0 {
    "0".into()
  } else {
    format!("-{m}")
  }
}

fn ref_signed(ty: &Ty, s: &[char]) -> Option<String> {
  match s {
    ['+', rest @ ..] => ref_unsigned(ty, rest),
    ['-', rest @ ..] => {
      let m = ref_magnitude(rest)??;
      if m <= ty.min {
        Some(negative(m))
      } else if m <= ty.max {
        // fits only before the negation (unsigned types): modulo 2^bits
        let p = if ty.bits == 128 { 0u128.wrapping_sub(m) } else { (1u128 << ty.bits) - m };
        Some(p.to_string())
      } else {
        None
      }
    }
    _ => ref_unsigned(ty, s),
  }
}

fn radix_text(mut v: u128, radix: u128, upper: &mut dyn FnMut() -> bool) -> String {
  let mut s = vec![];
  loop {
    let d = std::char::from_digit((v % radix) as u32, radix as u32).unwrap();
    s.push(if upper() { d.to_ascii_uppercase() } else { d });
    v /= radix;
    if v == 0 {
      break;
    }
  }
  s.iter().rev().collect()
}

const JUNK: &[char] = &[
  '0', '1', '7', '8', '9', 'a', 'b', 'f', 'g', 'o', 'x', 'B', 'O', 'X', 'F', 'G', '+', '-', '_', ' ', '.', '٣', '１',
  'é', '\0', '\n',
];

fn gen_int(c: &mut Ctx, ty: &Ty) -> String {
  let mut s = String::new();
  match c.weighted(&[3, 2, 3, 1]) {
    1 => s.push('+'),
    2 => s.push('-'),
    3 => s.push_str(*c.pick(&["--", "-+", "+-", "++", " ", "- "])),
    _ => {}
  }
  if c.prob(1, 8) {
    // arbitrary text over the relevant characters
    let n = c.below(8);
    for _ in 0..n {
      s.push(*c.pick(JUNK));
    }
    return s;
  }
  let radix = *c.pick(&[10u128, 16, 2, 8]);
  s.push_str(match radix {
    2 => "0b",
    8 => "0o",
    16 => "0x",
    _ => "",
  });
  let zeros = if c.prob(1, 4) { c.below(4) } else { 0 };
  s.push_str(&"0".repeat(zeros));
  // a value: small, or around a limit of the type, or random
  let v = match c.weighted(&[3, 6, 3]) {
    0 => c.below(300) as u128,
    1 => {
      let base = *c.pick(&[ty.max, ty.max / 2, ty.min, ty.max / 10, ty.max / 16]);
      let d = c.below(5) as u128;
      if c.bool() {
        base.saturating_add(d)
      } else {
        base.saturating_sub(d)
      }
    }
    _ => {
      let r = ((c.choice(u64::MAX) as u128) << 64) | c.choice(u64::MAX) as u128;
      let k = c.below(128) as u32;
      r >> k
    }
  };
  let mut digits = {
    let mut up = || c.bool();
    radix_text(v, radix, &mut up)
  };
  if c.prob(1, 8) {
    // one digit more: often too large
    digits.push('0');
  }
  s.push_str(&digits);
  if c.prob(1, 5) {
    // a local change
    let mut cs: Vec<char> = s.chars().collect();
    let i = c.below(cs.len() + 1);
    match c.below(3) {
      0 => cs.insert(i, *c.pick(JUNK)),
      1 if i < cs.len() => cs[i] = *c.pick(JUNK),
      _ if i < cs.len() => {
        cs.remove(i);
      }
      _ => {}
    }
    s = cs.into_iter().collect();
  }
  s
}

pub fn c14(c: &mut Ctx) -> R {
  let main = c.pick(TYPES);
  let s = gen_int(c, main);
  c.note(|| format!("literal {s:?}"));
  c.key(&s);
  let cs: Vec<char> = s.chars().collect();
  for ty in TYPES {
    let (eu, es) = (ref_unsigned(ty, &cs), ref_signed(ty, &cs));
    if eu.is_some() {
      c.label("unsigned form accepted");
    } else if es.is_some() {
      c.label("accepted with a sign only");
    }
    c.nontrivial_if(eu.is_some() || es.is_some());
    ensure_eq!((ty.un)(&s), eu, "int_literal::<{}>({s:?})", ty.name);
    ensure_eq!((ty.si)(&s), es, "signed_int_literal::<{}>({s:?})", ty.name);
    c.checks += 2;
  }
  Ok(())
}

// ---- strings and characters ----

/// What the documentation says about a literal.
#[derive(Clone, Debug, PartialEq)]
enum Want {
  Is(String),
  Rejected,
  /// More than six digits with leading zeros in `\u{}`: either this value or
  /// rejected.
  Maybe(String),
}

/// Parses the inside of a literal up to the closing quote, which must be the
/// last character.
fn ref_quoted(s: &[char], quote: char) -> Want {
  if s.len() < 2 || s[0] != quote {
    return Want::Rejected;
  }
  let mut out = String::new();
  let mut loose = false;
  let mut i = 1;
  loop {
    let Some(&ch) = s.get(i) else { return Want::Rejected };
    i += 1;
    if ch == quote {
      break;
    }
    match ch {
      '\n' | '\r' | '\t' => return Want::Rejected,
      '\\' => {
        let Some(&e) = s.get(i) else { return Want::Rejected };
        i += 1;
        match e {
          'r' => out.push('\r'),
          'n' => out.push('\n'),
          't' => out.push('\t'),
          '0' => out.push('\0'),
          '\\' | '\'' | '"' => out.push(e),
          'x' => {
            let h: String = s[i..].iter().take(2).collect();
            i += 2;
            if h.chars().count() != 2 || !h.chars().all(|c| c.is_ascii_hexdigit()) {
              return Want::Rejected;
            }
            out.push(u8::from_str_radix(&h, 16).unwrap() as char);
          }
          'u' => {
            if s.get(i) != Some(&'{') {
              return Want::Rejected;
            }
            let Some(n) = s[i + 1..].iter().position(|c| *c == '}') else { return Want::Rejected };
            let h: String = s[i + 1..i + 1 + n].iter().collect();
            i += n + 2;
            if h.is_empty() || !h.chars().all(|c| c.is_ascii_hexdigit()) {
              return Want::Rejected;
            }
            let t = h.trim_start_matches('0');
            if t.len() > 6 {
              return Want::Rejected;
            }
            let v = if t.is_empty() { 0 } else { u32::from_str_radix(t, 16).unwrap() };
            let Some(v) = char::from_u32(v) else { return Want::Rejected };
            out.push(v);
            loose |= h.len() > 6;
          }
          _ => return Want::Rejected,
        }
      }
      c => out.push(c),
    }
  }
  if i != s.len() {
    Want::Rejected
  } else if loose {
    Want::Maybe(out)
  } else {
    Want::Is(out)
  }
}

fn ref_char(s: &[char]) -> Want {
  match ref_quoted(s, '\'') {
    Want::Is(t) if t.chars().count() != 1 => Want::Rejected,
    Want::Maybe(t) if t.chars().count() != 1 => Want::Rejected,
    w => w,
  }
}

const RAW: &[char] = &[
  'a', 'z', '0', '9', 'f', 'F', 'x', 'u', 'n', 'r', 't', '{', '}', '\\', '\'', '"', ' ', '\n', '\r', '\t', '\0',
  '\u{7f}', '\u{80}', '\u{ff}', 'é', '你', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '😂',
  '\u{10ffff}', '\u{2028}', '\u{85}', '\u{b}', '\u{c}',
];

fn gen_char(c: &mut Ctx) -> char {
  match c.weighted(&[6, 3, 1]) {
    0 => *c.pick(RAW),
    1 => (c.below(0x180) as u8) as char,
    _ => loop {
      if let Some(ch) = char::from_u32(c.below(0x110000) as u32) {
        break ch;
      }
    },
  }
}

/// One of the documented spellings of a character.
fn spell(c: &mut Ctx, ch: char, quote: char, out: &mut String) {
  let raw_ok = !matches!(ch, '\n' | '\r' | '\t' | '\\') && ch != quote;
  let simple = match ch {
    '\r' => Some('r'),
    '\n' => Some('n'),
    '\t' => Some('t'),
    '\0' => Some('0'),
    '\\' => Some('\\'),
    '\'' => Some('\''),
    '"' => Some('"'),
    _ => None,
  };
  loop {
    match c.below(4) {
      0 if raw_ok => break out.push(ch),
      1 if simple.is_some() => {
        out.push('\\');
        break out.push(simple.unwrap());
      }
      2 if (ch as u32) < 0x100 => {
        let h = format!("{:02x}", ch as u32);
        let h = if c.bool() { h.to_uppercase() } else { h };
        break out.push_str(&format!("\\x{h}"));
      }
      3 => {
        let h = format!("{:x}", ch as u32);
        let pad = c.below(7 - h.len());
        let h = format!("{}{h}", "0".repeat(pad));
        let h = if c.bool() { h.to_uppercase() } else { h };
        break out.push_str(&format!("\\u{{{h}}}"));
      }
      // replayed sequences end with zeros: always end
      _ if !raw_ok => break out.push_str(&format!("\\u{{{:x}}}", ch as u32)),
      _ => break out.push(ch),
    }
  }
}

const BAD: &[&str] = &[
  "\\", "\"", "'", "\n", "\r", "\t", "\\x", "\\x4", "\\xg0", "\\x0g", "\\u", "\\u{", "\\u{}", "\\u{d800}",
  "\\u{dfff}", "\\u{110000}", "\\u{fffffff}", "\\u{ffffffff}", "\\u{100000041}", "\\u{1000000000000000041}",
  "\\u{00000041}", "\\u{000000000000000000000041}", "\\u{g}", "\\u{ 41}", "\\u{+41}", "\\u{4_1}", "\\u41", "\\u{41",
  "\\N", "\\a", "\\v", "\\1", "\\X41", "\\U{41}", "\\?", "\\\n", "\\ ", "\\é", "\\u{é}", "\\x+1", "\\x-1", "é", "{}",
];

fn mutate(c: &mut Ctx, s: &mut String) {
  let mut cs: Vec<char> = s.chars().collect();
  let n = 1 + c.below(2);
  for _ in 0..n {
    let i = c.below(cs.len() + 1);
    match c.below(5) {
      0 => {
        let b: Vec<char> = c.pick(BAD).chars().collect();
        cs.splice(i..i, b);
      }
      1 => cs.insert(i, gen_char(c)),
      2 if i < cs.len() => cs[i] = gen_char(c),
      3 if i < cs.len() => {
        cs.remove(i);
      }
      4 => cs.truncate(i),
      _ => {}
    }
  }
  *s = cs.into_iter().collect();
}

pub fn c15_str(c: &mut Ctx) -> R {
  let text: String = {
    let v = c.vec(0, 12, 4, gen_char);
    v.into_iter().collect()
  };
  let mut lit = String::from("\"");
  for ch in text.chars() {
    spell(c, ch, '"', &mut lit);
  }
  lit.push('"');
  let mutated = c.prob(1, 2);
  if mutated {
    mutate(c, &mut lit);
  }
  c.note(|| format!("string literal {lit:?}{}", if mutated { "" } else { " spells" }));
  c.key(&lit);
  check_str(c, &lit)?;
  if !mutated {
    c.label("spelling of a known string");
    ensure_eq!(str_literal(&lit), Some(text), "str_literal({lit:?})");
    c.checks += 1;
  }
  Ok(())
}

fn check_str(c: &mut Ctx, lit: &str) -> R {
  let cs: Vec<char> = lit.chars().collect();
  let got = str_literal(lit);
  c.checks += 1;
  match ref_quoted(&cs, '"') {
    Want::Is(t) => {
      c.label("accepted");
      c.nontrivial_if(lit.contains('\\'));
      ensure_eq!(got, Some(t), "str_literal({lit:?})");
    }
    Want::Rejected => {
      c.label("rejected");
      c.nontrivial_if(cs.len() > 2 && cs[0] == '"');
      ensure_eq!(got, None::<String>, "str_literal({lit:?})");
    }
    Want::Maybe(t) => {
      if got.is_some() && got.as_ref() != Some(&t) {
        fail!("str_literal({lit:?}): got {got:?}, expected {t:?} or nothing");
      }
    }
  }
  Ok(())
}

fn check_char(c: &mut Ctx, lit: &str) -> R {
  let cs: Vec<char> = lit.chars().collect();
  let got = char_literal(lit).map(String::from);
  c.checks += 1;
  match ref_char(&cs) {
    Want::Is(t) => {
      c.label("accepted");
      c.nontrivial();
      ensure_eq!(got, Some(t), "char_literal({lit:?})");
    }
    Want::Rejected => {
      c.label("rejected");
      c.nontrivial_if(cs.len() > 1 && cs[0] == '\'');
      ensure_eq!(got, None::<String>, "char_literal({lit:?})");
    }
    Want::Maybe(t) => {
      if got.is_some() && got.as_ref() != Some(&t) {
        fail!("char_literal({lit:?}): got {got:?}, expected {t:?} or nothing");
      }
    }
  }
  Ok(())
}

pub fn c15_char(c: &mut Ctx) -> R {
  let ch = gen_char(c);
  let mut lit = String::from("'");
  spell(c, ch, '\'', &mut lit);
  lit.push('\'');
  let mutated = c.prob(1, 2);
  if mutated {
    mutate(c, &mut lit);
  }
  c.note(|| format!("character literal {lit:?}"));
  c.key(&lit);
  check_char(c, &lit)?;
  if !mutated {
    c.label("spelling of a known character");
    ensure_eq!(char_literal(&lit), Some(ch), "char_literal({lit:?})");
    c.checks += 1;
  }
  Ok(())
}

/// Arbitrary short texts over the characters that matter, both parsers.
pub fn c15_soup(c: &mut Ctx) -> R {
  let mut s = String::new();
  let n = c.below(9);
  if c.prob(3, 4) {
    s.push(*c.pick(&['"', '\'']));
  }
  for _ in 0..n {
    if c.prob(1, 3) {
      s.push_str(*c.pick(BAD));
    } else {
      s.push(*c.pick(RAW));
    }
  }
  if c.prob(1, 2) {
    s.push(*c.pick(&['"', '\'']));
  }
  c.note(|| format!("text {s:?}"));
  c.key(&s);
  check_str(c, &s)?;
  check_char(c, &s)
}
