//! Names, documentation and literals of generated definitions.

use pbt::Ctx;

/// A Rust string literal.
pub fn lit(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 || c as u32 == 0x7f || ((c as u32) >= 0x80 && !c.is_alphanumeric()) => {
        o.push_str(&format!("\\u{{{:x}}}", c as u32))
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

/// A raw string literal, if the text permits it.
pub fn raw_lit(s: &str) -> String {
  if s.chars().any(|c| c == '\r' || (c as u32) < 0x20 && c != '\n' && c != '\t' || (c as u32 >= 0x80 && !c.is_alphanumeric())) {
    return lit(s);
  }
  let mut n = 0;
  while s.contains(&format!("\"{}", "#".repeat(n))) {
    n += 1;
  }
  format!("r{h}\"{s}\"{h}", h = "#".repeat(n))
}

const WORDS: &[&str] = &[
  "Ident", "Int", "Kw", "Op", "Number", "String", "Space", "Add", "Sub", "Shl", "A", "B", "XY", "Http2", "Left", "Brace", "Float",
  "Char", "End", "Of", "File", "Comment", "Token", "Kind", "Some", "None", "Ok", "Err", "Skip", "Unknown", "Span", "Result", "Eof2", "Self2",
];
const RAW: &[&str] = &["r#type", "r#Match", "r#fn"];

/// A fresh variant name.
pub fn name(c: &mut Ctx, used: &mut Vec<String>) -> String {
  if c.prob(1, 25) {
    let r = c.pick(RAW).to_string();
    if !used.contains(&r) {
      used.push(r.clone());
      return r;
    }
  }
  let n = 1 + c.below(3);
  let mut s: String = (0..n).map(|_| *c.pick(WORDS)).collect();
  while used.contains(&s) || s == "Self" {
    s.push_str(c.pick(&["X", "Y2", "z", "Q"]));
  }
  used.push(s.clone());
  s
}

/// The words of a name, in lower case.
pub fn name_words(name: &str) -> String {
  let name = name.strip_prefix("r#").unwrap_or(name);
  let mut words: Vec<String> = vec![];
  for ch in name.chars() {
    if ch.is_ascii_uppercase() || words.is_empty() {
      words.push(String::new());
    }
    words.last_mut().unwrap().push(ch.to_ascii_lowercase());
  }
  words.join(" ")
}

const DOC: &[&str] = &[
  "Identifier", "keyword", "The", "number", "{}", "{0}", "{{x}}", "{", "}", "`code`", "a \"quoted\" one", "back\\slash", "é", "ÀB", "你好", "e.g.",
  "i.e. this", "100%", "%s", "//", "*", "#[doc]", "<T>", "'c'", "-", "A", "Z's", "{name}", "$x", "\\n", "\t", "a  b", "!", "?",
];

/// Documentation lines; none, blank ones, or some text.
pub fn doc(c: &mut Ctx) -> Vec<String> {
  if c.prob(1, 4) {
    return vec![];
  }
  if c.prob(1, 12) {
    return vec![" ".into(); 1 + c.below(2)];
  }
  let lines = 1 + c.weighted(&[6, 2, 1]);
  let mut v: Vec<String> = vec![];
  for _ in 0..lines {
    let n = 1 + c.below(4);
    let t: Vec<&str> = (0..n).map(|_| *c.pick(DOC)).collect();
    let t = t.join(" ");
    let t = t.trim().to_string();
    // a blank line inside is not covered by the documented form
    let t = if t.is_empty() { "x".to_string() } else { t };
    let pad = ["", " ", "  ", " "][c.below(4)];
    v.push(format!("{pad}{t}{}", ["", "", " "][c.below(3)]));
  }
  // final periods, of which one is dropped, directly after text
  let l = v.last_mut().unwrap();
  let t = l.trim_end().trim_end_matches('.').trim_end().to_string();
  let t = if t.trim().is_empty() { format!("{t}x") } else { t };
  *l = if c.bool() { format!("{t}{}{}", [".", ".", ".", "...", ".."][c.below(5)], ["", " "][c.below(2)]) } else { t };
  v
}

/// What a variant with this documentation and name is called.
pub fn prompt(doc: &[String], name: &str) -> String {
  let t: Vec<&str> = doc.iter().map(|l| l.trim()).collect();
  let t = t.join(" ");
  let t = t.trim();
  if t.is_empty() {
    return name_words(name);
  }
  let low: String = t.chars().map(|c| c.to_ascii_lowercase()).collect();
  match low.strip_suffix('.') {
    Some(s) => s.to_string(),
    None => low,
  }
}

/// Attributes spelling the documentation.
pub fn doc_attrs(c: &mut Ctx, doc: &[String]) -> String {
  let mut o = String::new();
  for l in doc {
    match c.below(4) {
      0 if !l.trim_end().is_empty() => o.push_str(&format!("  #[doc = {}]\n", lit(l))),
      1 => o.push_str(&format!("  #[doc = {}]\n", raw_lit(l))),
      _ if l.starts_with('/') => o.push_str(&format!("  #[doc = {}]\n", lit(l))),
      _ => o.push_str(&format!("  ///{l}\n")),
    }
    if c.prob(1, 10) {
      o.push_str("  #[allow(dead_code)]\n");
    }
  }
  o
}
