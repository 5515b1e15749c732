//! C24 (and the printed part of C23): what located diagnostics print.

use crate::capture;
use crate::spans::{check_summary, file_name, histories};
use crate::streams::scratch_dir;
use laps::span::{FileType, Location, Span};
use pbt::{ensure, fail, Ctx, R};
use std::path::PathBuf;
use unicode_width::UnicodeWidthChar;

pub fn c23_summary(c: &mut Ctx) -> R {
  let hs = {
    // the history itself prints as well: capture and drop it
    let (r, _) = capture::stderr(|| histories(c));
    r?
  };
  for (s, e, w) in hs {
    let ((), out) = capture::stderr(|| s.log_summary());
    let text = String::from_utf8_lossy(&out).into_owned();
    c.note(|| format!("{e} errors, {w} warnings: summary {text:?}"));
    check_summary(&text, e, w)?;
    ensure!(s.error_num() == e && s.warning_num() == w, "the summary changed the counts");
    c.checks += 1;
  }
  Ok(())
}

const TAB: usize = 2;

fn width(ch: char) -> usize {
  match ch {
    '\t' => TAB,
    _ => ch.width().unwrap_or(0),
  }
}

fn gen_line(c: &mut Ctx, max: usize) -> String {
  let style = c.below(3);
  let v = c.vec(0, max, 6, |c| match style {
    0 => *c.pick(&['a', 'b', ' ', 'x', '\t']),
    1 => *c.pick(&['a', '\t', '你', '😂', 'é', 'e', '\u{301}', '\u{200b}', '\u{0}', '\r', '\u{ff21}', '|', '1', '^', '\u{2028}', '\u{feff}']),
    _ => *c.pick(&['\u{301}', '\u{200b}', 'a', '你', '\u{200d}']),
  });
  v.into_iter().collect()
}

struct Written {
  path: PathBuf,
  /// Lines without their line ends.
  lines: Vec<Vec<char>>,
  readable: bool,
}

impl Drop for Written {
  fn drop(&mut self) {
    if self.path.is_file() {
      let _ = std::fs::remove_file(&self.path);
    }
  }
}

fn write_file(c: &mut Ctx) -> Written {
  let kind = c.weighted(&[12, 1, 1, 1]);
  let mut n = c.below(9);
  if c.prob(1, 12) {
    // more digits in line numbers
    n += *c.pick(&[90, 95, 990]);
  }
  let long = n > 20;
  let mut lines: Vec<String> = vec![];
  for i in 0..n {
    lines.push(if long && i + 6 < n && i > 4 { format!("line{i}") } else { gen_line(c, 12) });
  }
  if n > 0 && c.prob(1, 300) {
    // a line of very many columns
    let l = c.below(n);
    let k = *c.pick(&[33_000, 66_000]);
    lines[l].push_str(&c.pick(&["a", "你", "\t"]).repeat(k));
    lines[l].push_str(&gen_line(c, 12));
  }
  let mut bytes: Vec<u8> = vec![];
  let crlf = c.prob(1, 8);
  let last_newline = c.bool();
  for (i, l) in lines.iter().enumerate() {
    bytes.extend_from_slice(l.as_bytes());
    if i + 1 < n || last_newline {
      bytes.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
    }
  }
  let path = scratch_dir().join("input file.txt");
  let _ = std::fs::remove_file(&path);
  let mut readable = true;
  match kind {
    0 => std::fs::write(&path, &bytes).unwrap(),
    1 => {
      // missing
      readable = false;
    }
    2 => {
      // not UTF-8
      let at = c.below(bytes.len() + 1);
      bytes.insert(at, 0xff);
      std::fs::write(&path, &bytes).unwrap();
      readable = false;
    }
    _ => {
      readable = false;
      c.note(|| "the path is a directory".into());
      return Written { path: scratch_dir(), lines: vec![], readable };
    }
  }
  let text = String::from_utf8_lossy(&bytes).into_owned();
  let mut v: Vec<Vec<char>> = text.split('\n').map(|l| l.chars().collect()).collect();
  if v.last().is_some_and(|l| l.is_empty()) {
    v.pop();
  }
  c.note(|| {
    let mut t = format!("{text:?}");
    if t.len() > 20_000 {
      t = v.iter().map(|l| if l.len() > 1000 { format!("<{} characters>", l.len()) } else { l.iter().collect() }).collect::<Vec<String>>().join("\n");
    }
    format!("file kind {kind}, content {t}")
  });
  c.key(&text);
  Written { path, lines: v, readable }
}

/// Expected text of a source line.
fn shown(l: &[char]) -> String {
  let s: String = l.iter().collect();
  s.replace('\t', &" ".repeat(TAB)).trim_end().to_string()
}

/// One printed line: a numbered source line or a marker line.
#[derive(Debug)]
enum Printed<'a> {
  Source(u64, &'a str),
  Mark(&'a str),
}

/// The columns of the bars between line numbers and text.
fn bars(text: &str) -> Vec<usize> {
  let row = |l: &str| {
    let t = l.trim_start_matches([' ', '.']);
    let t = t.trim_start_matches(|c: char| c.is_ascii_digit()).trim_start_matches(' ');
    t.starts_with('|').then(|| l.len() - t.len())
  };
  text.split('\n').filter_map(row).collect()
}

fn parse(text: &str) -> Vec<Printed<'_>> {
  let mut v = vec![];
  for l in text.split('\n') {
    let t = l.trim_start_matches([' ', '.']);
    let digits = t.len() - t.trim_start_matches(|c: char| c.is_ascii_digit()).len();
    let rest = t[digits..].trim_start_matches(' ');
    let Some(rest) = rest.strip_prefix('|') else { continue };
    let rest = rest.strip_prefix(' ').unwrap_or(rest);
    if digits > 0 {
      if let Ok(n) = t[..digits].parse() {
        v.push(Printed::Source(n, rest));
      }
    } else {
      v.push(Printed::Mark(rest));
    }
  }
  v
}

pub fn c24(c: &mut Ctx) -> R {
  let f = write_file(c);
  let inside = f.readable && f.lines.iter().any(|l| !l.is_empty()) && c.prob(4, 5);
  let (start, end) = if inside {
    // a span inside the file: from one character to the same or a later one
    let ok: Vec<usize> = (0..f.lines.len()).filter(|i| !f.lines[*i].is_empty()).collect();
    let k = c.below(ok.len());
    let a = ok[k];
    let k2 = if c.prob(1, 2) { k } else { (k + c.below(9)).min(ok.len() - 1) };
    let k2 = if c.prob(1, 8) { ok.len() - 1 } else { k2 };
    let b = ok[k2];
    let ca = match c.prob(1, 2) && f.lines[a].len() > 1000 {
      true => f.lines[a].len() - c.below(5),
      false => 1 + c.below(f.lines[a].len()),
    };
    let cb = if a == b { ca + c.below(f.lines[a].len() - ca + 1) } else { 1 + c.below(f.lines[b].len()) };
    (Location { line: a as u32 + 1, col: ca as u32 }, Location { line: b as u32 + 1, col: cb as u32 })
  } else {
    let is_dir = f.path.is_dir();
    let any = |c: &mut Ctx| {
      let line = match c.below(4) {
        0 => c.below(4) as u32,
        1 => c.below(15) as u32,
        // every line of a directory is an error, so do not count to 2^32
        2 if is_dir => 1 + c.below(1000) as u32,
        2 => *c.pick(&[0, 1, 9, 10, 99, 100, 999, 1000, 99999, 1 << 20, u32::MAX - 1, u32::MAX]),
        _ => f.lines.len() as u32 + c.below(3) as u32,
      };
      let col = match c.below(3) {
        0 => c.below(4) as u32,
        1 => c.below(20) as u32,
        _ => *c.pick(&[0, 1, 100, 1 << 16, u32::MAX - 1, u32::MAX]),
      };
      Location { line, col }
    };
    (any(c), any(c))
  };
  let file_type = if !inside && c.prob(1, 6) {
    [FileType::Buffer, FileType::Stdin][c.below(2)].clone()
  } else {
    FileType::File(f.path.clone().into_boxed_path())
  };
  let name = file_name(&file_type);
  let is_file = matches!(file_type, FileType::File(_));
  let mut span = Span::new(file_type);
  let mut tail = span.clone();
  tail.update_loc(end);
  span.update_loc(start);
  span.update_end(&tail);
  let message = *c.pick(&["boom", "expected `x`, found 1", "é {} 42 | ^^"]);
  let op = c.below(3);
  c.note(|| format!("span {span}, operation {}", ["log_error", "log_fatal_error", "log_warning"][op]));
  c.key(&(start.line, start.col, end.line, end.col));
  let ((), out) = capture::stderr(|| match op {
    0 => {
      span.log_error(format_args!("{message}"));
    }
    1 => {
      span.log_fatal_error(format_args!("{message}"));
    }
    _ => span.log_warning(format_args!("{message}")),
  });
  let text = String::from_utf8(out).map_err(|_| "the diagnostic is not UTF-8".to_string())?;
  c.note(|| format!("printed:\n{text}"));
  c.checks += 1;
  // message and location
  let Some(rest) = text.find(message).map(|i| &text[i + message.len()..]) else {
    fail!("the message {message:?} is not printed: {text:?}");
  };
  let loc = format!("{name}:{}:{}", start.line, start.col);
  let Some(rest) = rest.find(&loc).map(|i| &rest[i + loc.len()..]) else {
    fail!("the location {loc:?} is not printed: {text:?}");
  };
  ensure!(!rest.starts_with(|c: char| c.is_ascii_digit()), "the location {loc:?} is not printed: {text:?}");
  if !is_file || !f.readable {
    c.label("no readable source");
    return Ok(());
  }
  // every printed source line bears its own number and text
  let printed = parse(rest);
  let mut gutter: Option<usize> = None;
  let mut seen: Vec<u64> = vec![];
  for p in &printed {
    let Printed::Source(n, t) = p else { continue };
    let lo = start.line.min(end.line) as u64;
    let hi = start.line.max(end.line) as u64;
    if start.line == 0 {
      // no such line: only that nothing breaks
      break;
    }
    if inside {
      ensure!(*n >= lo && *n <= hi, "line {n} is printed for a span over the lines {lo} to {hi}: {text:?}");
      ensure!(seen.last().map_or(true, |l| l < n), "line {n} is printed after line {:?}: {text:?}", seen.last());
    }
    seen.push(*n);
    let Some(line) = n.checked_sub(1).and_then(|i| f.lines.get(i as usize)) else { continue };
    let want = shown(line);
    let Some(g) = t.trim_end().strip_suffix(want.as_str()) else {
      fail!("line {n} is printed as {t:?}, its text is {want:?}");
    };
    ensure!(g.chars().all(|c| c == ' ' || c == '|'), "line {n} is printed as {t:?}, its text is {want:?}");
    if !want.is_empty() {
      ensure!(g.len() <= 4, "line {n} is printed as {t:?}, its text is {want:?}");
      ensure!(gutter.map_or(true, |x| x == g.len()), "the source lines are not aligned: {text:?}");
      gutter = Some(g.len());
    }
    c.checks += 1;
  }
  if !inside {
    c.label("span outside of the file or reversed");
    return Ok(());
  }
  let bars = bars(rest);
  ensure!(bars.iter().all(|b| *b == bars[0]), "the bars are not aligned, they are at {bars:?}: {text:?}");
  let (a, b) = (start.line as u64, end.line as u64);
  ensure!(seen.first() == Some(&a), "the first line of the span is not shown: {text:?}");
  ensure!(seen.last() == Some(&b), "the last line of the span is not shown: {text:?}");
  let gutter = gutter.unwrap_or(if a == b { 0 } else { 2 }) as i64;
  let marks_after = |n: u64| -> Option<Vec<i64>> {
    let i = printed.iter().position(|p| matches!(p, Printed::Source(m, _) if *m == n))?;
    match printed.get(i + 1) {
      Some(Printed::Mark(m)) => {
        Some(m.chars().enumerate().filter(|(_, c)| *c == '^').map(|(i, _)| i as i64 - gutter).collect())
      }
      _ => None,
    }
  };
  // columns of a character: first one and the one behind it
  let cells = |l: Location| {
    let line = &f.lines[l.line as usize - 1];
    let before: usize = line[..l.col as usize - 1].iter().map(|c| width(*c)).sum();
    (before as i64, (before + width(line[l.col as usize - 1])) as i64)
  };
  let (s1, s2) = cells(start);
  let (e1, e2) = cells(end);
  c.label_if(s2 - s1 != 1 || e2 - e1 != 1, "wide or zero-width character at an end");
  c.label_if(f.lines[start.line as usize - 1].contains(&'\t'), "tab");
  if a == b {
    c.label("single line");
    c.nontrivial_if(start.col > 1);
    let Some(marks) = marks_after(a) else { fail!("no markers under line {a}: {text:?}") };
    if s1 < e2 {
      let want: Vec<i64> = (s1..e2).collect();
      ensure!(marks == want, "markers at columns {marks:?}, the span covers {want:?}: {text:?}");
    } else {
      ensure!(
        marks.len() == 1 && (marks[0] == s1 || marks[0] == s1 - 1),
        "markers at columns {marks:?}, the span has no width at {s1}: {text:?}"
      );
    }
    c.checks += 1;
  } else {
    c.label("several lines");
    c.label_if(b - a > 5, "lines left out");
    c.nontrivial();
    for (n, x, y, what) in [(a, s1, s2, "first"), (b, e1, e2, "last")] {
      let Some(marks) = marks_after(n) else { fail!("no marker under the {what} line {n}: {text:?}") };
      let ok = marks.len() == 1 && if x < y { marks[0] >= x && marks[0] < y } else { marks[0] == x || marks[0] == x - 1 };
      ensure!(ok, "marker of the {what} character at {marks:?}, it covers {x}..{y}: {text:?}");
      c.checks += 1;
    }
  }
  Ok(())
}
