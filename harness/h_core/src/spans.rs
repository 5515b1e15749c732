//! C26 and C23: spans, locations and counters.

use laps::span::{Error, FileType, Location, Span};
use laps::{
  log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning, return_error,
};
use pbt::{ensure, ensure_eq, fail, Ctx, R};
use std::path::Path;

pub fn gen_file_type(c: &mut Ctx) -> FileType {
  match c.below(3) {
    0 => FileType::Buffer,
    1 => FileType::Stdin,
    _ => FileType::File(Box::from(Path::new(*c.pick(&["/nonexistent/a.txt", "rel/b c.txt", "é.txt"])))),
  }
}

pub fn file_name(f: &FileType) -> String {
  match f {
    FileType::Buffer => "<buffer>".into(),
    FileType::Stdin => "<stdin>".into(),
    FileType::File(p) => p.display().to_string(),
  }
}

fn step(l: Location, newline: bool) -> Location {
  if newline {
    Location { line: l.line + 1, col: 0 }
  } else {
    Location { line: l.line, col: l.col + 1 }
  }
}

#[derive(Clone, Copy, Debug)]
struct M {
  input: usize,
  start: Location,
  end: Location,
}

fn ch(c: &mut Ctx) -> char {
  *c.pick(&['a', '\n', ' ', '\t', '\r', 'é', '你', '😂', '\u{2028}', '\u{85}', '\u{b}', '\0', '\u{a0a}', '\u{10a}'])
}

fn byte(c: &mut Ctx) -> u8 {
  *c.pick(&[b'a', b'\n', b'\r', b'\t', 0, 0x0b, 0x85, 0xff, 0x8a, 0x0c])
}

pub fn c26(c: &mut Ctx) -> R {
  let mut pool: Vec<(Span, M)> = vec![];
  let inputs = 1 + c.below(3);
  let mut types = vec![];
  let origin = Location { line: 1, col: 0 };
  for input in 0..inputs {
    let f = gen_file_type(c);
    types.push(file_name(&f));
    pool.push((Span::new(f), M { input, start: origin, end: origin }));
  }
  let n = 1 + c.below(40);
  let mut extended = false;
  let mut newline = false;
  for _ in 0..n {
    let i = c.below(pool.len());
    let j = c.below(pool.len());
    let other = pool[j].0.clone();
    let mo = pool[j].1;
    let (s, m) = &mut pool[i];
    match c.weighted(&[5, 3, 4, 2, 3, 5, 5, 3, 2]) {
      0 => {
        let x = ch(c);
        c.note(|| format!("#{i}.update({x:?})"));
        s.update(&x);
        m.start = step(m.start, x == '\n');
        m.end = m.start;
        newline |= x == '\n';
      }
      1 => {
        let x = byte(c);
        c.note(|| format!("#{i}.update(byte {x:#x})"));
        s.update(&x);
        m.start = step(m.start, x == b'\n');
        m.end = m.start;
        newline |= x == b'\n';
      }
      2 => {
        let (t, nl) = if c.bool() {
          let x = ch(c);
          c.note(|| format!("new span from #{i}.into_updated({x:?})"));
          (s.clone().into_updated(&x), x == '\n')
        } else {
          let x = byte(c);
          c.note(|| format!("new span from #{i}.into_updated(byte {x:#x})"));
          (s.clone().into_updated(&x), x == b'\n')
        };
        let l = step(m.start, nl);
        let input = m.input;
        newline |= nl;
        pool.push((t, M { input, start: l, end: l }));
      }
      3 => {
        let l = Location { line: c.below(5000) as u32, col: c.below(500) as u32 };
        c.note(|| format!("#{i}.update_loc({l})"));
        s.update_loc(l);
        m.start = l;
        m.end = l;
      }
      4 => {
        c.note(|| format!("new span from #{i}.clone()"));
        let t = (s.clone(), *m);
        pool.push(t);
      }
      5 => {
        c.note(|| format!("#{i}.update_end(#{j})"));
        if c.bool() {
          s.update_end(&other);
        } else {
          s.update_end(other);
        }
        m.end = mo.end;
        extended = true;
      }
      6 => {
        c.note(|| format!("new span from #{i}.into_end_updated(#{j})"));
        let t = if c.bool() { s.clone().into_end_updated(&other) } else { s.clone().into_end_updated(other) };
        let m = M { end: mo.end, ..*m };
        pool.push((t, m));
        extended = true;
      }
      7 => {
        let got = if c.bool() { s.is_in_same_line_as(&other) } else { s.is_in_same_line_as(other) };
        ensure_eq!(got, m.end.line == mo.start.line, "#{i} ({s}) is in the same line as #{j}");
        c.checks += 1;
      }
      _ => {
        // advancing over a whole text
        let text: Vec<char> = c.vec(0, 12, 5, ch);
        c.note(|| format!("#{i}.update over {text:?}"));
        for x in &text {
          s.update(x);
        }
        if !text.is_empty() {
          let lines = text.iter().filter(|x| **x == '\n').count() as u32;
          let tail = text.iter().rev().take_while(|x| **x != '\n').count() as u32;
          m.start = if lines == 0 {
            Location { line: m.start.line, col: m.start.col + tail }
          } else {
            Location { line: m.start.line + lines, col: tail }
          };
          m.end = m.start;
          newline |= lines > 0;
        }
      }
    }
    for (k, (s, m)) in pool.iter().enumerate() {
      ensure_eq!((s.start(), s.end()), (m.start, m.end), "#{k}");
      c.checks += 1;
    }
  }
  c.key(&format!("{:?}", pool.iter().map(|p| p.1).collect::<Vec<_>>()));
  c.nontrivial_if(extended && newline);
  for (k, (s, m)) in pool.iter().enumerate() {
    let text = format!("{}:{}-{}:{}", m.start.line, m.start.col, m.end.line, m.end.col);
    ensure_eq!(s.to_string(), text, "display of #{k}");
    ensure_eq!(s.start().to_string(), format!("{}:{}", m.start.line, m.start.col), "display of the start of #{k}");
    ensure_eq!(file_name(s.file_type()), types[m.input], "file of #{k}");
    ensure_eq!(s.file_type().to_string(), types[m.input], "displayed file of #{k}");
    for (l, (t, o)) in pool.iter().enumerate() {
      let want = m.input == o.input && m.start == o.start && m.end == o.end;
      ensure_eq!(s == t, want, "#{k} == #{l} (inputs {} and {})", m.input, o.input);
      c.checks += 1;
    }
  }
  Ok(())
}

// ---- C23 ----

#[derive(Clone, Copy, Debug)]
enum Log {
  RawError,
  RawFatal,
  RawWarning,
  Error,
  Fatal,
  Warning,
  Return,
}

const LOGS: &[Log] =
  &[Log::RawError, Log::Error, Log::RawWarning, Log::Warning, Log::RawFatal, Log::Fatal, Log::Return];

fn apply(s: &Span, op: Log, macros: bool, n: usize) -> Result<(), String> {
  let check = |e: Error, fatal: bool| {
    if e.is_fatal() == fatal {
      Ok(())
    } else {
      Err(format!("{op:?} returned an error with is_fatal() == {}", e.is_fatal()))
    }
  };
  match op {
    Log::RawError if macros => check(log_raw_error!(s, "m{n}"), false),
    Log::RawError => check(s.log_raw_error(format_args!("m{n}")), false),
    Log::RawFatal if macros => check(log_raw_fatal_error!(s, "m{}", n), true),
    Log::RawFatal => check(s.log_raw_fatal_error(format_args!("m{n}")), true),
    Log::RawWarning if macros => {
      log_raw_warning!(s, "m{n}");
      Ok(())
    }
    Log::RawWarning => {
      s.log_raw_warning(format_args!("m{n}"));
      Ok(())
    }
    Log::Error if macros => check(log_error!(s, "m{n}"), false),
    Log::Error => check(s.log_error(format_args!("m{n}")), false),
    Log::Fatal if macros => check(log_fatal_error!(s, "m{n}"), true),
    Log::Fatal => check(s.log_fatal_error(format_args!("m{n}")), true),
    Log::Warning if macros => {
      log_warning!(s, "m{n}");
      Ok(())
    }
    Log::Warning => {
      s.log_warning(format_args!("m{n}"));
      Ok(())
    }
    Log::Return => {
      let r: laps::span::Result<()> = (|| return_error!(s, "m{n}"))();
      match r {
        Err(e) => check(e, false),
        Ok(()) => Err("return_error! did not return an error".into()),
      }
    }
  }
}

fn is_warning(op: Log) -> bool {
  matches!(op, Log::RawWarning | Log::Warning)
}

/// Histories over several inputs; returns the spans and their counts.
pub fn histories(c: &mut Ctx) -> Result<Vec<(Span, usize, usize)>, String> {
  let n_inputs = 1 + c.below(3);
  let mut counts = vec![(0usize, 0usize); n_inputs];
  let mut pool: Vec<(Span, usize)> = vec![];
  for i in 0..n_inputs {
    pool.push((Span::new(gen_file_type(c)), i));
  }
  let mut roots: Vec<Span> = pool.iter().map(|p| p.0.clone()).collect();
  let steps = 1 + c.below(20);
  let mut derived = false;
  let mut threads_used = false;
  for n in 0..steps {
    let i = c.below(pool.len());
    let j = c.below(pool.len());
    match c.weighted(&[10, 2, 2, 2, 1, 1]) {
      0 => {
        let op = *c.pick(LOGS);
        let macros = c.bool();
        c.note(|| format!("#{i} (input {}): {op:?}{}", pool[i].1, if macros { " (macro)" } else { "" }));
        apply(&pool[i].0, op, macros, n)?;
        let k = &mut counts[pool[i].1];
        if is_warning(op) {
          k.1 += 1
        } else {
          k.0 += 1
        }
      }
      1 => {
        derived = true;
        let t = (pool[i].0.clone().into_updated(&ch(c)), pool[i].1);
        c.note(|| format!("new span from #{i}.into_updated"));
        pool.push(t);
      }
      2 => {
        derived = true;
        // belongs to the input of the left one
        let t = (pool[i].0.clone().into_end_updated(&pool[j].0), pool[i].1);
        c.note(|| format!("new span from #{i}.into_end_updated(#{j})"));
        pool.push(t);
      }
      3 => {
        let o = pool[j].0.clone();
        c.note(|| format!("#{i}.update_end(#{j})"));
        pool[i].0.update_end(&o);
      }
      4 => {
        c.note(|| format!("#{i} dropped"));
        if pool.len() > 1 {
          pool.swap_remove(i);
        }
      }
      _ => {
        // several threads at once
        threads_used = true;
        let k = 2 + c.below(3);
        let mut jobs: Vec<(Span, Vec<Log>)> = vec![];
        for _ in 0..k {
          let i = c.below(pool.len());
          let reps = c.below(30);
          let mut ops = c.vec(1, 6, 3, |c| *c.pick(LOGS));
          let base = ops.clone();
          for _ in 0..reps {
            ops.extend_from_slice(&base);
          }
          for op in &ops {
            let k = &mut counts[pool[i].1];
            if is_warning(*op) {
              k.1 += 1
            } else {
              k.0 += 1
            }
          }
          jobs.push((pool[i].0.clone(), ops));
        }
        c.note(|| format!("threads: {:?}", jobs.iter().map(|j| (&j.0, &j.1)).collect::<Vec<_>>()));
        let rs: Vec<R> = std::thread::scope(|sc| {
          let hs: Vec<_> = jobs
            .iter()
            .map(|(s, ops)| sc.spawn(move || ops.iter().try_for_each(|op| apply(s, *op, false, 0))))
            .collect();
          hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a logging thread panicked".into()))).collect()
        });
        for r in rs {
          r?;
        }
      }
    }
    for (k, (s, i)) in pool.iter().enumerate() {
      ensure_eq!((s.error_num(), s.warning_num()), counts[*i], "counts of #{k} (input {i}) after step {n}");
      c.checks += 2;
    }
  }
  c.label_if(threads_used, "threads");
  c.label_if(derived, "derived spans");
  c.nontrivial_if((derived || threads_used) && counts.iter().any(|k| k.0 > 0 && k.1 > 0));
  c.key(&format!("{counts:?}{steps}"));
  Ok(roots.drain(..).zip(counts).map(|(s, k)| (s, k.0, k.1)).collect())
}

pub fn c23(c: &mut Ctx) -> R {
  for (i, (s, e, w)) in histories(c)?.into_iter().enumerate() {
    ensure_eq!((s.error_num(), s.warning_num()), (e, w), "counts of input {i} at the end");
  }
  Ok(())
}

/// Checks a printed summary against the counts.
pub fn check_summary(text: &str, e: usize, w: usize) -> R {
  let words: Vec<&str> = text.split_whitespace().collect();
  let mut parts = 0;
  for (n, unit) in [(e, "error"), (w, "warning")] {
    let at = words.iter().position(|x| x.trim_matches(|c: char| !c.is_alphabetic()).trim_end_matches('s') == unit);
    match at {
      Some(i) => {
        let said = i.checked_sub(1).and_then(|i| words[i].parse::<usize>().ok());
        ensure!(said == Some(n), "the summary {text:?} does not say {n} {unit}(s)");
        let plural = words[i].trim_matches(|c: char| !c.is_alphabetic()).ends_with('s');
        ensure!(n == 0 || plural == (n > 1), "the summary {text:?} has the wrong number of \"{unit}\" for {n}");
        parts += 1;
      }
      None if n == 0 => {}
      None => fail!("the summary {text:?} does not say {n} {unit}(s)"),
    }
  }
  let ands = words.iter().filter(|w| **w == "and").count();
  ensure!(ands == 0 || parts == 2, "the summary {text:?} says \"and\" without two parts");
  Ok(())
}
