//! C25: error values of the library built without its logger.

use crate::capture;
use crate::spans::{file_name, gen_file_type};
use crate::streams::{io_error, Chunk, Source};
use crate::tokens::{gen_id, id, Id, Item, Stream, K};
use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::{Error, FileType, Location, Span};
use laps::token::{TokenStream, Tokenizer};
use laps::*;
use pbt::{ensure, ensure_eq, fail, Ctx, R};
use std::collections::VecDeque;

fn gen_loc(c: &mut Ctx) -> Location {
  Location { line: c.below(300) as u32, col: c.below(120) as u32 }
}

fn gen_message(c: &mut Ctx) -> String {
  let v = c.vec(0, 5, 2, |c| {
    *c.pick(&["expected", "x", "{}", "{0}", "é你", "\n", "1:2", ": ", "\"", "%s", "", " ", "error"])
  });
  v.join(" ")
}

/// All logging operations give their text back.
pub fn c25_values(c: &mut Ctx) -> R {
  let (r, out) = capture::stderr(|| values(c));
  r?;
  ensure!(out.is_empty(), "something was printed: {:?}", String::from_utf8_lossy(&out));
  Ok(())
}

fn values(c: &mut Ctx) -> R {
  let f = gen_file_type(c);
  let name = file_name(&f);
  let root = Span::new(f);
  let (mut errors, mut warnings) = (0, 0);
  let n = 1 + c.below(12);
  let mut located = false;
  for i in 0..n {
    let (start, end) = (gen_loc(c), gen_loc(c));
    let mut s = root.clone();
    s.update_loc(end);
    let e = s.clone();
    s.update_loc(start);
    s.update_end(&e);
    let m = gen_message(c);
    let op = c.below(12);
    c.note(|| format!("operation {op} at {name}:{s} with {m:?}"));
    c.key(&(op, &m));
    let here = format!("{name}:{}:{}: {m}", start.line, start.col);
    let (got, want): (Option<Error>, Option<Error>) = match op {
      0 => (Some(s.log_raw_error(format_args!("{m}"))), Some(Error::Normal(m.clone()))),
      1 => (Some(s.log_raw_fatal_error(format_args!("{m}"))), Some(Error::Fatal(m.clone()))),
      2 => (Some(s.log_error(format_args!("{m}"))), Some(Error::Normal(here))),
      3 => (Some(s.log_fatal_error(format_args!("{m}"))), Some(Error::Fatal(here))),
      4 => (Some(log_raw_error!(s, "{m}")), Some(Error::Normal(m.clone()))),
      5 => (Some(log_raw_fatal_error!(s, "{}", m)), Some(Error::Fatal(m.clone()))),
      6 => (Some(log_error!(s, "{m}")), Some(Error::Normal(here))),
      7 => (Some(log_fatal_error!(s, "{}", m)), Some(Error::Fatal(here))),
      8 => {
        let r: span::Result<()> = (|| return_error!(s, "{m}"))();
        (r.err(), Some(Error::Normal(here)))
      }
      9 => {
        if c.bool() {
          s.log_raw_warning(format_args!("{m}"));
        } else {
          log_raw_warning!(s, "{m}");
        }
        (None, None)
      }
      10 => {
        if c.bool() {
          s.log_warning(format_args!("{m}"));
        } else {
          log_warning!(s, "{m}");
        }
        (None, None)
      }
      _ => {
        s.log_summary();
        (None, None)
      }
    };
    located |= matches!(op, 2 | 3 | 6..=8);
    match op {
      0..=8 => errors += 1,
      9 | 10 => warnings += 1,
      _ => {}
    }
    if let Some(g) = &got {
      ensure_eq!(g.is_fatal(), matches!(op, 1 | 3 | 5 | 7), "operation {i}: is it fatal");
    }
    ensure_eq!(got, want, "operation {i}");
    ensure_eq!((s.error_num(), root.warning_num()), (errors, warnings), "counts after operation {i}");
    ensure_eq!((root.error_num(), s.warning_num()), (errors, warnings), "counts after operation {i}");
    c.checks += 3;
  }
  c.nontrivial_if(located && errors > 1);
  Ok(())
}

/// Errors of token streams and readers say what was wrong and where.
pub fn c25_errors(c: &mut Ctx) -> R {
  let (r, out) = capture::stderr(|| if c.bool() { expecting(c) } else { reading(c) });
  r?;
  ensure!(out.is_empty(), "something was printed: {:?}", String::from_utf8_lossy(&out));
  Ok(())
}

fn expecting(c: &mut Ctx) -> R {
  let mut n = 0;
  let items: VecDeque<Item> = c.vec(1, 6, 3, |c| Item::Tok(gen_id(c, &mut n, 4))).into();
  let mut s = Stream::new(items.clone(), c.bool(), c.bool());
  let mut errors = 0;
  for (i, it) in items.iter().enumerate() {
    let Item::Tok(t) = *it else { continue };
    let t: Id = t;
    let tries = c.below(3);
    for _ in 0..tries {
      let k = c.below(6) as u8;
      c.note(|| format!("token {t:?}: expect kind {k}"));
      let as_token = c.bool();
      let got = if as_token {
        let probe = s.make((k, (5000, 1), (5000, 1)));
        s.expect(probe)
      } else {
        s.expect(K(k))
      };
      match got {
        Ok(g) => {
          ensure!(k == t.0 && id(&g) == t, "token {i}: expect gave {:?}", id(&g));
          s.unread(g);
        }
        Err(Error::Normal(m)) if k != t.0 => {
          errors += 1;
          c.nontrivial();
          let at = format!("<buffer>:{}:{}: ", t.1 .0, t.1 .1);
          let Some(rest) = m.strip_prefix(&at) else { fail!("token {i}: the error is {m:?}, not located at {at}") };
          let (e, f) = (format!("kind {k}"), format!("kind {}", t.0));
          let ok = rest.find(&e).is_some_and(|x| rest[x + e.len()..].contains(&f));
          ensure!(ok, "token {i}: the error {m:?} does not say that {e} was expected and {f} found");
        }
        Err(e) => fail!("token {i}: expect kind {k} gave {e:?}"),
      }
      ensure_eq!(s.base().error_num(), errors, "errors counted");
      c.checks += 2;
    }
    let got = s.next_token().map(|t| id(&t));
    ensure_eq!(got, Ok(t), "token {i} after expecting");
  }
  c.label("expecting");
  c.key(&format!("{items:?}"));
  Ok(())
}

fn reading(c: &mut Ctx) -> R {
  // some text, then a failure, then some more text
  let text = c.vec(0, 6, 3, |c| *c.pick(&['a', 'é', '\n', '你', 'b']));
  let s: String = text.iter().collect();
  let io = c.bool();
  let mut script = VecDeque::new();
  if !s.is_empty() {
    script.push_back(Chunk::Bytes(s.clone().into_bytes()));
  }
  let k = c.below(200) as u8;
  if io {
    script.push_back(Chunk::Error(k));
    script.push_back(Chunk::Bytes(b"z".to_vec()));
  } else {
    script.push_back(Chunk::Bytes(c.pick(&[&[0xffu8][..], &[0xe4, 0x41], &[0xc3]]).to_vec()));
  }
  c.note(|| format!("source {script:?}"));
  c.key(&format!("{script:?}"));
  c.nontrivial();
  c.label(if io { "I/O error" } else { "invalid UTF-8" });
  let mut r: Reader<Source> = Reader::new(Source { script: script.clone(), past_end: 0 }, FileType::Stdin);
  for ch in &text {
    ensure_eq!(r.next_char(), Ok(Some(*ch)), "character before the failure");
  }
  match r.next_char() {
    Err(Error::Fatal(m)) if io => ensure_eq!(m, io_error(k).to_string(), "text of the I/O error"),
    Err(Error::Fatal(m)) => ensure!(m.to_lowercase().contains("utf-8"), "the error {m:?} does not mention UTF-8"),
    got => fail!("at the failure: got {got:?}"),
  }
  ensure_eq!((r.span().error_num(), r.span().warning_num()), (1, 0), "counts");
  if io {
    ensure_eq!(r.next_char(), Ok(Some('z')), "character behind the failure");
    let mut b: ByteReader<Source> = ByteReader::new(Source { script, past_end: 0 }, FileType::Stdin);
    for ch in s.bytes() {
      ensure_eq!(b.next_char(), Ok(Some(ch)), "byte before the failure");
    }
    ensure_eq!(b.next_char(), Err(Error::Fatal(io_error(k).to_string())), "text of the I/O error");
    ensure_eq!(b.next_char(), Ok(Some(b'z')), "byte behind the failure");
  }
  c.checks += 4;
  Ok(())
}
