//! C09 and C10: readers and input streams against a model.

use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Location, Span};
use pbt::{ensure, ensure_eq, fail, Ctx, R};
use std::collections::VecDeque;
use std::fmt::Debug;
use std::io::{self, Read, Write};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

/// What the scripted source does next.
#[derive(Clone, Debug)]
pub enum Chunk {
  /// One read returns at most these bytes.
  Bytes(Vec<u8>),
  Error(u8),
}

/// A source with scripted read sizes and errors; ends for good after the
/// script.  Reads past the end are counted, so that a reader that never stops
/// is noticed without waiting for it.
pub struct Source {
  pub script: VecDeque<Chunk>,
  pub past_end: u32,
}

impl Read for Source {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    if buf.is_empty() {
      self.past_end += 1;
      assert!(self.past_end < 5000, "the reader keeps reading into an empty buffer");
      return Ok(0);
    }
    match self.script.pop_front() {
      None => {
        self.past_end += 1;
        assert!(self.past_end < 5000, "the reader keeps reading after the end of its source");
        Ok(0)
      }
      Some(Chunk::Error(k)) => Err(io_error(k)),
      Some(Chunk::Bytes(mut b)) => {
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        if n < b.len() {
          b.drain(..n);
          self.script.push_front(Chunk::Bytes(b));
        }
        Ok(n)
      }
    }
  }
}

pub fn io_error(k: u8) -> io::Error {
  let kind = match k % 4 {
    0 => io::ErrorKind::Other,
    1 => io::ErrorKind::PermissionDenied,
    2 => io::ErrorKind::TimedOut,
    _ => io::ErrorKind::BrokenPipe,
  };
  io::Error::new(kind, format!("scripted failure {k}"))
}

/// Characters of interest: line ends, tabs, 1-4 byte encodings and their
/// limits.
const CHARS: &[char] = &[
  'a', 'b', 'c', '1', ' ', '\n', '\r', '\t', '\0', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '你', '好',
  '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '😂', '\u{10ffff}', '\u{85}', '\u{2028}', '\u{feff}', '\u{fffd}',
];

pub fn gen_text(c: &mut Ctx, max: usize) -> Vec<char> {
  let style = c.below(4);
  c.vec(0, max, max / 2 + 1, |c| match style {
    0 => *c.pick(&['a', 'b', '\n', ' ', 'é']),
    _ => *c.pick(CHARS),
  })
}

/// Cuts bytes into a script of reads, with errors in between.
pub fn gen_script(c: &mut Ctx, bytes: &[u8], errors: bool) -> VecDeque<Chunk> {
  let mut v = VecDeque::new();
  let mut i = 0;
  // sizes: everything at once, single bytes, tiny, mixed
  let style = c.below(4);
  let mut left = if errors { c.below(4) } else { 0 };
  loop {
    while left > 0 && c.prob(1, 3) {
      left -= 1;
      v.push_back(Chunk::Error(c.below(250) as u8));
    }
    if i >= bytes.len() {
      break;
    }
    let n = match style {
      0 => bytes.len() - i,
      1 => 1,
      2 => 1 + c.below(3),
      _ => *c.pick(&[1, 2, 3, 5, 1023, 1024, 1025, 4000]),
    };
    let n = n.min(bytes.len() - i);
    v.push_back(Chunk::Bytes(bytes[i..i + n].to_vec()));
    i += n;
  }
  v
}

/// Byte sequences that are not UTF-8 wherever they are followed by ASCII or
/// by nothing.
const INVALID: &[&[u8]] = &[
  &[0xff],
  &[0x80],
  &[0xbf],
  &[0xc0, 0x80],
  &[0xc1, 0xbf],
  &[0xc3],
  &[0xe0, 0x80, 0x80],
  &[0xe4, 0xbd],
  &[0xe4],
  &[0xed, 0xa0, 0x80],
  &[0xf0, 0x9f, 0x98],
  &[0xf0, 0x9f],
  &[0xf0],
  &[0xf0, 0x80, 0x80, 0x80],
  &[0xf4, 0x90, 0x80, 0x80],
  &[0xf5, 0x80, 0x80, 0x80],
  &[0xe4, 0x41],
  &[0xf0, 0x9f, 0x41],
];

struct Content {
  bytes: Vec<u8>,
}

fn gen_content(c: &mut Ctx) -> Content {
  let mut bytes: Vec<u8> = vec![];
  if c.prob(1, 4) {
    // move what follows to the end of the reader's buffer
    let base = *c.pick(&[1024usize, 2048, 1024 + 512]);
    let n = base - c.below(8);
    let unit = *c.pick(&["a", "é", "你", "😂"]);
    while bytes.len() + unit.len() <= n {
      bytes.extend_from_slice(unit.as_bytes());
    }
    let k = c.below(4);
    bytes.extend_from_slice(&b"xyz"[..k.min(3)]);
    c.label("content crosses a buffer boundary");
  }
  let text: String = gen_text(c, 20).into_iter().collect();
  bytes.extend_from_slice(text.as_bytes());
  if c.prob(1, 3) {
    bytes.extend_from_slice(*c.pick(INVALID));
    let more: String = gen_text(c, 4).into_iter().collect();
    bytes.extend_from_slice(more.as_bytes());
  }
  Content { bytes }
}

/// Expected outcome of reading everything from the script.
#[derive(Debug, PartialEq, Clone, Copy)]
enum Ev<C> {
  Ch(C),
  Err,
  /// The first invalid sequence: an error, what follows is unspecified.
  Stop,
}

/// Decodes independently of the standard library: one character or `None` if
/// more bytes are needed, `Err` if invalid.
fn decode(b: &[u8]) -> Result<Option<(char, usize)>, ()> {
  let Some(&b0) = b.first() else { return Ok(None) };
  let (len, min, mut v) = match b0 {
    0..=0x7f => return Ok(Some((b0 as char, 1))),
    0xc2..=0xdf => (2, 0x80, (b0 & 0x1f) as u32),
    0xe0..=0xef => (3, 0x800, (b0 & 0x0f) as u32),
    0xf0..=0xf4 => (4, 0x10000, (b0 & 0x07) as u32),
    _ => return Err(()),
  };
  for i in 1..len {
    let Some(&x) = b.get(i) else { return Ok(None) };
    if x & 0xc0 != 0x80 {
      return Err(());
    }
    v = v << 6 | (x & 0x3f) as u32;
    // detect overlong, surrogate and too large forms at the second byte
    if i == 1 {
      let lo = v << (6 * (len - 2));
      let hi = lo + (1 << (6 * (len - 2))) - 1;
      if hi < min || lo > 0x10ffff || (0xd800..=0xdfff).contains(&lo) {
        return Err(());
      }
    }
  }
  char::from_u32(v).map(|c| Some((c, len))).ok_or(())
}

fn expect_chars(script: &VecDeque<Chunk>) -> Vec<Ev<char>> {
  let mut v = vec![];
  let mut buf: Vec<u8> = vec![];
  for ch in script {
    match ch {
      Chunk::Error(_) => {
        v.push(Ev::Err);
      }
      Chunk::Bytes(b) => {
        buf.extend_from_slice(b);
        loop {
          match decode(&buf) {
            Ok(Some((c, n))) => {
              v.push(Ev::Ch(c));
              buf.drain(..n);
            }
            Ok(None) => break,
            Err(()) => {
              v.push(Ev::Stop);
              return v;
            }
          }
        }
      }
    }
  }
  if !buf.is_empty() {
    v.push(Ev::Stop);
  }
  v
}

fn read_all<S>(s: &mut S, want: &[Ev<S::CharType>], what: &str) -> R
where
  S: InputStream,
  S::CharType: Debug + PartialEq + Copy,
{
  let mut errors = s.span().error_num();
  for (i, w) in want.iter().enumerate() {
    let got = s.next_char();
    match (w, &got) {
      (Ev::Ch(w), Ok(Some(g))) if w == g => {}
      (Ev::Err | Ev::Stop, Err(e)) => {
        ensure!(e.is_fatal(), "{what}: error at item {i} is not fatal");
        errors += 1;
        ensure_eq!(s.span().error_num(), errors, "{what}: errors counted after item {i}");
        if *w == Ev::Stop {
          return Ok(());
        }
      }
      _ => fail!("{what}: item {i}: got {got:?}, expected {w:?}"),
    }
  }
  for _ in 0..3 {
    let got = s.next_char();
    ensure!(matches!(got, Ok(None)), "{what}: at the end: got {got:?}, expected the end");
  }
  Ok(())
}

pub fn c09(c: &mut Ctx) -> R {
  let content = gen_content(c);
  let errors = c.prob(1, 4);
  let script = gen_script(c, &content.bytes, errors);
  c.note(|| {
    let mut t = format!("source: {script:?}");
    if t.len() > 1500 {
      t = format!("source of {} bytes, read sizes {:?}, tail {:x?}", content.bytes.len(), script.iter().map(|x| match x { Chunk::Bytes(b) => b.len() as i64, _ => -1 }).collect::<Vec<_>>(), &content.bytes[content.bytes.len().saturating_sub(60)..]);
    }
    t
  });
  let want = expect_chars(&script);
  c.key(&format!("{script:?}"));
  c.label_if(want.last() == Some(&Ev::Stop), "invalid or truncated UTF-8");
  c.label_if(want.contains(&Ev::Err), "I/O error");
  // a character split over reads
  let split = {
    let mut r = false;
    let mut n = 0;
    for ch in &script {
      if let Chunk::Bytes(b) = ch {
        r |= n > 0 && b[0] & 0xc0 == 0x80;
        n += b.len();
      }
    }
    r
  };
  c.label_if(split, "character split over reads");
  c.nontrivial_if(split || content.bytes.len() > 1020 || want.contains(&Ev::Err) || want.last() == Some(&Ev::Stop));
  let mut r: Reader<Source> = Reader::new(Source { script: script.clone(), past_end: 0 }, FileType::Buffer);
  read_all(&mut r, &want, "Reader")?;
  let mut want_b = vec![];
  for ch in &script {
    match ch {
      Chunk::Bytes(b) => want_b.extend(b.iter().map(|b| Ev::Ch(*b))),
      Chunk::Error(_) => want_b.push(Ev::Err),
    }
  }
  let mut r: ByteReader<Source> = ByteReader::new(Source { script, past_end: 0 }, FileType::Buffer);
  read_all(&mut r, &want_b, "ByteReader")?;
  c.checks += (want.len() + want_b.len()) as u64;
  Ok(())
}

pub fn scratch_dir() -> PathBuf {
  static DIR: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
  DIR
    .get_or_init(|| {
      let base = std::env::var_os("VERIF_OUT").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
      let d = base.join(format!("scratch.{}", std::process::id()));
      std::fs::create_dir_all(&d).expect("scratch directory");
      d
    })
    .clone()
}

/// The constructors: all deliver the same content and say where it is from.
pub fn c09_sources(c: &mut Ctx) -> R {
  let content = gen_content(c);
  c.note(|| format!("content: {:x?}", content.bytes));
  c.key(&content.bytes);
  c.nontrivial_if(content.bytes.len() > 3);
  let whole: VecDeque<Chunk> =
    if content.bytes.is_empty() { VecDeque::new() } else { [Chunk::Bytes(content.bytes.clone())].into() };
  let want = expect_chars(&whole);
  let want_b: Vec<Ev<u8>> = content.bytes.iter().map(|b| Ev::Ch(*b)).collect();
  static N: AtomicU64 = AtomicU64::new(0);
  let path = scratch_dir().join(format!("src{}", N.fetch_add(1, Ordering::Relaxed)));
  std::fs::write(&path, &content.bytes).map_err(|e| e.to_string())?;
  let r = (|| {
    let mut r = Reader::from_path(&path).map_err(|e| format!("Reader::from_path: {e}"))?;
    ensure!(matches!(r.span().file_type(), FileType::File(p) if **p == *path), "Reader::from_path: file type");
    ensure_eq!(r.span().file_type().to_string(), path.display().to_string(), "displayed file name");
    read_all(&mut r, &want, "Reader::from_path")?;
    let mut r = ByteReader::from_path(&path).map_err(|e| format!("ByteReader::from_path: {e}"))?;
    ensure!(matches!(r.span().file_type(), FileType::File(p) if **p == *path), "ByteReader::from_path: file type");
    read_all(&mut r, &want_b, "ByteReader::from_path")
  })();
  let _ = std::fs::remove_file(&path);
  r?;
  ensure!(Reader::from_path(&path).is_err() && ByteReader::from_path(&path).is_err(), "opening a missing file");
  let mut r = Reader::from(content.bytes.as_slice());
  ensure!(matches!(r.span().file_type(), FileType::Buffer), "Reader::from(&[u8]): file type");
  read_all(&mut r, &want, "Reader::from(&[u8])")?;
  let mut r = ByteReader::from(content.bytes.as_slice());
  read_all(&mut r, &want_b, "ByteReader::from(&[u8])")?;
  if let Ok(s) = std::str::from_utf8(&content.bytes) {
    let mut r = Reader::from(s);
    read_all(&mut r, &want, "Reader::from(&str)")?;
    let inner = r.into_inner();
    ensure!(*inner.get_ref() == s && inner.position() == s.len() as u64, "the source of a reader that was read to the end");
    let mut r = ByteReader::from(s);
    read_all(&mut r, &want_b, "ByteReader::from(&str)")?;
    let mut r = Reader::from(s.to_string());
    read_all(&mut r, &want, "Reader::from(String)")?;
    let mut r = ByteReader::from(s.to_string());
    read_all(&mut r, &want_b, "ByteReader::from(String)")?;
    c.label("valid UTF-8");
  }
  c.checks += 4 * want.len() as u64;
  Ok(())
}

/// Reading from standard input, which is a memory file here.
pub fn c09_stdin(c: &mut Ctx) -> R {
  let mut content = gen_content(c);
  // beyond what standard input buffers at once
  if c.prob(1, 8) {
    let mut v: Vec<u8> = std::iter::repeat("0123456789abcdef".as_bytes()).take(512).flatten().copied().collect();
    v.truncate(8192 - c.below(6));
    v.extend(&content.bytes);
    content.bytes = v;
    c.label("more than standard input buffers");
  }
  let bytes = content.bytes;
  c.note(|| format!("{} bytes, the last of which {:x?}", bytes.len(), &bytes[bytes.len().saturating_sub(200)..]));
  c.key(&bytes);
  c.nontrivial_if(bytes.len() > 3);
  let whole: VecDeque<Chunk> = if bytes.is_empty() { VecDeque::new() } else { [Chunk::Bytes(bytes.clone())].into() };
  let want = expect_chars(&whole);
  let want_b: Vec<Ev<u8>> = bytes.iter().map(|b| Ev::Ch(*b)).collect();
  let how = c.below(2);
  let chars = c.bool();
  let rest = with_stdin(&bytes, || -> R {
    if chars {
      let mut r = if how == 0 { Reader::from_stdin() } else { Reader::from(std::io::stdin()) };
      ensure!(matches!(r.span().file_type(), FileType::Stdin), "Reader of standard input: file type");
      read_all(&mut r, &want, "Reader of standard input")
    } else {
      let mut r = if how == 0 { ByteReader::from_stdin() } else { ByteReader::from(std::io::stdin()) };
      ensure!(matches!(r.span().file_type(), FileType::Stdin), "ByteReader of standard input: file type");
      read_all(&mut r, &want_b, "ByteReader of standard input")
    }
  });
  c.checks += want.len() as u64;
  rest
}

/// Runs the function with the bytes as standard input.
fn with_stdin<T>(bytes: &[u8], f: impl FnOnce() -> T) -> T {

  struct Restore(i32);
  impl Drop for Restore {
    fn drop(&mut self) {
      // nothing is left in the buffer of the standard library
      let _ = std::io::stdin().lock().read_to_end(&mut vec![]);
      unsafe {
        libc::dup2(self.0, 0);
        libc::close(self.0);
      }
    }
  }
  unsafe {
    let mem = libc::memfd_create(c"stdin".as_ptr(), 0);
    assert!(mem >= 0, "memfd_create");
    let mut file = std::mem::ManuallyDrop::new(<std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(mem));
    file.write_all(bytes).expect("standard input");
    libc::lseek(mem, 0, libc::SEEK_SET);
    let old = match libc::dup(0) {
      -1 => libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY),
      fd => fd,
    };
    libc::dup2(mem, 0);
    libc::close(mem);
    let _restore = Restore(old);
    f()
  }
}

// ---- C10 ----

/// A character type of a stream under test.
pub trait Sym: Copy + PartialEq + Debug + 'static {
  const NL: Self;
  fn from_char(c: char) -> Self;
  fn set(k: usize) -> fn(&Self) -> bool;
}
impl Sym for char {
  const NL: char = '\n';
  fn from_char(c: char) -> char {
    c
  }
  fn set(k: usize) -> fn(&char) -> bool {
    match k {
      0 => |c| *c == '\n',
      1 => |c| c.is_ascii_lowercase(),
      2 => |c| !c.is_ascii(),
      3 => |_| true,
      4 => |_| false,
      _ => |c| c.is_whitespace(),
    }
  }
}
impl Sym for u8 {
  const NL: u8 = b'\n';
  fn from_char(c: char) -> u8 {
    c as u32 as u8
  }
  fn set(k: usize) -> fn(&u8) -> bool {
    match k {
      0 => |c| *c == b'\n',
      1 => |c| c.is_ascii_lowercase(),
      2 => |c| !c.is_ascii(),
      3 => |_| true,
      4 => |_| false,
      _ => |c| c.is_ascii_whitespace(),
    }
  }
}

/// What is still to come.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Item<C> {
  Ch(C),
  Err(u8),
}

/// A stream as a user would write it: required methods only.
pub struct UserStream<C> {
  items: VecDeque<Item<C>>,
  span: Span,
}

impl<C: Sym + laps::span::LocationUpdate> UserStream<C> {
  pub fn new(items: VecDeque<Item<C>>) -> Self {
    UserStream { items, span: Span::new(FileType::Stdin) }
  }
}

impl<C: Sym + laps::span::LocationUpdate> InputStream for UserStream<C> {
  type CharType = C;
  fn next_char_loc(&mut self) -> laps::span::Result<(Option<C>, Location)> {
    let loc = self.span.start();
    match self.items.pop_front() {
      None => Ok((None, loc)),
      Some(Item::Err(_)) => Err(laps::log_raw_fatal_error!(self.span, "scripted")),
      Some(Item::Ch(c)) => {
        self.span.update(&c);
        Ok((Some(c), loc))
      }
    }
  }
  fn unread(&mut self, last: (Option<C>, Location)) {
    self.span.update_loc(last.1);
    if let Some(c) = last.0 {
      self.items.push_front(Item::Ch(c));
    }
  }
  fn span(&self) -> &Span {
    &self.span
  }
  fn set_line_col(&mut self, line: u32, col: u32) {
    self.span.update_loc(Location { line, col });
  }
}

struct Model<C> {
  items: VecDeque<Item<C>>,
  loc: Location,
}

fn step<C: Sym>(loc: Location, c: C) -> Location {
  if c == C::NL {
    Location { line: loc.line + 1, col: 0 }
  } else {
    Location { line: loc.line, col: loc.col + 1 }
  }
}

impl<C: Sym> Model<C> {
  fn peek(&mut self) -> Result<Option<C>, ()> {
    match self.items.front().copied() {
      None => Ok(None),
      Some(Item::Ch(c)) => Ok(Some(c)),
      Some(Item::Err(_)) => {
        self.items.pop_front();
        Err(())
      }
    }
  }
  fn next(&mut self) -> Result<Option<C>, ()> {
    let c = self.peek()?;
    if let Some(c) = c {
      self.items.pop_front();
      self.loc = step(self.loc, c);
    }
    Ok(c)
  }
}

fn at(s: &Span) -> (Location, Location) {
  (s.start(), s.end())
}

fn history<S>(c: &mut Ctx, s: &mut S, items: VecDeque<Item<S::CharType>>) -> R
where
  S: InputStream,
  S::CharType: Sym,
{
  let mut m = Model { items, loc: Location { line: 1, col: 0 } };
  let fresh = s.span().clone();
  ensure_eq!(at(&fresh), (m.loc, m.loc), "span of an untouched stream");
  let mut undo: Vec<(Option<S::CharType>, Location)> = vec![];
  let (mut peeks, mut unreads, mut newlines) = (0, 0, 0);
  let n = 1 + c.below(40);
  for step_no in 0..n {
    let op = c.weighted(&[6, 5, 3, 3, 6, 4, 4, 2, 2, 3, 1, 1]);
    let before = m.loc;
    let tag = format!("operation {step_no}");
    match op {
      0 => {
        let (got, want) = (s.next_char_loc(), m.next());
        c.note(|| format!("next_char_loc -> {got:?}"));
        match (&got, want) {
          (Ok((g, l)), Ok(w)) => {
            ensure_eq!((*g, *l), (w, before), "{tag}: next_char_loc");
            undo.push((w, before));
          }
          (Err(_), Err(())) => {}
          _ => fail!("{tag}: next_char_loc: got {got:?}, expected {want:?}"),
        }
      }
      1 => {
        let (got, want) = (s.next_char(), m.next());
        c.note(|| format!("next_char -> {got:?}"));
        match (&got, want) {
          (Ok(g), Ok(w)) if *g == w => undo.push((w, before)),
          (Err(_), Err(())) => {}
          _ => fail!("{tag}: next_char: got {got:?}, expected {want:?}"),
        }
      }
      2 => {
        let (got, want) = (s.next_char_span(), m.next());
        c.note(|| format!("next_char_span -> {got:?}"));
        match (&got, want) {
          (Ok((g, sp)), Ok(w)) if *g == w => {
            ensure_eq!(at(sp), (m.loc, m.loc), "{tag}: span of next_char_span");
            ensure!(*sp == *s.span(), "{tag}: next_char_span gives a span of another input");
            undo.push((w, before));
          }
          (Err(_), Err(())) => {}
          _ => fail!("{tag}: next_char_span: got {got:?}, expected {want:?}"),
        }
      }
      3 => {
        let (got, want) = (s.next_span().map(at), m.next());
        c.note(|| format!("next_span -> {got:?}"));
        match (&got, want) {
          (Ok(g), Ok(w)) => {
            ensure_eq!(*g, (m.loc, m.loc), "{tag}: next_span");
            undo.push((w, before));
          }
          (Err(_), Err(())) => {}
          _ => fail!("{tag}: next_span: got {got:?}, expected {want:?}"),
        }
      }
      4 => {
        // put back what was read last
        if let Some(last) = undo.pop() {
          c.note(|| format!("unread {last:?}"));
          s.unread(last);
          if let Some(ch) = last.0 {
            m.items.push_front(Item::Ch(ch));
          }
          m.loc = last.1;
          unreads += 1;
        }
      }
      5 => {
        let (got, want) = (s.peek(), m.peek());
        peeks += 1;
        c.note(|| format!("peek -> {got:?}"));
        match (&got, want) {
          (Ok(g), Ok(w)) if *g == w => {}
          (Err(_), Err(())) => {}
          _ => fail!("{tag}: peek: got {got:?}, expected {want:?}"),
        }
      }
      6 => {
        let (got, want) = (s.peek_with_span(), m.peek());
        peeks += 1;
        c.note(|| format!("peek_with_span -> {got:?}"));
        match (&got, want) {
          (Ok((g, sp)), Ok(w)) if *g == w => {
            if let Some(w) = w {
              let l = step(m.loc, w);
              ensure_eq!(at(sp), (l, l), "{tag}: span of peek_with_span");
              let mut there = s.span().clone();
              there.update_loc(l);
              ensure!(there == *sp, "{tag}: peek_with_span gives a span of another input");
            }
          }
          (Err(_), Err(())) => {}
          _ => fail!("{tag}: peek_with_span: got {got:?}, expected {want:?}"),
        }
      }
      7..=9 => {
        let set = S::CharType::set(c.below(6));
        // predicates may have a state: a limit, or escapes hiding the next one
        let state = c.weighted(&[6, 2, 2]);
        let limit = c.below(6);
        let predicate = || {
          let (mut n, mut escaped) = (0, false);
          move |ch: &S::CharType| match state {
            0 => set(ch),
            1 => {
              n += 1;
              n > limit
            }
            _ if escaped => {
              escaped = false;
              false
            }
            _ => {
              escaped = *ch == S::CharType::NL || format!("{ch:?}").len() % 2 == 0;
              !escaped && set(ch)
            }
          }
        };
        c.label_if(state > 0, "predicate with a state");
        let mut want = vec![];
        let mut p = predicate();
        let mut first = None;
        let res = loop {
          match m.peek() {
            Err(()) => break Err(()),
            Ok(None) => break Ok(()),
            Ok(Some(ch)) if p(&ch) => break Ok(()),
            Ok(Some(ch)) => {
              undo.clear();
              want.push(ch);
              m.loc = step(m.loc, ch);
              m.items.pop_front();
              first.get_or_insert(m.loc);
            }
          }
        };
        let show = |r: &dyn Debug| format!("{r:?}");
        match op {
          7 => {
            let got = {
              let mut p = predicate();
              s.skip_until(|ch| p(&ch))
            };
            c.note(|| format!("skip_until -> {}", show(&got)));
            ensure_eq!(got.is_ok(), res.is_ok(), "{tag}: skip_until succeeds");
          }
          8 => {
            let got = s.collect_until(predicate());
            c.note(|| format!("collect_until -> {}", show(&got)));
            match (&got, res) {
              (Ok(g), Ok(())) => ensure_eq!(*g, want, "{tag}: collect_until"),
              (Err(_), Err(())) => {}
              _ => fail!("{tag}: collect_until: got {got:?}, expected {res:?} after {want:?}"),
            }
          }
          _ => {
            let got = s.collect_with_span_until(predicate());
            c.note(|| format!("collect_with_span_until -> {}", show(&got)));
            match (&got, res) {
              (Ok((g, sp)), Ok(())) => {
                ensure_eq!(*g, want, "{tag}: collect_with_span_until");
                if let Some(first) = first {
                  ensure_eq!(at(sp), (first, m.loc), "{tag}: span of collect_with_span_until");
                }
              }
              (Err(_), Err(())) => {}
              _ => fail!("{tag}: collect_with_span_until: got {got:?}, expected {res:?} after {want:?}"),
            }
          }
        }
      }
      10 => {
        let loc = Location { line: c.below(2000) as u32, col: c.below(300) as u32 };
        c.note(|| format!("set_line_col {loc:?}"));
        s.set_line_col(loc.line, loc.col);
        m.loc = loc;
        // what was read before had other locations: put it back as it was
      }
      _ => {
        // put something else in front
        let ch = if c.prob(1, 8) { None } else { Some(S::CharType::from_char(*c.pick(CHARS))) };
        let loc = Location { line: 1 + c.below(50) as u32, col: c.below(80) as u32 };
        c.note(|| format!("unread new {ch:?} {loc:?}"));
        s.unread((ch, loc));
        if let Some(ch) = ch {
          m.items.push_front(Item::Ch(ch));
        }
        m.loc = loc;
        unreads += 1;
      }
    }
    newlines += (m.loc.line != before.line) as u32;
    ensure_eq!(at(s.span()), (m.loc, m.loc), "{tag}: location of the stream");
    c.checks += 2;
  }
  c.label_if(peeks > 0, "peeked");
  c.label_if(unreads > 0, "unread");
  c.nontrivial_if((peeks > 0 || unreads > 0) && newlines > 0);
  // everything is still there
  let total = m.items.len() + 3;
  for i in 0..total {
    let (got, want) = (s.next_char(), m.next());
    match (&got, want) {
      (Ok(g), Ok(w)) if *g == w => {}
      (Err(_), Err(())) => {}
      _ => fail!("draining, item {i}: got {got:?}, expected {want:?}"),
    }
    ensure_eq!(at(s.span()), (m.loc, m.loc), "draining, item {i}: location");
  }
  ensure_eq!(at(&fresh), (Location { line: 1, col: 0 }, Location { line: 1, col: 0 }), "an earlier span changed");
  Ok(())
}

pub fn c10(c: &mut Ctx) -> R {
  let kind = c.below(4);
  let mut text = gen_text(c, 30);
  if c.prob(1, 20) {
    // around the size of a buffer, or far longer lines
    let n = if c.prob(1, 4) { 3000 + c.below(7000) } else { 1024 - c.below(6) };
    let pad = std::iter::repeat(*c.pick(&['a', 'é', '\n'])).take(n);
    text.splice(0..0, pad);
  }
  let errors = c.prob(1, 4);
  c.note(|| format!("{} over {:?}", ["Reader", "ByteReader", "user stream of char", "user stream of u8"][kind], text.iter().collect::<String>()));
  c.key(&(kind, &text));
  let string: String = text.iter().collect();
  match kind {
    0 => {
      let script = gen_script(c, string.as_bytes(), errors);
      c.note(|| format!("reads: {:?}", script.iter().map(|x| match x { Chunk::Bytes(b) => b.len().to_string(), Chunk::Error(_) => "error".into() }).collect::<Vec<_>>()));
      let items = expect_chars(&script)
        .into_iter()
        .map(|e| match e {
          Ev::Ch(ch) => Item::Ch(ch),
          _ => Item::Err(0),
        })
        .collect();
      let mut r: Reader<Source> = Reader::new(Source { script, past_end: 0 }, FileType::Buffer);
      history(c, &mut r, items)
    }
    1 => {
      let script = gen_script(c, string.as_bytes(), errors);
      c.note(|| format!("reads: {:?}", script.iter().map(|x| match x { Chunk::Bytes(b) => b.len().to_string(), Chunk::Error(_) => "error".into() }).collect::<Vec<_>>()));
      let mut items = VecDeque::new();
      for ch in &script {
        match ch {
          Chunk::Bytes(b) => items.extend(b.iter().map(|b| Item::Ch(*b))),
          Chunk::Error(k) => items.push_back(Item::Err(*k)),
        }
      }
      let mut r: ByteReader<Source> = ByteReader::new(Source { script, past_end: 0 }, FileType::Buffer);
      history(c, &mut r, items)
    }
    2 => {
      let mut items: VecDeque<Item<char>> = text.iter().map(|c| Item::Ch(*c)).collect();
      if errors {
        let i = c.below(items.len() + 1);
        items.insert(i, Item::Err(1));
      }
      let mut s = UserStream::new(items.clone());
      history(c, &mut s, items)
    }
    _ => {
      let mut items: VecDeque<Item<u8>> = string.bytes().map(Item::Ch).collect();
      if errors {
        let i = c.below(items.len() + 1);
        items.insert(i, Item::Err(1));
      }
      let mut s = UserStream::new(items.clone());
      history(c, &mut s, items)
    }
  }
}
