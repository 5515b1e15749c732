//! The library with no feature at all: it has to build (C25).
use laps::input::InputStream;
fn main() {
  let mut r = laps::reader::Reader::from("ab");
  assert_eq!(r.next_char(), Ok(Some('a')));
  let e = laps::log_error!(r.span(), "x");
  assert_eq!(e, laps::span::Error::Normal("<buffer>:1:1: x".into()));
}
