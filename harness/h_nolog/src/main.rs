//! Checks of the laps crate built without its logger (C25).

#[path = "../../h_core/src/astref.rs"]
mod astref;
#[path = "../../h_core/src/asts.rs"]
mod asts;
#[path = "../../h_core/src/capture.rs"]
mod capture;
mod front;
mod msgs;
#[path = "../../h_core/src/spans.rs"]
mod spans;
#[path = "../../h_core/src/streams.rs"]
mod streams;
#[path = "../../h_core/src/tokens.rs"]
mod tokens;

use pbt::{Prop, Sub};

fn main() {
  pbt::main(vec![Prop {
    id: "C25",
    subs: vec![
      Sub::new("error-values", 180000, 6000000, msgs::c25_values, "histories of all logging operations and macros with arbitrary messages and spans over all file types; error values, fatality, counters, and that nothing reaches standard error or output; non-trivial: at least two errors, one of them located").serial(),
      Sub::new("error-messages", 180000, 6000000, msgs::c25_errors, "errors of TokenStream::expect (by kind and token) and of readers (I/O errors, invalid UTF-8): text, location, fatality, counters, position afterwards, nothing printed; non-trivial: an error occurred").serial(),
      Sub::new("counts", 60000, 2400000, spans::c23, "the histories of C23 without the logger; non-trivial: derived spans or threads, and both errors and warnings"),
      Sub::new("streams", 600000, 12000000, streams::c10, "the histories of C10 without the logger"),
      Sub::new("sources", 180000, 6000000, streams::c09, "the sources of C09 without the logger"),
      Sub::new("token-histories", 900000, 24000000, tokens::c16, "the histories of C16 without the logger"),
      Sub::new("may-start", 450000, 12000000, asts::c17, "the streams of C17 without the logger"),
      Sub::new("predefined-asts", 450000, 12000000, asts::c18, "the types and streams of C18 without the logger"),
      Sub::new("parsed-spans", 300000, 12000000, asts::c20, "the spans of C20 without the logger"),
      Sub::new("span-histories", 450000, 12000000, spans::c26, "the histories of C26 without the logger"),
    ],
  }, Prop {
    id: "C28",
    subs: vec![
      Sub::new("documents", 1800000, 15000000, front::c28, "configuration documents (a third damaged) in random layout and spelling, through a front end of derived components: every stored token and its value, the tree, the span of every part, and the place of the error of malformed documents; non-trivial: at least 5 tokens"),
    ],
  }])
}
