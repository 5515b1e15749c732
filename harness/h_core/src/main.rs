//! Checks of the laps crate with its logger (C09, C10, C14-C18, C20, C23, C24,
//! C26).

mod astref;
mod asts;
mod capture;
mod diag;
mod lits;
mod spans;
mod streams;
mod tokens;

use pbt::{Prop, Sub};

fn main() {
  // diagnostics are plain text, and only looked at where they are captured
  std::env::remove_var("CLICOLOR_FORCE");
  std::env::set_var("NO_COLOR", "1");
  capture::silence();
  pbt::main(vec![
    Prop {
      id: "C09",
      subs: vec![
        Sub::new("chunked-sources", 1800000, 30000000, streams::c09, "byte contents (1-4 byte characters, contents ending around the 1024-byte buffer limit, invalid and truncated sequences) cut into random read sizes with I/O errors in between; Reader compared with an independent UTF-8 decoder, ByteReader with the bytes; non-trivial: a character is split over reads, the content passes the buffer size, or there is an error"),
        Sub::new("source-kinds", 90000, 1000000, streams::c09_sources, "the same contents through from_path, From<&str>, From<String>, From<&[u8]> of both readers; non-trivial: more than 3 bytes"),
        Sub::new("standard-input", 40000, 600000, streams::c09_stdin, "the same contents (some after more than standard input buffers at once) as standard input, through from_stdin and From<Stdin> of both readers; non-trivial: more than 3 bytes").serial(),
      ],
    },
    Prop {
      id: "C10",
      subs: vec![Sub::new("stream-histories", 6000000, 60000000, streams::c10, "histories of next_char_loc/next_char/next_char_span/next_span, unread (of what was read and of new characters), peek, peek_with_span, skip_until, collect_until, collect_with_span_until, set_line_col on Reader, ByteReader (random read sizes and I/O errors) and user-written streams with only the required methods; content, location and spans compared with a model after every step, then drained; non-trivial: a newline was crossed and something was peeked or put back")],
    },
    Prop {
      id: "C14",
      subs: vec![Sub::new("integers", 16000000, 160000000, lits::c14, "integer texts around the limits of every type, in every radix, with leading zeros, signs and local mutations, and arbitrary texts; parsed as all 12 types, signed and unsigned, against 128-bit arithmetic; non-trivial: some type accepts it")],
    },
    Prop {
      id: "C15",
      subs: vec![
        Sub::new("strings", 9000000, 100000000, lits::c15_str, "random strings spelled with a random mix of raw characters and all documented escapes (half of them mutated), against the known text and an independent recogniser; non-trivial: accepted with an escape, or rejected with an opening quote"),
        Sub::new("characters", 6000000, 60000000, lits::c15_char, "the same for character literals; non-trivial: accepted, or rejected with an opening quote"),
        Sub::new("soup", 9000000, 90000000, lits::c15_soup, "texts made of quotes, escape fragments and special characters through both parsers; non-trivial as above"),
      ],
    },
    Prop {
      id: "C16",
      subs: vec![
        Sub::new("token-histories", 1000000, 40000000, tokens::c16, "histories of next_token, unread, peek, peek2, peek_n, skip_until, collect_until, expect (by kind and by token), look-ahead by hand and by conditions, parse, over TokenBuffer and a user-written stream, with tokenizer errors anywhere; against a model, then drained; non-trivial: something was put back and something peeked"),
        Sub::new("tokens", 120000, 2000000, tokens::c16_tokens, "equality, hashing, display and conversions of pairs of tokens; non-trivial: equal kinds at different places"),
      ],
    },
    Prop {
      id: "C17",
      subs: vec![Sub::new("may-start", 3000000, 36000000, asts::c17, "149 types built from every predefined AST type, tuples of 1-26, Box, Option, Vec, over token streams near their sentences with tokenizer errors anywhere and tokens read ahead or put back; asked three times, then the stream is drained; non-trivial: more than one token ahead or an error")],
    },
    Prop {
      id: "C18",
      subs: vec![Sub::new("predefined-asts", 4800000, 64000000, asts::c18, "the same types and streams: may-start answer, parsed value, and rest of the stream (or rejection) against a reference interpreter of the documented forms; non-trivial: more than one token was consumed")],
    },
    Prop {
      id: "C20",
      subs: vec![
        Sub::new("parsed-spans", 6000000, 60000000, asts::c20, "spans of parsed values of the same types (token spans in any order) against first and last stored token; non-trivial: at least two stored tokens"),
        Sub::new("hand-built-values", 1500000, 15000000, asts::c20_values, "nested Option/Vec/Box/tuple values with parts missing anywhere; non-trivial: at least two stored tokens"),
      ],
    },
    Prop {
      id: "C23",
      subs: vec![
        Sub::new("counts", 60000, 2400000, spans::c23, "histories of all logging operations and macros through spans derived from 1-3 inputs (clones, updated, extended, dropped), single-threaded and from 2-4 threads at once; counts of every span after every step; non-trivial: derived spans or threads, and both errors and warnings"),
        Sub::new("summary", 12000, 120000, diag::c23_summary, "the same histories, then the printed summary; non-trivial as above").serial(),
      ],
    },
    Prop {
      id: "C24",
      subs: vec![Sub::new("diagnostics", 240000, 4500000, diag::c24, "located diagnostics over generated files (wide, zero-width and control characters, tabs, CRLF, missing last newline, up to four-digit line numbers; missing, non-UTF-8 and directory files), spans inside (single line, several lines, long) and outside or reversed; printed text parsed and compared with the file; non-trivial: inside a readable file, several lines or not at the first column").serial()],
    },
    Prop {
      id: "C26",
      subs: vec![Sub::new("span-histories", 9000000, 90000000, spans::c26, "pools of spans over 1-3 inputs, changed by update/update_loc/update_end and derived by clone/into_updated/into_end_updated over characters and bytes; every span compared with a model after every step, then display, equality and same-line of all pairs; non-trivial: some span was extended and some newline crossed")],
    },
  ])
}
