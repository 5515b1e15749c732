//! Runs the repository's example programs on generated inputs (C28).

mod calc;
mod clike;
mod json;
mod known;
mod lex;
mod run;
mod sexp;

use pbt::{Prop, Sub};

fn main() {
  pbt::main(vec![Prop {
    id: "C28",
    subs: vec![
      Sub::new("calc", 18000, 800000, calc::c28, "arithmetic expressions (a third of them damaged) in random layout, run by the calc example, against shunting-yard evaluation; non-trivial: at least 5 tokens"),
      Sub::new("sexp", 18000, 800000, sexp::c28, "S-expressions (a quarter unbalanced) in random layout, run by the sexp example: tokens, spans and nesting of the printed trees; non-trivial: at least 5 tokens"),
      Sub::new("json", 24000, 1000000, json::c28, "JSON documents (a third damaged) in random layout, run by the json example, decoded from its output, printed again differently and parsed again; non-trivial: at least 5 tokens"),
      Sub::new("clike", 37500, 1600000, clike::c28, "programs of the C-like language (functions, arrays, loops, recursion, input, printing; a quarter damaged) run by the clike example, against a direct interpreter: output and exit code; non-trivial: at least 30 tokens and something printed, or malformed"),
    ],
  }])
}
