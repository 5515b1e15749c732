//! Checks of the derive macros: definitions are generated, spelled as Rust
//! modules, compiled against the library, and run against references.
//!
//! The definitions of a property are a function of (property, seed, round,
//! tier).  `h_gen_emit` writes their modules; the program made of them
//! regenerates the definitions and drives them.

#[path = "../../h_core/src/astref.rs"]
pub mod astref;
#[path = "../../h_core/src/streams.rs"]
#[allow(dead_code)]
pub mod streams;
#[path = "../../h_core/src/tokens.rs"]
#[allow(dead_code)]
pub mod tokens;

pub mod gens;
pub mod grammar;
pub mod kinds;
pub mod lex;
pub mod rt;
pub mod tast;
pub mod text;

use pbt::{hash_of, mix, Ctx, Prop, Sub, R};
use std::sync::OnceLock;

pub enum Def {
  Lex(lex::Def),
  Kinds(kinds::Def),
  Tast(tast::Def),
  Grammar(grammar::Def),
}

pub enum Entry {
  Lex(lex::Entry),
  Kinds(kinds::Entry),
  Tast(tast::Entry),
  Grammar(Vec<astref::Entry>),
}

impl Def {
  pub fn source(&self) -> &str {
    match self {
      Def::Lex(d) => &d.source,
      Def::Kinds(d) => &d.source,
      Def::Tast(d) => &d.source,
      Def::Grammar(d) => &d.source,
    }
  }
  /// The part that a reader wants to see.
  pub fn shown(&self) -> &str {
    let s = self.source();
    &s[..s.find("// driver").unwrap_or(s.len())]
  }
}

/// What is generated: property, seed, round and tier.
#[derive(Clone, Copy, Debug)]
pub struct Plan {
  pub prop: &'static str,
  pub seed: u64,
  pub round: u64,
  pub thorough: bool,
}

pub const PROPS: &[&str] = &["C11", "C12", "C13", "C17", "C19", "C20", "C21", "C22"];

/// Definitions, simple ones first.
pub fn definitions(p: &Plan) -> Vec<Def> {
  let ctx = |k: usize| {
    let mut c = Ctx::random(mix(mix(p.seed ^ 0x9e7) ^ hash_of(&(p.prop, p.round, k))));
    c.recording = false;
    c
  };
  let mut v: Vec<Def> = vec![];
  match p.prop {
    "C11" | "C12" => (0..96).for_each(|k| v.push(Def::Lex(lex::general(&mut ctx(k))))),
    "C13" => {
      for k in 0..36 {
        lex::sized(&mut ctx(k), k).into_iter().for_each(|d| v.push(Def::Lex(d)));
      }
    }
    "C21" => (0..120).for_each(|k| v.push(Def::Kinds(kinds::gen(&mut ctx(k), k)))),
    "C22" => (0..56).for_each(|k| v.push(Def::Tast(tast::gen(&mut ctx(k), k)))),
    "C17" | "C19" | "C20" => (0..64).for_each(|k| v.push(Def::Grammar(grammar::gen(&mut ctx(k), k)))),
    _ => unreachable!(),
  }
  v.sort_by_key(|d| d.source().len());
  v
}

static WORLD: OnceLock<Vec<(Def, Entry)>> = OnceLock::new();

fn world() -> &'static [(Def, Entry)] {
  WORLD.get().expect("set up")
}

fn pick(c: &mut Ctx) -> (usize, &'static Def, &'static Entry) {
  let w = world();
  let i = c.below(w.len());
  c.note(|| format!("definition {i}:\n{}", w[i].0.shown()));
  (i, &w[i].0, &w[i].1)
}

fn lexers(c: &mut Ctx, a: lex::Aspect) -> R {
  match pick(c) {
    (i, Def::Lex(d), Entry::Lex(e)) => lex::check(c, i, d, e, a),
    _ => unreachable!(),
  }
}
fn c11(c: &mut Ctx) -> R {
  lexers(c, lex::Aspect::Tokens)
}
fn c12(c: &mut Ctx) -> R {
  lexers(c, lex::Aspect::Spans)
}
fn c13(c: &mut Ctx) -> R {
  lexers(c, lex::Aspect::Both)
}
fn grammars(c: &mut Ctx, f: fn(&mut Ctx, &astref::Entry) -> R) -> R {
  match pick(c) {
    (_, _, Entry::Grammar(v)) => {
      let e = c.pick(v);
      f(c, e)
    }
    _ => unreachable!(),
  }
}
fn c17(c: &mut Ctx) -> R {
  grammars(c, astref::check_maybe)
}
fn c19(c: &mut Ctx) -> R {
  grammars(c, |c, e| astref::check_parse(c, e, 0))
}
fn c20(c: &mut Ctx) -> R {
  grammars(c, astref::check_span)
}
fn c21(c: &mut Ctx) -> R {
  match pick(c) {
    (_, Def::Kinds(d), Entry::Kinds(e)) => kinds::check(c, d, e),
    _ => unreachable!(),
  }
}
fn c22(c: &mut Ctx) -> R {
  match pick(c) {
    (_, Def::Tast(d), Entry::Tast(e)) => tast::check(c, d, e),
    _ => unreachable!(),
  }
}

fn subs(prop: &str) -> Vec<Sub> {
  match prop {
    "C11" => vec![Sub::new("generated-lexers", 300000, 300000, c11, "token-kind enums with 1-7 generated rules (regex, skip, end-of-file and unmatched variants; payloads of several types with every form of parser; characters and bytes; all settings), each compiled, over inputs near token sequences from three kinds of sources, some of which fail at some character; kinds, payloads and error texts against a longest-match simulation of the position automata of the rules, reading on after errors; non-trivial: several tokens, or a token and an error")],
    "C12" => vec![Sub::new("generated-lexers", 300000, 300000, c12, "the lexers of C11 with other rules, over inputs with newlines and multi-byte characters; spans of tokens, places and kinds of errors and the position of the input after every step against the text; non-trivial: several tokens, or a token and an error")],
    "C13" => vec![Sub::new("generated-tables", 100000, 100000, c13, "lexers that need given numbers of states (2 to 600, half of them within 3 of 128, 256 or 512) or many classes, for bytes and characters, with lexer generation parallel, serial and automatic, compiled and run on inputs that go through most states; tokens and spans as in C11 and C12; non-trivial: several tokens, or a token and an error")],
    "C17" => vec![Sub::new("derived-may-start", 300000, 300000, c17, "as above for derived structs and enums (generated grammars of 2-6 mutually recursive rules over all AST types, with and without starts_with); non-trivial: more than one token ahead or an error")],
    "C19" => vec![Sub::new("generated-grammars", 500000, 500000, c19, "grammars of 2-6 mutually recursive structs and enums over token ASTs and all predefined AST types, with starts_with lists, generics and every field style, each compiled; may-start answer, parsed tree and rest of the stream (or rejection) against a reference interpreter, over token streams near sentences; non-trivial: more than one token was consumed")],
    "C20" => vec![Sub::new("derived-spans", 300000, 300000, c20, "spans of parsed values of the derived types of generated grammars, with try_span fields anywhere; non-trivial: at least two stored tokens")],
    "C21" => vec![Sub::new("generated-kinds", 300000, 300000, c21, "token-kind enums with generated names, documentation and shapes (unit, empty, one to three unnamed fields of 14 types, named fields), each compiled; From, TryFrom by value and reference to every payload type, display, cloning and equality of pairs of values; non-trivial: two different kinds, one of them with a payload")],
    "C22" => vec![Sub::new("generated-token-asts", 300000, 300000, c22, "token_ast definitions of 3-10 arms over generated token kinds (literals, ranges, alternatives, bindings, wildcards, guards, default prompts, arbitrary prompts, every visibility and path form), each compiled; may-start answers, parsed token and span, unwrapping, error text and place over token streams of two kinds; non-trivial: both a match and a mismatch")],
    _ => unreachable!(),
  }
}

/// Main function of the program made of compiled definitions.
pub fn main(plan: Plan, entries: Vec<Entry>) -> ! {
  let defs = definitions(&plan);
  assert_eq!(defs.len(), entries.len());
  let _ = WORLD.set(defs.into_iter().zip(entries).collect());
  pbt::main(vec![Prop { id: plan.prop, subs: subs(plan.prop) }])
}
