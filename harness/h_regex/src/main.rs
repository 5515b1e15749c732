//! Checks of laps_regex (C01-C08, C27).

mod common;
mod fa;
mod lang;
mod mirs;
mod total;

use pbt::{Prop, Sub};

fn main() {
  pbt::main(vec![
    Prop {
      id: "C01",
      subs: vec![
        Sub::new("char-language", 15000, 150000, lang::c01, "random sets of 1-7 regexes (overlapping tiny alphabets, classes with encoding-edge characters, Perl/Unicode classes, counted repetition, keyword lists, realistic lexer rules, equivalent rewrites); every case builds the matcher twice and compares it with a position-automaton reference on all reachable state pairs over both ends of every symbol interval, plus generated strings through is_str_match/is_match; non-trivial: the reference automaton has at least 3 states"),
        Sub::new("char-big", 50, 1500, lang::c01_big, "large sets: all realistic lexer rules or 20-60 keywords with identifiers; compared on generated strings and, where small enough, on all state pairs; non-trivial: more than 40 positions"),
        Sub::new("char-many", 30, 1200, lang::c01_many, "200-400 patterns that each begin with a character or range of its own, with pairwise different tags, so that there are several hundred symbol classes and states; compared with the reference on all reachable state pairs; non-trivial: more than 256 symbol classes"),
      ],
    },
    Prop {
      id: "C02",
      subs: vec![Sub::new("byte-language", 60000, 900000, lang::c02, "random sets of byte regexes (bytes 0x00-0xff, negated classes, any-byte, realistic rules); compared with the reference on all reachable state pairs over both ends of every byte interval, with tags, plus generated byte strings through is_match and is_str_match; non-trivial: the reference automaton has at least 3 states")],
    },
    Prop {
      id: "C03",
      subs: vec![
        Sub::new("many-tags", 30, 1200, lang::c03_many, "200-400 patterns that each begin with a character or range of its own and copies of some of them, with pairwise different tags; compared with the reference on all reachable state pairs; non-trivial: more than 256 symbol classes"),
        Sub::new("smallest-tag", 15000, 150000, lang::c03, "sets with duplicate, rewritten-equivalent, prefix and overlapping patterns under permuted tags (several integer and string tag types); built in two add orders and compared with the reference (smallest tag) on all state pairs; non-trivial: some sequence is matched by two patterns with different tags"),
      ],
    },
    Prop {
      id: "C04",
      subs: vec![Sub::new("incremental", 40000, 400000, lang::c04, "histories of is_accept (viable and non-viable symbols), reset, state, is_final, is_state_final on remembered states, is_match and is_str_match, against the reference automaton; chars and bytes; non-trivial: a symbol was rejected after one was accepted, or a reset happened mid-way")],
    },
    Prop {
      id: "C05",
      subs: vec![
        Sub::new("par-serial-auto", 5000, 90000, lang::c05, "the same set built with parallelization forced, forbidden and automatic (including sets with more than 64 symbol classes, where automatic means parallel): all three compared pairwise on all reachable state pairs and by state count; non-trivial: at least 3 states"),
        Sub::new("many-classes", 30, 1200, lang::c05_many, "200-400 patterns that each begin with a character or range of its own, with pairwise different tags, so that there are several hundred symbol classes and states; built in the three ways, compared with the reference on all reachable state pairs, state counts against the minimum; non-trivial: more than 256 symbol classes"),
        Sub::new("concurrent-builds", 1500, 40000, lang::c05_threads, "2-5 different sets built at the same time on as many threads with random parallelization settings; every matcher compared with the reference; non-trivial: always (at least two builds overlap)"),
      ],
    },
    Prop {
      id: "C06",
      subs: vec![
        Sub::new("many-classes", 20, 800, lang::c06_many, "the same checks on 200-400 patterns that each begin with a character or range of its own, with pairwise different tags: several hundred symbol classes and states; non-trivial: always"),
        Sub::new("table-shape", 30000, 350000, lang::c06, "tables of random char and byte matchers: shape, disjoint ranges, bounds, lookups through the published map against next_state for both ends and neighbours of every range, unknown states, minimality against partition refinement of the reference; non-trivial: at least 3 states and 2 symbol classes"),
      ],
    },
    Prop {
      id: "C07",
      subs: vec![Sub::new("totality", 150000, 1500000, total::c07, "lists of 0-4 patterns made of random syntax fragments, mutated valid patterns or arbitrary text, built as characters and bytes in both syntax modes; the outcome is compared with parsing and a structural scan for unsupported constructs; non-trivial: at least one pattern is rejected or at least one non-literal construct is accepted")],
    },
    Prop {
      id: "C08",
      subs: vec![
        Sub::new("stages-char", 30000, 300000, mirs::c08_char, "random intermediate representations over characters (a fifth of them made from pattern sets; unsorted, overlapping, adjacent ranges; nested concatenations, alternations, closures, empties; tags on the outermost alternation, also nested behind a common prefix): optimize, NFA of both, DFA, table compared with the reference; DFA edges checked for determinism; non-trivial: at least 3 reference states"),
        Sub::new("stages-byte", 30000, 300000, mirs::c08_byte, "the same over bytes"),
      ],
    },
    Prop {
      id: "C27",
      subs: vec![
        Sub::new("automaton-histories", 960000, 32000000, fa::c27_fa, "histories over several automata: add_state, add_final_state, set_final_state, set_normal_state, edges, union, queries of known and unknown states, dump; against a model; dense and multi-edge states; non-trivial: a union or a final mark change happened after edges were added"),
        Sub::new("closures", 960000, 32000000, fa::c27_closure, "random automata with empty and symbol edges (cycles included); sequences of epsilon_closure/state_closure queries sharing one cache, against graph reachability; non-trivial: some closure is larger than its seed"),
        Sub::new("built-dumps", 20000, 200000, mirs::c27_built, "dumps of the NFAs and DFAs built from random representations against the dump of the automaton they are made of, also to writers that take less; non-trivial: more than two symbol positions"),
      ],
    },
  ])
}
