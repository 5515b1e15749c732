//! h_gen_emit PROP SEED ROUND TIER DIR CHUNKS: writes the crates of a
//! property's definitions: DIR/gK/lib.rs with DIR/gK/dN.rs, and DIR/main.rs.

use h_gen::{definitions, Plan, PROPS};
use std::fs;

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let prop = PROPS.iter().find(|p| **p == a[1]).expect("property");
  let p = Plan { prop, seed: a[2].parse().unwrap(), round: a[3].parse().unwrap(), thorough: a[4] == "thorough" };
  let dir = &a[5];
  let chunks: usize = a[6].parse().unwrap();
  // definitions are generated with a deep stack, as they are when they run
  let defs = std::thread::Builder::new().stack_size(64 << 20).spawn(move || definitions(&p)).unwrap().join().unwrap();
  let mut libs = vec![String::from("#![allow(warnings)]\n"); chunks];
  let mut main = String::from("fn main() {\n  h_gen::main(\n");
  main += &format!("    h_gen::Plan {{ prop: {prop:?}, seed: {}, round: {}, thorough: {} }},\n    vec![\n", p.seed, p.round, p.thorough);
  for k in 0..chunks {
    fs::create_dir_all(format!("{dir}/g{k}")).unwrap();
  }
  for (i, d) in defs.iter().enumerate() {
    let k = i % chunks;
    libs[k] += &format!("pub mod d{i};\n");
    fs::write(format!("{dir}/g{k}/d{i}.rs"), d.source().replace("@MOD@", &format!("d{i}"))).unwrap();
    main += &format!("      g{k}::d{i}::entry(),\n");
  }
  main += "    ],\n  )\n}\n";
  for (k, l) in libs.iter().enumerate() {
    fs::write(format!("{dir}/g{k}/lib.rs"), l).unwrap();
  }
  fs::write(format!("{dir}/main.rs"), main).unwrap();
}
