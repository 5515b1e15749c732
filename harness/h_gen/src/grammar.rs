//! C19, and the derived types of C17 and C20: generated grammars.

use pbt::Ctx;

pub struct Def {
  pub source: String,
}

/// What a type's span needs: always there, may be absent, none.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sp {
  S,
  T,
  N,
}

#[derive(Clone, Debug)]
struct Ty {
  src: String,
  g: String,
  sp: Sp,
  /// A successful parse takes at least one token.
  consumes: bool,
  /// It is one token AST.
  token: bool,
}

const MASKS: &[(&str, u32)] = &[("a", 1), ("b", 2), ("c", 4), ("d", 8), ("ab", 3), ("bc", 6), ("abd", 11), ("any", 15)];

struct Gen {
  /// What is known about the rules from the current one on: span class and
  /// whether they consume.
  known: Vec<Option<(Sp, bool)>>,
  names: Vec<String>,
}

fn token(c: &mut Ctx) -> Ty {
  let (n, m) = if c.prob(2, 3) { MASKS[c.below(4)] } else { MASKS[c.below(MASKS.len())] };
  let src = match c.below(6) {
    0 => format!("Ta<{m}>"),
    1 => format!("Token![{n}]"),
    _ => format!("Token![{n}]"),
  };
  Ty { src, g: format!("G::Set({m})"), sp: Sp::S, consumes: true, token: true }
}

impl Gen {
  /// A type for rule `r`; `free`: at least one token is taken before it.
  fn ty(&self, c: &mut Ctx, r: usize, free: bool, depth: usize) -> Ty {
    let n = self.names.len();
    let k = if depth == 0 { c.weighted(&[6, 4]) } else { c.weighted(&[8, 8, 3, 4, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1]) };
    let bx = |t: &Ty| format!("Box::new({})", t.g);
    match k {
      1 => {
        // another rule
        if free && c.bool() {
          let j = c.below(n);
          let (sp, _) = self.known[j].unwrap_or((Sp::N, false));
          let name = &self.names[j];
          // the names of rules that are not complete yet need a box
          let consumes = self.known[j].is_some_and(|k| k.1) && j > r;
          return if j <= r {
            Ty { src: format!("Box<{name}>"), g: format!("G::Rule({j})"), sp: Sp::N, consumes: false, token: false }
          } else {
            Ty { src: name.clone(), g: format!("G::Rule({j})"), sp, consumes, token: false }
          };
        }
        if r + 1 >= n {
          return token(c);
        }
        let j = r + 1 + c.below(n - r - 1);
        let (sp, consumes) = self.known[j].expect("a later rule");
        Ty { src: self.names[j].clone(), g: format!("G::Rule({j})"), sp, consumes, token: false }
      }
      2 => {
        let t = self.ty(c, r, free, depth - 1);
        Ty { src: format!("Box<{}>", t.src), token: false, sp: if t.sp == Sp::S { Sp::S } else { Sp::N }, ..t }
      }
      3 => {
        let t = self.ty(c, r, free, depth - 1);
        Ty { src: format!("Option<{}>", t.src), g: format!("G::Opt({})", bx(&t)), sp: if t.sp == Sp::N { Sp::N } else { Sp::T }, consumes: false, token: false }
      }
      4 => {
        let t = self.eater(c, r, free, depth);
        Ty { src: format!("Vec<{}>", t.src), g: format!("G::Many({})", bx(&t)), sp: if t.sp == Sp::N { Sp::N } else { Sp::T }, consumes: false, token: false }
      }
      5 => {
        let m = 1 + c.below(3);
        let mut ts: Vec<Ty> = vec![];
        for _ in 0..m {
          let f = free || ts.iter().any(|t| t.consumes);
          ts.push(self.ty(c, r, f, depth - 1));
        }
        let src: String = ts.iter().map(|t| t.src.clone() + ", ").collect();
        let g: Vec<String> = ts.iter().map(|t| t.g.clone()).collect();
        let (a, b) = (ts.first().unwrap().sp, ts.last().unwrap().sp);
        Ty {
          src: format!("({})", src.trim_end()),
          g: format!("G::Tuple(vec![{}])", g.join(", ")),
          sp: if a == Sp::S && b == Sp::S { Sp::S } else { Sp::N },
          consumes: ts.iter().any(|t| t.consumes),
          token: false,
        }
      }
      6 => {
        let t = self.eater(c, r, free, depth);
        Ty { src: format!("NonEmptySeq<{}>", t.src), g: format!("G::NeSeq({})", bx(&t)), sp: if t.sp == Sp::S { Sp::S } else { Sp::N }, consumes: true, token: false }
      }
      7..=14 => {
        let (name, g, ne) = [
          ("SepSeq", "SepSeq", false),
          ("NonEmptySepSeq", "NeSepSeq", true),
          ("OptSepSeq", "OptSepSeq", false),
          ("NonEmptyOptSepSeq", "NeOptSepSeq", true),
          ("NonEmptySepList", "NeSepList", true),
          ("NonEmptyOptSepList", "NeOptSepList", true),
          ("SepList", "", false),
          ("OptSepList", "", false),
        ][k - 7];
        let t = self.eater(c, r, free, depth);
        let s = if c.prob(3, 4) { token(c) } else { self.eater(c, r, true, depth) };
        let list = k >= 11;
        let sp = match (ne, t.sp, s.sp) {
          (true, Sp::S, Sp::S) => Sp::S,
          (true, Sp::S, _) if !list => Sp::S,
          (true, ..) => Sp::N,
          (false, Sp::S, Sp::S) => Sp::T,
          (false, Sp::S | Sp::T, _) if !list => Sp::T,
          _ => Sp::N,
        };
        let g = match k {
          13 => format!("G::Opt(Box::new(G::NeSepList({}, {})))", bx(&t), bx(&s)),
          14 => format!("G::Opt(Box::new(G::NeOptSepList({}, {})))", bx(&t), bx(&s)),
          _ => format!("G::{g}({}, {})", bx(&t), bx(&s)),
        };
        Ty { src: format!("{name}<{}, {}>", t.src, s.src), g, sp, consumes: ne, token: false }
      }
      15 => {
        let (l, e) = (token(c), token(c));
        let t = self.ty(c, r, true, depth - 1);
        Ty { src: format!("Quoted<{}, {}, {}>", l.src, t.src, e.src), g: format!("G::Tuple(vec![{}, {}, {}])", l.g, t.g, e.g), sp: Sp::S, consumes: true, token: false }
      }
      16 | 17 => {
        let (name, g) = if k == 16 { ("OptPrefix", "OptPrefix") } else { ("OptTokenPrefix", "OptTokenPrefix") };
        let p = if k == 16 && c.bool() { self.eater(c, r, free, depth) } else { token(c) };
        // asked about before anything is taken
        let t = self.ty(c, r, false, depth - 1);
        let sp = if p.sp == Sp::S && t.sp == Sp::S { Sp::S } else { Sp::N };
        Ty { src: format!("{name}<{}, {}>", p.src, t.src), g: format!("G::{g}({}, {})", bx(&p), bx(&t)), sp, consumes: t.consumes, token: false }
      }
      18 => {
        let p = token(c);
        let t = self.ty(c, r, false, depth - 1);
        Ty { src: format!("TokenPrefix<{}, {}>", p.src, t.src), g: format!("G::TokenPrefix({}, {})", bx(&p), bx(&t)), sp: if t.sp == Sp::S { Sp::S } else { Sp::N }, consumes: true, token: false }
      }
      _ => token(c),
    }
  }

  /// A type that takes at least one token.
  fn eater(&self, c: &mut Ctx, r: usize, free: bool, depth: usize) -> Ty {
    for _ in 0..6 {
      let t = self.ty(c, r, free, depth.saturating_sub(1));
      if t.consumes {
        return t;
      }
    }
    token(c)
  }

  /// The fields of a struct or variant.
  fn fields(&self, c: &mut Ctx, r: usize, min: usize) -> Vec<Ty> {
    let mut v: Vec<Ty> = vec![];
    while c.more(v.len(), min, 5, 2) {
      let free = v.iter().any(|t| t.consumes);
      let depth = c.below(3);
      v.push(self.ty(c, r, free, depth));
    }
    v
  }
}

const RULES: &[&str] = &["Expr", "Stmt", "Item", "Value", "Block", "Decl", "Term", "Args", "Result_", "TS", "E0", "Unit"];
const VARIANTS: &[&str] = &["A", "B", "C", "Other", "Ok", "Some", "r#Type", "Left"];
const FIELDS: &[&str] = &["value", "tokens", "span", "next", "r#type", "first", "_x", "item", "f0", "self_", "result"];

/// A rule before it is spelled.
struct Out {
  is_enum: bool,
  vars: Vec<Vec<Ty>>,
  starts: Vec<(&'static str, u32)>,
  spanned: bool,
}

pub fn gen(c: &mut Ctx, k: usize) -> Def {
  let n = 1 + c.below(6);
  let mut names: Vec<String> = vec![];
  for i in 0..n {
    let w = *c.pick(RULES);
    names.push(if names.iter().any(|x| x == w) { format!("{w}{i}") } else { w.to_string() });
  }
  let mut gen = Gen { known: vec![None; n], names };
  let mut outs: Vec<Out> = vec![];
  for r in (0..n).rev() {
    let is_enum = c.bool();
    let nv = match is_enum {
      true if c.prob(1, 6) => 5 + c.below(8),
      true => 1 + c.below(4),
      false => 1,
    };
    let spanned = c.prob(3, 4);
    let vars: Vec<Vec<Ty>> = (0..nv)
      .map(|_| {
        let min = if spanned || c.prob(9, 10) { 1 } else { 0 };
        let mut fs = gen.fields(c, r, min);
        if spanned && !fs.iter().any(|f| f.sp == Sp::S) {
          // some field has to have a span always
          let i = c.below(fs.len() + 1);
          fs.insert(i, token(c));
        }
        if spanned && fs.iter().any(|f| f.sp == Sp::N) {
          // fields without spans are only possible in the middle
          let first = fs.iter().position(|f| f.sp == Sp::S).unwrap();
          let last = fs.len() - 1 - fs.iter().rev().position(|f| f.sp == Sp::S).unwrap();
          let mut out: Vec<Ty> = vec![];
          for (i, f) in fs.into_iter().enumerate() {
            if f.sp != Sp::N || (first < i && i < last) {
              out.push(f);
            }
          }
          fs = out;
        }
        fs
      })
      .collect();
    // taking fields away may leave rules before any token: they would recurse
    let vars: Vec<Vec<Ty>> = vars
      .into_iter()
      .map(|fs| {
        let mut out: Vec<Ty> = vec![];
        for f in fs {
          let free = out.iter().any(|t| t.consumes);
          if !free && refs_back(&f.g, r) {
            out.push(token(c));
          }
          out.push(f);
        }
        out
      })
      .collect();
    let consumes = vars.iter().all(|fs| fs.iter().any(|f| f.consumes));
    let ns = match c.below(16) {
      0 => 3 + c.below(6),
      1..=3 => 1 + c.below(3),
      _ => 0,
    };
    let starts = (0..ns).map(|_| MASKS[if c.prob(2, 3) { c.below(4) } else { c.below(MASKS.len()) }]).collect();
    gen.known[r] = Some((if spanned { Sp::S } else { Sp::N }, consumes));
    outs.push(Out { is_enum, vars, starts, spanned });
  }
  outs.reverse();
  let source = emit(c, &gen, &outs);
  let _ = k;
  Def { source }
}

/// Does the type mention rule `r` or one before it?
fn refs_back(g: &str, r: usize) -> bool {
  g.match_indices("G::Rule(").any(|(i, m)| {
    let t = &g[i + m.len()..];
    t[..t.find(')').unwrap()].parse::<usize>().unwrap() <= r
  })
}

/// The mask of some token among the fields.
fn leaves(vars: &[Vec<Ty>]) -> Option<u32> {
  vars.iter().flatten().rev().find_map(|f| {
    MASKS.iter().find(|(n, m)| f.src.contains(&format!("Ta<{m}>")) || f.src.contains(&format!("Token![{n}]"))).map(|x| x.1)
  })
}

fn emit(c: &mut Ctx, gen: &Gen, outs: &[Out]) -> String {
  let mut o = String::from("#![allow(warnings)]\nuse laps::prelude::*;\nuse laps::ast::*;\nuse h_gen::tokens::{K, Ta, Tk};\nuse h_gen::gens::{Mark, Tg};\npub trait Clone2 {}\nimpl<const M: u32> Clone2 for Ta<M> {}\n\n");
  o.push_str("token_ast! {\n  macro Token<K> {\n");
  for (n, m) in MASKS {
    let ks: Vec<String> = (0..4).filter(|k| m >> k & 1 == 1).map(|k: u8| k.to_string()).collect();
    if ks.len() == 1 && c.bool() {
      o.push_str(&format!("    [{n}] => {{ kind: K({}) }},\n", ks[0]));
    } else if c.bool() {
      o.push_str(&format!("    [{n}] => {{ kind: K({}), prompt: \"{n}\" }},\n", ks.join(" | ")));
    } else {
      let v: Vec<String> = ks.iter().map(|k| format!("*x == {k}")).collect();
      o.push_str(&format!("    [{n}] => {{ kind: K(x) if {}, prompt: \"{n}\" }},\n", v.join(" || ")));
    }
  }
  o.push_str("  }\n}\n\n");
  let mut forms: Vec<Vec<u8>> = vec![];
  let mut fields: Vec<Vec<Vec<String>>> = vec![];
  let mut vnames: Vec<Vec<String>> = vec![];
  for (r, out) in outs.iter().enumerate() {
    let name = &gen.names[r];
    let mut heads = vec![match (out.spanned, c.below(3)) {
      (false, _) => "#[derive(Parse)]\n".to_string(),
      (true, 0) => "#[derive(Parse, Spanned)]\n".into(),
      (true, 1) => "#[derive(Spanned, Parse)]\n".into(),
      (true, _) => "#[derive(Parse)]\n#[derive(Spanned)]\n".into(),
    }];
    let mut attrs = vec![["#[token(Tk)]\n", "#[token(h_gen::tokens::Tk)]\n", "#[token(laps::token::Token<K>)]\n"][c.below(3)].to_string()];
    if !out.starts.is_empty() {
      let v: Vec<String> = out.starts.iter().map(|s| format!("Token![{}]", s.0)).collect();
      attrs.push(format!("#[starts_with({})]\n", v.join(", ")));
    }
    if c.bool() {
      attrs.reverse();
    }
    if c.prob(1, 4) {
      heads.push("/// A rule.\n".into());
    }
    o.push_str(&heads.concat());
    o.push_str(&attrs.concat());
    // parameters, whose defaults are meant wherever the rule is named
    let leaf = leaves(&out.vars);
    let generic = match leaf {
      Some(_) if c.prob(1, 4) => 1 + c.below(3),
      _ if c.prob(1, 5) => 0,
      _ => 9,
    };
    let m = leaf.unwrap_or(MASKS[c.below(MASKS.len())].1);
    // a constant besides the types
    let constant = generic == 0 || generic < 9 && c.bool();
    let (mc, k) = if constant { ("M".to_string(), if generic == 3 { ", const M: u32".to_string() } else { format!(", const M: u32 = {m}") }) } else { (m.to_string(), String::new()) };
    // how tokens of the mask are spelled, the parameters, their bounds, and
    // what the name alone stands for
    let (tok, params, clause, alias) = match generic {
      0 => (
        "Ta<M>".to_string(),
        format!("<const M: u32 = {m}>"),
        ["", "", " where Ta<M>: Sized", " where Ta<M>: Clone2, [(); 4]: Sized,"][c.below(4)].to_string(),
        None,
      ),
      1 => {
        let (b, w) = [(": Mark", ""), ("", " where T: Mark"), (": Clone", " where T: Mark, Vec<T>: Sized,"), (": Mark + Clone", " where T: Copy")][c.below(4)];
        (format!("Tg<T, {mc}>"), format!("<T{b} = (){k}>"), w.to_string(), None)
      }
      2 => {
        let (a, b, w) = [(": Mark", ": Mark", ""), (": Mark", "", " where U: Mark"), ("", "", " where T: Mark, U: Mark,")][c.below(3)];
        (format!("Tg<(T, U), {mc}>"), format!("<T{a} = (), U{b} = &'static ()  {k}>"), w.to_string(), None)
      }
      3 => {
        let (t, b, w) = [
          ("&'a T", "<'a, T: Mark + ?Sized", ""),
          ("&'a T", "<'a, T: ?Sized", " where T: Mark + 'a"),
          ("(&'a (), &'b T)", "<'a, 'b: 'a, T: Mark + ?Sized + 'b", ""),
          ("(&'a T, &'b T)", "<'a: 'b, 'b, T: Mark + ?Sized", " where T: 'a, 'a: 'b"),
        ][c.below(4)];
        let l = if b.contains("'b") { "'static, 'static" } else { "'static" };
        (format!("Tg<{t}, {mc}>"), format!("{b}{k}>"), w.to_string(), Some(format!("<{l}, str{}>", if constant { format!(", {m}") } else { String::new() })))
      }
      _ => (format!("Ta<{m}>"), String::new(), String::new(), None),
    };
    let bare = name;
    let name = &match alias {
      Some(_) => format!("{name}G"),
      None => name.clone(),
    };
    let ty = |f: &Ty| {
      let mut s = f.src.clone();
      if generic < 9 {
        s = s.replace(&format!("Ta<{m}>"), &tok);
      }
      if (1..=3).contains(&generic) {
        let n = MASKS.iter().find(|x| x.1 == m).unwrap().0;
        s = s.replace(&format!("Token![{n}]"), &tok);
      }
      s
    };
    let mut rf = vec![];
    let mut rn = vec![];
    let mut rv = vec![];
    let mut body = String::new();
    for (vi, fs) in out.vars.iter().enumerate() {
      // 0: unit, 1: unnamed, 2: named
      let form = if fs.is_empty() { if out.spanned { 1 } else { c.below(3) as u8 } } else { 1 + c.below(2) as u8 };
      let mut used: Vec<String> = vec![];
      let mut spelled = vec![];
      for (i, f) in fs.iter().enumerate() {
        let mut n = c.pick(FIELDS).to_string();
        while used.contains(&n) {
          n = format!("{}{i}", c.pick(&["y", "z", "w"]));
        }
        used.push(n.clone());
        let at = if out.spanned && (f.sp == Sp::T || f.sp == Sp::S && c.prob(1, 6) && !fs.iter().any(|f| f.sp == Sp::N) && fs.iter().enumerate().any(|(j, g)| j != i && j > i && g.sp == Sp::S)) && f.sp != Sp::N { "#[try_span] " } else { "" };
        let vis = if out.is_enum { "" } else { ["", "pub ", "pub(crate) "][c.below(3)] };
        spelled.push(match form {
          2 => format!("{at}{vis}{n}: {}", ty(f)),
          _ => format!("{at}{vis}{}", ty(f)),
        });
      }
      let vn = if rv.contains(&VARIANTS[(vi * 3 + r) % VARIANTS.len()].to_string()) { format!("V{vi}") } else { VARIANTS[(vi * 3 + r) % VARIANTS.len()].to_string() };
      let content = match form {
        0 => String::new(),
        1 => format!("({})", spelled.join(", ")),
        _ => format!(" {{ {} }}", spelled.join(", ")),
      };
      if out.is_enum {
        body.push_str(&format!("  {vn}{content},\n"));
      } else {
        body.push_str(&content);
      }
      rf.push(form);
      rn.push(used);
      rv.push(vn);
    }
    if out.is_enum {
      o.push_str(&format!("pub enum {name}{params}{clause} {{\n{body}}}\n\n"));
    } else {
      o.push_str(&match rf[0] {
        2 => format!("pub struct {name}{params}{clause}{body}\n\n"),
        _ => format!("pub struct {name}{params}{body}{clause};\n\n"),
      });
    }
    if let Some(a) = alias {
      o.push_str(&format!("pub type {bare} = {name}{a};\n\n"));
    }
    forms.push(rf);
    fields.push(rn);
    vnames.push(rv);
  }
  o.push_str("// driver\nuse h_gen::astref::{Ast, G, Rule, Tree, Entry};\n");
  o.push_str("macro_rules! leaf { ($($t:ty, $m:expr;)*) => {$(impl Ast for $t { fn g() -> G { G::Set($m) } fn tree(&self) -> Tree { Tree::Leaf(h_gen::tokens::id(&self.0)) } })*} }\nleaf! {");
  for (n, m) in MASKS {
    o.push_str(&format!(" Token![{n}], {m};"));
  }
  o.push_str(" }\n");
  for (r, out) in outs.iter().enumerate() {
    let name = &gen.names[r];
    o.push_str(&format!("impl Ast for {name} {{\n  fn g() -> G {{ G::Rule({r}) }}\n  fn tree(&self) -> Tree {{\n    match self {{\n"));
    for (vi, fs) in out.vars.iter().enumerate() {
      let p = if out.is_enum { format!("{name}::{}", vnames[r][vi]) } else { name.clone() };
      let binds: Vec<String> = fs
        .iter()
        .enumerate()
        .map(|(i, _)| if forms[r][vi] == 2 { format!("{}: p{i}", fields[r][vi][i]) } else { format!("{i}: p{i}") })
        .collect();
      let ts: Vec<String> = (0..fs.len()).map(|i| format!("p{i}.tree()")).collect();
      let ts = ts.join(", ");
      let v = if out.is_enum { format!("Tree::Var({vi}, vec![{ts}])") } else { format!("Tree::Node(vec![{ts}])") };
      o.push_str(&format!("      {p} {{ {} }} => {v},\n", binds.join(", ")));
    }
    o.push_str("    }\n  }\n}\n");
  }
  o.push_str("fn rules() -> Vec<Rule> {\n  vec![\n");
  for out in outs {
    let vs: Vec<String> = out.vars.iter().map(|fs| format!("vec![{}]", fs.iter().map(|f| f.g.clone()).collect::<Vec<_>>().join(", "))).collect();
    let st: Vec<String> = out.starts.iter().map(|s| s.1.to_string()).collect();
    o.push_str(&format!("    Rule {{ is_enum: {}, variants: vec![{}], starts: vec![{}] }},\n", out.is_enum, vs.join(", "), st.join(", ")));
  }
  o.push_str("  ]\n}\npub fn entry() -> h_gen::Entry {\n  use h_gen::astref;\n  let mut v = h_gen::entries! {\n");
  for (r, out) in outs.iter().enumerate() {
    o.push_str(&format!("    {} {};\n", if out.spanned { "sp_s" } else { "sp_n" }, gen.names[r]));
  }
  // the rules inside the predefined types
  o.push_str(&format!("    {} Option<{}>;\n", if outs[0].spanned { "sp_t" } else { "sp_n" }, gen.names[0]));
  o.push_str("  };\n  v.iter_mut().for_each(|e| e.rules = rules());\n  h_gen::Entry::Grammar(v)\n}\n");
  o
}
