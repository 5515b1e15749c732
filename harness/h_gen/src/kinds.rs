//! C21: token kinds.

use crate::rt::W;
use crate::text;
use pbt::{ensure_eq, fail, Ctx, R};
use std::any::Any;
use std::fmt::{Debug, Display};

/// Types of payloads, and how they are spelled.
const TYPES: &[&str] = &[
  "String", "char", "i64", "u8", "bool", "f64", "&'static str", "Box<str>", "u128", "h_gen::rt::W<1>", "h_gen::rt::W<2>", "std::string::String",
  "i32", "std::rc::Rc<str>", "Local", "std::num::NonZeroU16", "Box<i16>", "h_gen::kinds::Gen<i64>",
];

#[derive(Clone, Debug)]
pub enum Shape {
  Unit,
  /// Unnamed fields, by type.
  Unnamed(Vec<usize>),
  Named(Vec<usize>),
}

pub struct Var {
  pub name: String,
  pub doc: Vec<String>,
  pub shape: Shape,
}

pub struct Def {
  pub vars: Vec<Var>,
  pub source: String,
}

/// A generic user type.
#[derive(Clone, PartialEq, Debug)]
pub struct Gen<T>(pub T);
impl<T: Display> Display for Gen<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "<{}>", self.0)
  }
}

/// Payloads.
pub trait Payload: Clone + PartialEq + Debug + Display + 'static {
  fn gen(c: &mut Ctx) -> Self;
}

fn chr(c: &mut Ctx) -> char {
  *c.pick(&['a', 'b', '0', ' ', '`', '{', '}', '"', '\\', '\n', 'é', '你', '\u{1f600}', '\u{0}', '%', '\u{301}'])
}
fn string(c: &mut Ctx) -> String {
  c.vec(0, 6, 2, chr).into_iter().collect()
}
fn number(c: &mut Ctx) -> i64 {
  match c.below(3) {
    0 => c.below(4) as i64,
    1 => -(c.below(4) as i64),
    _ => c.choice(u64::MAX) as i64,
  }
}
impl Payload for String {
  fn gen(c: &mut Ctx) -> Self {
    string(c)
  }
}
impl Payload for char {
  fn gen(c: &mut Ctx) -> Self {
    chr(c)
  }
}
macro_rules! int {
  ($($t:ty)*) => {$(impl Payload for $t {
    fn gen(c: &mut Ctx) -> Self {
      match c.below(4) {
        0 => <$t>::MAX,
        1 => <$t>::MIN,
        _ => number(c) as $t,
      }
    }
  })*};
}
int!(i64 u8 u128 i32 i16);
impl Payload for bool {
  fn gen(c: &mut Ctx) -> Self {
    c.bool()
  }
}
impl Payload for f64 {
  fn gen(c: &mut Ctx) -> Self {
    *c.pick(&[0.0, 1.5, -2.25, 1e300, f64::INFINITY, 1.0, 1e-7])
  }
}
impl Payload for &'static str {
  fn gen(c: &mut Ctx) -> Self {
    *c.pick(&["", "a", "b c", "`", "{}", "\n"])
  }
}
impl Payload for Box<str> {
  fn gen(c: &mut Ctx) -> Self {
    string(c).into()
  }
}
impl Payload for std::rc::Rc<str> {
  fn gen(c: &mut Ctx) -> Self {
    string(c).into()
  }
}
impl Payload for Box<i16> {
  fn gen(c: &mut Ctx) -> Self {
    Box::new(i16::gen(c))
  }
}
impl Payload for std::num::NonZeroU16 {
  fn gen(c: &mut Ctx) -> Self {
    Self::new(1 + c.below(5) as u16).unwrap()
  }
}
impl<const N: u8> Payload for W<N> {
  fn gen(c: &mut Ctx) -> Self {
    W(string(c))
  }
}
impl<T: Payload> Payload for Gen<T> {
  fn gen(c: &mut Ctx) -> Self {
    Gen(T::gen(c))
  }
}

pub fn g<T: Payload>(c: &mut Ctx) -> T {
  T::gen(c)
}

// ==============================
// Generation.
// ==============================

const ENUMS: &[&str] = &["TokenKind", "Kind", "K", "T", "Error", "Result", "Option", "Formatter", "Display", "E", "From", "V"];

pub fn gen(c: &mut Ctx, k: usize) -> Def {
  let mut used = vec![];
  let mut free: Vec<usize> = (0..TYPES.len()).filter(|t| *t != 11).collect();
  let n = 1 + c.below(9);
  // only single payloads of distinct types have conversions
  let mut vars = vec![];
  for _ in 0..n {
    let name = text::name(c, &mut used);
    let shape = match c.weighted(&[4, 1, 6, 2, 1, 1, 1]) {
      0 => Shape::Unit,
      1 => Shape::Unnamed(vec![]),
      2 if !free.is_empty() => {
        let i = c.below(free.len());
        let t = free.remove(i);
        // another spelling of the same type
        Shape::Unnamed(vec![if t == 0 && c.bool() { 11 } else { t }])
      }
      2 | 3 => Shape::Unnamed(vec![c.below(10), c.below(10)]),
      4 => Shape::Unnamed(vec![c.below(10), c.below(10), c.below(10)]),
      5 => Shape::Named(vec![]),
      _ => Shape::Named((0..1 + c.below(2)).map(|_| c.below(10)).collect()),
    };
    vars.push(Var { name, doc: text::doc(c), shape });
  }
  let source = emit(c, &vars, k);
  Def { vars, source }
}

fn emit(c: &mut Ctx, vars: &[Var], k: usize) -> String {
  let ename = if c.prob(2, 3) { "TokenKind" } else { ENUMS[c.below(ENUMS.len())] };
  let mut o = String::from("#![allow(warnings)]\n");
  if c.bool() {
    o.push_str("use laps::prelude::*;\n");
  } else {
    o.push_str("use laps::token::token_kind;\n");
  }
  // names of the standard library may mean something else here
  if c.prob(1, 4) {
    o.push_str("pub struct Ok; pub struct Err; pub struct Some; pub struct None; pub struct Clone_;\n");
  }
  o.push_str("#[derive(Clone, PartialEq, Debug)]\npub struct Local(pub i32);\n");
  o.push_str("impl std::fmt::Display for Local {\n  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {\n    write!(f, \"local {}\", self.0)\n  }\n}\n");
  o.push_str("impl h_gen::kinds::Payload for Local {\n  fn gen(c: &mut pbt::Ctx) -> Self {\n    Local(h_gen::kinds::g(c))\n  }\n}\n");
  let path = *c.pick(&["token_kind", "laps::token::token_kind"]);
  let mut heads = vec![format!("#[{path}]\n")];
  if c.prob(1, 3) {
    heads.push("#[derive(Debug)]\n".into());
  }
  if c.prob(1, 3) {
    heads.push("/// Documentation of the enum.\n".into());
  }
  // discriminants of all variants, upwards
  let numbered = c.prob(1, 6);
  if numbered {
    heads.insert(1, "#[repr(u8)]\n".into());
  }
  let mut number = 0;
  // attributes may come before the macro, derives after it
  if heads.len() > 1 && heads.last().unwrap().starts_with("///") && c.bool() {
    let d = heads.pop().unwrap();
    heads.insert(0, d);
  }
  heads.iter().for_each(|h| o.push_str(h));
  o.push_str(&format!("{} enum {ename} {{\n", ["pub", "pub(crate)", "pub"][c.below(3)]));
  let ty = |t: usize| TYPES[t].to_string();
  for v in vars {
    o.push_str(&text::doc_attrs(c, &v.doc));
    number += 1 + if numbered { c.below(3) } else { 0 };
    let eq = if numbered { format!(" = {number}") } else { String::new() };
    match &v.shape {
      Shape::Unit => o.push_str(&format!("  {}{eq},\n", v.name)),
      Shape::Unnamed(ts) => {
        let t: Vec<String> = ts
          .iter()
          .map(|t| {
            let a = if c.prob(1, 12) { "#[doc(hidden)] " } else { "" };
            format!("{a}{}", ty(*t))
          })
          .collect();
        let comma = if ts.len() > 0 && c.prob(1, 4) { "," } else { "" };
        o.push_str(&format!("  {}({}{comma}){eq},\n", v.name, t.join(", ")));
      }
      Shape::Named(ts) => {
        let f: Vec<String> = ts.iter().enumerate().map(|(i, t)| format!("{}: {}", ["f", "v", "x"][i], ty(*t))).collect();
        o.push_str(&format!("  {} {{ {} }}{eq},\n", v.name, f.join(", ")));
      }
    }
  }
  o.push_str("}\n\n// driver\npub fn entry() -> h_gen::Entry {\n  h_gen::Entry::Kinds(h_gen::kinds::entry(vec![\n");
  for v in vars {
    let p = format!("{ename}::{}", v.name);
    match &v.shape {
      Shape::Unit => o.push_str(&format!("    h_gen::kinds::other(|_| ({p}, String::new())),\n")),
      Shape::Unnamed(ts) if ts.len() == 1 => o.push_str(&format!("    h_gen::kinds::one::<{ename}, {}>({p}),\n", ty(ts[0]))),
      Shape::Unnamed(ts) | Shape::Named(ts) => {
        let named = matches!(v.shape, Shape::Named(_));
        let lets: String = ts.iter().enumerate().map(|(i, t)| format!("let a{i}: {} = h_gen::kinds::g(c); ", ty(*t))).collect();
        let dbg: String = ts.iter().enumerate().map(|(i, _)| format!("s.push_str(&format!(\"{{a{i}:?}}|\")); ")).collect();
        let args: Vec<String> = ts.iter().enumerate().map(|(i, _)| if named { format!("{}: a{i}", ["f", "v", "x"][i]) } else { format!("a{i}") }).collect();
        let args = args.join(", ");
        let make = if named { format!("{p} {{ {args} }}") } else { format!("{p}({args})") };
        o.push_str(&format!("    h_gen::kinds::other(|c| {{ let mut s = String::new(); {lets}{dbg}({make}, s) }}),\n"));
      }
    }
  }
  o.push_str("  ]))\n}\n");
  let _ = k;
  o
}

// ==============================
// Running.
// ==============================

/// A value: the kind, its variant, its payload.
pub struct Val<K> {
  kind: K,
  var: usize,
  /// Identifies the contents.
  text: String,
  /// The single payload and its display.
  pay: Option<(Box<dyn Any>, String)>,
}

pub struct VarEntry<K> {
  make: Box<dyn Fn(&mut Ctx) -> Val<K>>,
  /// Converts another kind to the payload of this variant; the flag says
  /// whether it is of this variant.
  cast: Option<Box<dyn Fn(&Val<K>, bool) -> R>>,
}

pub fn other<K>(make: fn(&mut Ctx) -> (K, String)) -> VarEntry<K>
where
  K: 'static,
{
  VarEntry {
    make: Box::new(move |c| {
      let (kind, text) = make(c);
      Val { kind, var: 0, text, pay: None }
    }),
    cast: None,
  }
}

pub fn one<K, T>(ctor: fn(T) -> K) -> VarEntry<K>
where
  T: Payload + TryFrom<K, Error = ()>,
  K: From<T> + Clone + PartialEq + 'static,
  for<'a> &'a T: TryFrom<&'a K, Error = ()>,
{
  VarEntry {
    make: Box::new(move |c| {
      let t = T::gen(c);
      let kind = if c.bool() { K::from(t.clone()) } else { ctor(t.clone()) };
      Val { kind, var: 0, text: format!("{t:?}"), pay: Some((Box::new(t.clone()), t.to_string())) }
    }),
    cast: Some(Box::new(move |v, same| {
      let want: Option<&T> = if same { v.pay.as_ref().and_then(|p| p.0.downcast_ref::<T>()) } else { None };
      let by_ref: Result<&T, ()> = (&v.kind).try_into();
      if by_ref.ok() != want {
        fail!("converting a reference to {}: got {by_ref:?}, expected {want:?}", std::any::type_name::<T>());
      }
      let owned: Result<T, ()> = T::try_from(v.kind.clone());
      if owned.as_ref().ok() != want {
        fail!("converting to {}: got {owned:?}, expected {want:?}", std::any::type_name::<T>());
      }
      if let Some(t) = want {
        if K::from(t.clone()) != ctor(t.clone()) || K::from(t.clone()) != v.kind {
          fail!("converting {t:?} into the kind gives another one");
        }
      }
      Ok(())
    })),
  }
}

pub type Entry = Box<dyn Fn(&mut Ctx, &Def) -> R + Send + Sync>;

/// Variants are used from one thread at a time; they are plain functions.
struct Shared<K>(Vec<VarEntry<K>>);
unsafe impl<K> Send for Shared<K> {}
unsafe impl<K> Sync for Shared<K> {}

pub fn entry<K>(vars: Vec<VarEntry<K>>) -> Entry
where
  K: Clone + PartialEq + Display + 'static,
{
  let vars = Shared(vars);
  Box::new(move |c, def| run(c, def, &vars))
}

fn run<K>(c: &mut Ctx, def: &Def, vars: &Shared<K>) -> R
where
  K: Clone + PartialEq + Display + 'static,
{
  let n = vars.0.len();
  let count = 2 + c.below(4);
  let mut vals = vec![];
  for _ in 0..count {
    let i = c.below(n);
    let mut v = (vars.0[i].make)(c);
    v.var = i;
    vals.push(v);
  }
  c.note(|| vals.iter().map(|v| format!("{} with {:?}", def.vars[v.var].name, v.text)).collect::<Vec<_>>().join(", "));
  c.key(&(&def.source, vals.iter().map(|v| (v.var, v.text.clone())).collect::<Vec<_>>()));
  for v in &vals {
    // display
    let d = &def.vars[v.var];
    let p = text::prompt(&d.doc, &d.name);
    let want = match &v.pay {
      Some((_, t)) => format!("{p} `{t}`"),
      None => p,
    };
    ensure_eq!(v.kind.to_string(), want, "display of {}", d.name);
    ensure_eq!(v.kind.clone().to_string(), want, "display of a clone of {}", d.name);
    c.checks += 2;
    for (j, e) in vars.0.iter().enumerate() {
      if let Some(cast) = &e.cast {
        c.checks += 1;
        cast(v, j == v.var).map_err(|m| format!("{}: {m}", d.name))?;
      }
    }
    for w in &vals {
      let same = v.var == w.var && v.text == w.text;
      if (v.kind == w.kind) != same || (v.kind.clone() == w.kind) != same {
        fail!("{} == {} is {}", d.name, def.vars[w.var].name, !same);
      }
      c.checks += 1;
    }
  }
  c.label_if(vals.iter().any(|v| v.pay.is_some()), "payload");
  c.label_if(vals.iter().any(|v| !def.vars[v.var].doc.is_empty()), "documented");
  c.nontrivial_if(vals.iter().any(|v| v.var != vals[0].var) && vals.iter().any(|v| v.pay.is_some()));
  Ok(())
}

pub fn check(c: &mut Ctx, def: &Def, e: &Entry) -> R {
  e(c, def)
}
