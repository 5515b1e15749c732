//! The interpreter of the C-like language.

use crate::known::{judge, Defect, Verdict, OUTSIDE, RIGHT, SCOPE};
use crate::lex::{hurt, damage, layout, Rules, Tok};
use crate::run::{rejected, run, Ran};
use pbt::{ensure, fail, Ctx, R};
use std::collections::HashMap;
use std::rc::Rc;

// ---- reference parser ----

#[derive(Debug)]
enum E {
  Int(i64),
  Un(char, Box<E>),
  Bin(String, Box<E>, Box<E>),
  Call(String, Vec<E>),
  Var(String, Option<Box<E>>),
  Paren(Box<E>),
}

#[derive(Debug)]
struct VarDef {
  name: String,
  dim: Option<i64>,
  init: Option<Init>,
}

#[derive(Debug)]
enum Init {
  E(E),
  List(Vec<E>),
}

#[derive(Debug)]
enum S {
  Empty,
  Decl(Vec<VarDef>),
  E(E),
  Assign(E, E),
  Block(Vec<S>),
  If(E, Box<S>, Option<Box<S>>),
  While(E, Box<S>),
  Break,
  Continue,
  Return(E),
}

#[derive(Debug)]
struct Func {
  params: Vec<String>,
  body: Vec<S>,
}

enum Top {
  Func(String, Func),
  Decl(Vec<VarDef>),
}

const IDENT: usize = 2;
const INT: usize = 3;

struct P<'a> {
  t: &'a [Tok],
  i: usize,
  /// Operators from right to left, a known defect.
  right: bool,
}

type Res<T> = Option<T>;

impl P<'_> {
  fn is(&self, s: &str) -> bool {
    self.at(0, s)
  }
  fn at(&self, n: usize, s: &str) -> bool {
    self.t.get(self.i + n).is_some_and(|t| t.text == s)
  }
  fn rule(&self, n: usize) -> usize {
    self.t.get(self.i + n).map_or(usize::MAX, |t| t.rule)
  }
  fn eat(&mut self, s: &str) -> Res<()> {
    let r = self.is(s);
    self.i += r as usize;
    r.then_some(())
  }
  fn ident(&mut self) -> Res<String> {
    let r = self.rule(0) == IDENT;
    self.i += r as usize;
    r.then(|| self.t[self.i - 1].text.clone())
  }
  fn int(&mut self) -> Res<i64> {
    if self.rule(0) != INT {
      return None;
    }
    self.i += 1;
    let s = &self.t[self.i - 1].text;
    let v = match s.strip_prefix("0x") {
      Some(h) => u64::from_str_radix(h, 16).ok()?,
      None => s.parse().ok()?,
    };
    Some(v as i64)
  }
  fn top(&mut self) -> Res<Top> {
    if self.is("int") && self.rule(1) == IDENT && self.at(2, "(") {
      self.i += 1;
      let name = self.ident()?;
      self.eat("(")?;
      let mut params = vec![];
      if self.is("int") {
        loop {
          self.eat("int")?;
          params.push(self.ident()?);
          if !self.is(",") {
            break;
          }
          self.i += 1;
        }
      }
      self.eat(")")?;
      return Some(Top::Func(name, Func { params, body: self.block()? }));
    }
    self.decl().map(Top::Decl)
  }
  fn decl(&mut self) -> Res<Vec<VarDef>> {
    self.eat("int")?;
    let mut v = vec![];
    loop {
      let name = self.ident()?;
      let mut dim = None;
      if self.is("[") {
        self.i += 1;
        dim = Some(self.int()?);
        self.eat("]")?;
      }
      let mut init = None;
      if self.is("=") {
        self.i += 1;
        init = Some(if self.is("{") {
          self.i += 1;
          let l = self.list("}")?;
          Init::List(l)
        } else {
          Init::E(self.expr(0)?)
        });
      }
      v.push(VarDef { name, dim, init });
      if !self.is(",") {
        break;
      }
      self.i += 1;
    }
    self.eat(";")?;
    Some(v)
  }
  fn list(&mut self, close: &str) -> Res<Vec<E>> {
    let mut v = vec![];
    if !self.is(close) {
      loop {
        v.push(self.expr(0)?);
        if !self.is(",") {
          break;
        }
        self.i += 1;
      }
    }
    self.eat(close)?;
    Some(v)
  }
  fn block(&mut self) -> Res<Vec<S>> {
    self.eat("{")?;
    let mut v = vec![];
    while !self.is("}") {
      v.push(if self.is("int") { S::Decl(self.decl()?) } else { self.stmt()? });
    }
    self.i += 1;
    Some(v)
  }
  fn stmt(&mut self) -> Res<S> {
    if self.is(";") {
      self.i += 1;
      return Some(S::Empty);
    }
    if self.is("{") {
      return self.block().map(S::Block);
    }
    if self.rule(0) == 1 {
      let k = self.t[self.i].text.clone();
      self.i += 1;
      return Some(match k.as_str() {
        "if" => {
          self.eat("(")?;
          let c = self.expr(0)?;
          self.eat(")")?;
          let t = Box::new(self.stmt()?);
          let mut e = None;
          if self.is("else") {
            self.i += 1;
            e = Some(Box::new(self.stmt()?));
          }
          S::If(c, t, e)
        }
        "while" => {
          self.eat("(")?;
          let c = self.expr(0)?;
          self.eat(")")?;
          S::While(c, Box::new(self.stmt()?))
        }
        "break" => {
          self.eat(";")?;
          S::Break
        }
        "continue" => {
          self.eat(";")?;
          S::Continue
        }
        "return" => {
          let e = self.expr(0)?;
          self.eat(";")?;
          S::Return(e)
        }
        _ => return None,
      });
    }
    let e = self.expr(0)?;
    if self.is("=") {
      self.i += 1;
      let r = self.expr(0)?;
      self.eat(";")?;
      return Some(S::Assign(e, r));
    }
    self.eat(";")?;
    Some(S::E(e))
  }
  fn expr(&mut self, level: usize) -> Res<E> {
    const OPS: &[&[&str]] = &[&["||"], &["&&"], &["==", "!="], &["<", ">", "<=", ">="], &["+", "-"], &["*", "/", "%"]];
    if level == OPS.len() {
      return self.unary();
    }
    let mut l = self.expr(level + 1)?;
    while let Some(op) = OPS[level].iter().find(|o| self.is(o)) {
      self.i += 1;
      let r = self.expr(if self.right { level } else { level + 1 })?;
      l = E::Bin(op.to_string(), Box::new(l), Box::new(r));
    }
    Some(l)
  }
  fn unary(&mut self) -> Res<E> {
    for o in ["+", "-", "!"] {
      if self.is(o) {
        self.i += 1;
        return Some(E::Un(o.chars().next().unwrap(), Box::new(self.unary()?)));
      }
    }
    if self.is("(") {
      self.i += 1;
      let e = self.expr(0)?;
      self.eat(")")?;
      return Some(E::Paren(Box::new(e)));
    }
    if self.rule(0) == INT {
      return self.int().map(E::Int);
    }
    let n = self.ident()?;
    if self.is("(") {
      self.i += 1;
      return Some(E::Call(n, self.list(")")?));
    }
    let mut ix = None;
    if self.is("[") {
      self.i += 1;
      ix = Some(Box::new(self.expr(0)?));
      self.eat("]")?;
    }
    Some(E::Var(n, ix))
  }
}

// ---- reference interpreter ----

#[derive(Clone)]
enum Val {
  Int(i32),
  Arr(Vec<i32>),
}

enum Stop {
  /// The program is rejected.
  Error,
  /// What happens is not specified (overflow, division by zero, too long).
  Unknown,
  Break,
  Continue,
  Return(i32),
}

struct M<'a> {
  global: HashMap<String, Val>,
  local: Vec<HashMap<String, Val>>,
  funcs: HashMap<String, Rc<Func>>,
  input: std::str::Lines<'a>,
  out: String,
  fuel: u32,
  depth: u32,
  features: Vec<&'static str>,
  known: &'a [Defect],
}

impl M<'_> {
  fn step(&mut self) -> Result<(), Stop> {
    if self.fuel == 0 {
      return Err(Stop::Unknown);
    }
    self.fuel -= 1;
    Ok(())
  }
  fn note(&mut self, f: &'static str) {
    if !self.features.contains(&f) {
      self.features.push(f);
    }
  }
  fn var(&mut self, n: &str) -> Result<&mut Val, Stop> {
    match self.local.iter_mut().rev().find_map(|s| s.get_mut(n)) {
      Some(v) => Ok(v),
      None => self.global.get_mut(n).ok_or(Stop::Error),
    }
  }
  fn place(&mut self, n: &str, ix: &Option<Box<E>>) -> Result<&mut i32, Stop> {
    let ix = match ix {
      Some(e) => Some(self.expr(e)?),
      None => None,
    };
    match (self.var(n)?, ix) {
      (Val::Int(i), None) => Ok(i),
      (Val::Arr(a), Some(ix)) => usize::try_from(ix).ok().and_then(|ix| a.get_mut(ix)).ok_or(Stop::Error),
      _ => Err(Stop::Error),
    }
  }
  fn expr(&mut self, e: &E) -> Result<i32, Stop> {
    self.step()?;
    Ok(match e {
      E::Int(i) => i32::try_from(*i).map_err(|_| Stop::Unknown)?,
      E::Un(op, e) => {
        let v = self.expr(e)?;
        match op {
          '+' => v,
          '-' => v.checked_neg().ok_or(Stop::Unknown)?,
          _ => (v == 0) as i32,
        }
      }
      E::Bin(op, l, r) => {
        let l = self.expr(l)?;
        // C leaves 0 or 1, the language the value of the last operand
        match op.as_str() {
          "||" => {
            if l != 0 {
              self.note("short circuit");
              return Ok(1);
            }
            let r = self.expr(r)?;
            return if r == 0 || r == 1 { Ok(r) } else { Err(Stop::Unknown) };
          }
          "&&" => {
            if l == 0 {
              self.note("short circuit");
              return Ok(0);
            }
            let r = self.expr(r)?;
            return if r == 0 || r == 1 { Ok(r) } else { Err(Stop::Unknown) };
          }
          _ => {}
        }
        let r = self.expr(r)?;
        match op.as_str() {
          "==" => (l == r) as i32,
          "!=" => (l != r) as i32,
          "<" => (l < r) as i32,
          ">" => (l > r) as i32,
          "<=" => (l <= r) as i32,
          ">=" => (l >= r) as i32,
          "+" => l.checked_add(r).ok_or(Stop::Unknown)?,
          "-" => l.checked_sub(r).ok_or(Stop::Unknown)?,
          "*" => l.checked_mul(r).ok_or(Stop::Unknown)?,
          "/" => l.checked_div(r).ok_or(Stop::Unknown)?,
          _ => l.checked_rem(r).ok_or(Stop::Unknown)?,
        }
      }
      E::Var(n, ix) => *self.place(n, ix)?,
      E::Paren(e) => self.expr(e)?,
      E::Call(n, args) => {
        let mut v = vec![];
        for a in args {
          v.push(self.expr(a)?);
        }
        let Some(f) = self.funcs.get(n).cloned() else {
          return match (n.as_str(), v.as_slice()) {
            ("getint", []) => {
              self.note("input");
              self.input.next().and_then(|l| l.trim().parse().ok()).ok_or(Stop::Error)
            }
            ("putint", [i]) => {
              self.out += &format!("{i}\n");
              Ok(0)
            }
            _ => Err(Stop::Error),
          };
        };
        if f.params.len() != v.len() {
          return Err(Stop::Error);
        }
        if self.depth > 40 {
          return Err(Stop::Unknown);
        }
        self.note("call");
        let scope = f.params.iter().cloned().zip(v.into_iter().map(Val::Int)).collect();
        let saved = std::mem::replace(&mut self.local, vec![scope]);
        self.depth += 1;
        let r = self.call(&f);
        self.depth -= 1;
        self.local = saved;
        r?
      }
    })
  }
  fn call(&mut self, f: &Func) -> Result<i32, Stop> {
    match self.block(&f.body) {
      Err(Stop::Return(v)) => Ok(v),
      Err(e @ (Stop::Error | Stop::Unknown)) => Err(e),
      Err(e) if self.known.contains(&OUTSIDE) => Err(e),
      _ => Err(Stop::Error),
    }
  }
  fn decl(&mut self, v: &[VarDef]) -> Result<(), Stop> {
    for d in v {
      let init = match &d.init {
        Some(Init::E(e)) => Some(Val::Int(self.expr(e)?)),
        Some(Init::List(l)) => {
          let mut v = vec![];
          for e in l {
            v.push(self.expr(e)?);
          }
          Some(Val::Arr(v))
        }
        None => None,
      };
      let val = match (d.dim, init) {
        (None, None) => Val::Int(0),
        (None, Some(Val::Int(i))) => Val::Int(i),
        (Some(n), None) if (0..=100000).contains(&n) => Val::Arr(vec![0; n as usize]),
        (Some(_), None) => return Err(Stop::Unknown),
        (Some(n), Some(Val::Arr(a))) if a.len() as i64 == n => {
          self.note("array");
          Val::Arr(a)
        }
        _ => return Err(Stop::Error),
      };
      let scope = self.local.last_mut().unwrap_or(&mut self.global);
      if scope.insert(d.name.clone(), val).is_some() {
        return Err(Stop::Error);
      }
    }
    Ok(())
  }
  fn block(&mut self, b: &[S]) -> Result<(), Stop> {
    self.local.push(HashMap::new());
    let r = b.iter().try_for_each(|s| self.stmt(s));
    if r.is_ok() || !self.known.contains(&SCOPE) {
      self.local.pop();
    }
    r
  }
  fn stmt(&mut self, s: &S) -> Result<(), Stop> {
    self.step()?;
    match s {
      S::Empty => Ok(()),
      S::Decl(d) => self.decl(d),
      S::E(e) => self.expr(e).map(|_| ()),
      S::Assign(l, r) => {
        let v = self.expr(r)?;
        match l {
          E::Var(n, ix) => *self.place(n, ix)? = v,
          // a parenthesized place is none
          _ => return Err(Stop::Error),
        }
        Ok(())
      }
      S::Block(b) => self.block(b),
      S::If(c, t, e) => {
        if self.expr(c)? != 0 {
          self.stmt(t)
        } else if let Some(e) = e {
          self.note("else");
          self.stmt(e)
        } else {
          Ok(())
        }
      }
      S::While(c, b) => {
        while self.expr(c)? != 0 {
          self.note("loop");
          match self.stmt(b) {
            Err(Stop::Break) => {
              self.note("break");
              break;
            }
            Err(Stop::Continue) => self.note("continue"),
            r => r?,
          }
        }
        Ok(())
      }
      S::Break => Err(Stop::Break),
      S::Continue => Err(Stop::Continue),
      S::Return(e) => Err(Stop::Return(self.expr(e)?)),
    }
  }
}

struct Want {
  out: String,
  /// The exit code, or nothing if rejected.
  code: Option<i32>,
  panics: bool,
  features: Vec<&'static str>,
}

fn interpret(toks: &[Tok], bad: bool, input: &str, known: &[Defect]) -> Option<Want> {
  let mut m = M { global: HashMap::new(), local: vec![], funcs: HashMap::new(), input: input.lines(), out: String::new(), fuel: 20000, depth: 0, features: vec![], known };
  let mut p = P { t: toks, i: 0, right: known.contains(&RIGHT) };
  let mut r = Err(Stop::Error);
  loop {
    if p.i == toks.len() {
      if !bad {
        if let Some(f) = m.funcs.get("main").cloned() {
          r = m.call(&f);
        }
      }
      break;
    }
    match p.top() {
      None => break,
      Some(Top::Func(n, f)) => {
        if m.funcs.insert(n, Rc::new(f)).is_some() {
          break;
        }
      }
      Some(Top::Decl(d)) => {
        // a lexical error right behind is only found afterwards
        if let Err(e) = m.decl(&d) {
          r = Err(e);
          break;
        }
      }
    }
  }
  match r {
    Err(Stop::Unknown) => None,
    Ok(v) => Some(Want { out: m.out, code: Some(v & 0xff), panics: false, features: m.features }),
    Err(e) => Some(Want { out: m.out, code: None, panics: matches!(e, Stop::Break | Stop::Continue), features: m.features }),
  }
}

// ---- generator ----

struct G {
  o: Vec<String>,
  /// Visible variables: name and length of arrays; scopes are lengths.
  vars: Vec<(String, usize)>,
  funcs: Vec<(String, usize)>,
  in_loop: usize,
  fresh: usize,
}

impl G {
  fn put(&mut self, s: &str) {
    self.o.extend(s.split(' ').filter(|x| !x.is_empty()).map(String::from));
  }
  fn name(&mut self, c: &mut Ctx) -> String {
    if c.prob(1, 3) {
      // may shadow
      return c.pick(&["x", "y", "a", "intx", "_1", "If"]).to_string();
    }
    self.fresh += 1;
    format!("v{}", self.fresh)
  }
  fn int(&mut self, c: &mut Ctx) {
    let v = match c.below(5) {
      0 => format!("0x{:x}", c.below(300)),
      1 => format!("0x{:X}", c.below(70000)),
      _ => c.below(20).to_string(),
    };
    self.o.push(v);
  }
  fn atom(&mut self, c: &mut Ctx, depth: usize) {
    match c.weighted(&[3, 5, 2]) {
      1 if !self.vars.is_empty() => {
        let v = c.pick(&self.vars.clone()).clone();
        self.o.push(v.0);
        if v.1 > 0 {
          self.put("[");
          self.o.push(c.below(v.1).to_string());
          self.put("]");
        }
      }
      2 if depth > 0 && !self.funcs.is_empty() => {
        let f = c.pick(&self.funcs.clone()).clone();
        self.o.push(f.0);
        self.put("(");
        for i in 0..f.1 {
          if i > 0 {
            self.put(",");
          }
          self.expr(c, depth - 1, 2);
        }
        self.put(")");
      }
      _ => self.int(c),
    }
  }
  /// An expression of operators from `level` on; comparisons and logical
  /// operators for small levels.
  fn expr(&mut self, c: &mut Ctx, depth: usize, level: usize) {
    if depth == 0 || level >= 6 && c.bool() {
      return self.atom(c, depth);
    }
    match c.weighted(&[3, 1, 1, 2]) {
      0 => {
        let (op, l) = match level {
          0 => *c.pick(&[("||", 0), ("&&", 1), ("==", 2), ("<", 3)]),
          1 => *c.pick(&[("&&", 1), ("!=", 2), (">=", 3)]),
          _ => *c.pick(&[("+", 4), ("-", 4), ("*", 5), ("/", 5), ("%", 5), ("<", 3), (">", 3), ("<=", 3), ("==", 2), ("!=", 2)]),
        };
        if l < level {
          self.put("(");
        }
        self.expr(c, depth - 1, if l < 2 { 1 } else { l });
        self.put(op);
        if op == "/" || op == "%" {
          self.o.push((1 + c.below(9)).to_string());
        } else {
          self.expr(c, depth - 1, if l < 2 { 2 } else { l + 1 });
        }
        if l < level {
          self.put(")");
        }
      }
      1 => {
        self.o.push(c.pick(&["-", "!", "+"]).to_string());
        self.expr(c, depth - 1, 6);
      }
      2 => {
        self.put("(");
        self.expr(c, depth - 1, 0);
        self.put(")");
      }
      _ => self.atom(c, depth),
    }
  }
  fn decl(&mut self, c: &mut Ctx, global: bool) {
    self.put("int");
    let n = 1 + c.below(3);
    for i in 0..n {
      if i > 0 {
        self.put(",");
      }
      let name = self.name(c);
      let mut len = 0;
      self.o.push(name.clone());
      if c.prob(1, 4) {
        len = 1 + c.below(4);
        self.put("[");
        self.o.push(len.to_string());
        self.put("]");
        if c.bool() {
          self.put("= {");
          for i in 0..len {
            if i > 0 {
              self.put(",");
            }
            self.expr(c, 1, 2);
          }
          self.put("}");
        }
      } else if c.prob(3, 4) {
        self.put("=");
        let depth = if global { 1 } else { 2 };
        self.expr(c, depth, 2);
      }
      self.vars.push((name, len));
    }
    self.put(";");
  }
  fn block(&mut self, c: &mut Ctx, depth: usize) {
    let n = self.vars.len();
    self.put("{");
    let k = c.below(5);
    for _ in 0..k {
      if c.prob(1, 4) {
        self.decl(c, false);
      } else {
        self.stmt(c, depth);
      }
    }
    self.put("}");
    self.vars.truncate(n);
  }
  fn stmt(&mut self, c: &mut Ctx, depth: usize) {
    let d = c.range(0, 3);
    let leave = if self.in_loop > 0 || c.prob(1, 100) { 3 } else { 0 };
    match c.weighted(&[4, 6, 3, 3, leave, 1, 1, 2, 1]) {
      0 => {
        self.put("putint (");
        self.expr(c, d, 2);
        self.put(") ;");
      }
      1 if !self.vars.is_empty() => {
        let v = c.pick(&self.vars.clone()).clone();
        self.o.push(v.0);
        if v.1 > 0 {
          self.put("[");
          if c.prob(1, 30) {
            self.expr(c, 1, 2);
          } else {
            self.o.push(c.below(v.1).to_string());
          }
          self.put("]");
        }
        self.put("=");
        self.expr(c, d, 2);
        self.put(";");
      }
      2 if depth > 0 => {
        self.put("if (");
        self.expr(c, d, 0);
        self.put(")");
        self.stmt(c, depth - 1);
        if c.bool() {
          self.put("else");
          self.stmt(c, depth - 1);
        }
      }
      3 if depth > 0 => {
        // counts up a fresh variable so that the loop ends
        self.fresh += 1;
        let i = format!("i{}", self.fresh);
        let k = c.below(6);
        self.put("{ int");
        self.put(&format!("{i} = 0 ; while ( {i} < {k} ) {{ {i} = {i} + 1 ;"));
        let n = self.vars.len();
        self.in_loop += 1;
        let m = c.below(4);
        for _ in 0..m {
          if c.prob(1, 4) {
            self.decl(c, false);
          } else {
            self.stmt(c, depth - 1);
          }
        }
        self.in_loop -= 1;
        self.put("} }");
        self.vars.truncate(n);
      }
      4 => {
        if c.bool() {
          self.put("if (");
          self.expr(c, d, 0);
          self.put(")");
        }
        self.put(c.pick(&["break ;", "continue ;"]));
      }
      5 => {
        self.put("return");
        self.expr(c, d, 2);
        self.put(";");
      }
      6 => self.put(";"),
      7 if depth > 0 => self.block(c, depth - 1),
      _ => {
        self.expr(c, d, 0);
        self.put(";");
      }
    }
  }
  fn func(&mut self, c: &mut Ctx, name: &str, params: usize) {
    self.put("int");
    self.o.push(name.into());
    self.put("(");
    let n = self.vars.len();
    for i in 0..params {
      if i > 0 {
        self.put(",");
      }
      self.put("int");
      let p = format!("p{i}");
      self.o.push(p.clone());
      self.vars.push((p, 0));
    }
    self.put(") {");
    let k = 1 + c.below(6);
    for _ in 0..k {
      if c.prob(1, 4) {
        self.decl(c, false);
      } else {
        self.stmt(c, 3);
      }
    }
    if !c.prob(1, 30) {
      self.put("return");
      self.expr(c, 2, 2);
      self.put(";");
    }
    self.put("}");
    self.vars.truncate(n);
  }
}

/// Programs with a known structure: recursion, sorting, primes, scopes left
/// early, leaving loops of the caller.
fn known(c: &mut Ctx) -> String {
  match c.below(5) {
    0 => "int f ( int n ) { if ( n <= 2 ) { return 1 ; } else { return f ( n - 1 ) + f ( n - 2 ) ; } } int main ( ) { return putint ( f ( getint ( ) ) ) ; }".into(),
    3 => "int a [ 8 ] ; int sort ( int n ) { int i = 0 ; while ( i < n ) { int j = 0 ; while ( j + 1 < n - i ) { if ( a [ j ] > a [ j + 1 ] ) { int t = a [ j ] ; a [ j ] = a [ j + 1 ] ; a [ j + 1 ] = t ; } j = j + 1 ; } i = i + 1 ; } return 0 ; } int main ( ) { int i = 0 ; while ( i < 8 ) { a [ i ] = getint ( ) ; i = i + 1 ; } sort ( 8 ) ; i = 0 ; while ( i < 8 ) { putint ( a [ i ] ) ; i = i + 1 ; } return 0 ; }".into(),
    1 => "int f ( int n ) { int x = n ; { int x = 5 ; if ( n > 2 ) return x ; } return x ; } int main ( ) { int x = 1 ; while ( x < 9 ) { x = x + f ( getint ( ) ) ; int x = 20 ; if ( x > 9 ) break ; } putint ( x ) ; return x ; }".into(),
    2 => "int f ( int n ) { if ( n > 0 ) break ; if ( n < 0 ) continue ; return 1 ; } int main ( ) { int i = 0 ; while ( i < 4 ) { i = i + 1 ; putint ( i ) ; putint ( f ( getint ( ) ) ) ; } putint ( f ( 0 - getint ( ) ) ) ; return i ; }".into(),
    _ => "int main ( ) { int n = 2 ; while ( n < 40 ) { int d = 2 ; while ( d * d <= n ) { if ( n % d == 0 ) break ; d = d + 1 ; } if ( d * d <= n ) { n = n + 1 ; continue ; } putint ( n ) ; n = n + 1 ; } return n ; }".into(),
  }
}

/// A file of this thread in the scratch directory of this process.
fn program_file() -> std::path::PathBuf {
  let base = std::env::var("VERIF_OUT").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
  let d = base.join(format!("scratch.{}", std::process::id()));
  std::fs::create_dir_all(&d).expect("scratch directory");
  d.join(format!("program{:?}.c", std::thread::current().id()).replace(['(', ')'], ""))
}

thread_local! {
  static RULES: std::cell::RefCell<Rules> = std::cell::RefCell::new(Rules::new(&[
    r"\s+",
    r"int|void|if|else|while|break|continue|return",
    r"[_a-zA-Z][_a-zA-Z0-9]*",
    r"[0-9]|[1-9][0-9]+|0x[0-9a-fA-F]+",
    r"\+|-|\*|/|%|<|>|<=|>=|==|!=|&&|\|\||!|=",
    r".",
  ]));
}

pub fn c28(c: &mut Ctx) -> R {
  let mut g = G { o: vec![], vars: vec![], funcs: vec![("getint".into(), 0)], in_loop: 0, fresh: 0 };
  if c.prob(1, 12) {
    let t = known(c);
    g.put(&t);
  } else {
    let n = c.below(3);
    for _ in 0..n {
      g.decl(c, true);
    }
    let n = c.below(3);
    for k in 0..n {
      let params = c.below(4);
      let name = format!("f{k}");
      g.func(c, &name, params);
      g.funcs.push((name, params));
    }
    g.func(c, "main", 0);
  }
  let mut toks = g.o;
  let damaged = c.prob(1, 4);
  if damaged {
    damage(c, &mut toks, &["int", "void", "if", "else", "while", "break", "return", "(", ")", "{", "}", "[", "]", ";", ",", "=", "==", "&&", "&", "|", "!", "0x", "0xG", "00", "99999999999999999999", "x", "1", "é", "-", "putint", "<"]);
  }
  let mut src = layout(c, &toks);
  hurt(c, &mut src, &["_", "0", "x", "=", "&", "|", "!", "\"", "/", "\0", "\u{10ffff}", "}", "9"]);
  let n = c.below(9);
  let mut input = String::new();
  for _ in 0..n {
    let v = c.below(20) as i32 - 8;
    input += &format!("{}{v}{}\n", c.pick(&["", " "]), c.pick(&["", "", "\r", " "]));
  }
  c.note(|| format!("program {src:?}\ninput {input:?}"));
  c.key(&(&src, &input));
  let (lexed, bad) = RULES.with(|r| r.borrow_mut().lex(&src));
  let Some(want) = interpret(&lexed, bad, &input, &[]) else {
    c.label("unspecified (skipped)");
    return Ok(());
  };
  c.label(if want.code.is_some() { "well-formed" } else { "rejected" });
  for f in &want.features {
    c.label(f);
  }
  c.nontrivial_if(toks.len() >= 30 && !want.out.is_empty() || want.code.is_none());
  let path = program_file();
  std::fs::write(&path, &src).expect("scratch file");
  let ran = run("clike", &[path.to_str().unwrap()], &input);
  let _ = std::fs::remove_file(&path);
  c.checks += 1;
  judge(c, &[RIGHT, SCOPE, OUTSIDE], |known| {
    if known.is_empty() {
      return Verdict::Is(compare(&ran, &want));
    }
    match interpret(&lexed, bad, &input, known) {
      Some(w) => Verdict::Is(compare(&ran, &w)),
      None => Verdict::Unknown,
    }
  })
}

fn compare(r: &Result<Ran, String>, want: &Want) -> R {
  if want.panics {
    return match r {
      Err(e) if e.contains("example panicked") && e.contains("entered unreachable code") => Ok(()),
      _ => fail!("the program did not panic"),
    };
  }
  let r = r.as_ref().map_err(|e| e.clone())?;
  match want.code {
    Some(code) => {
      if !r.err.is_empty() {
        fail!("a well-formed program was rejected: {}", r.err);
      }
      ensure!(r.out == want.out, "the program printed {:?}, expected {:?}", r.out, want.out);
      ensure!(r.code == Some(code), "the program ended with {:?}, expected {code}", r.code);
    }
    None => {
      rejected(r, "a malformed program")?;
      ensure!(r.out == want.out, "the program printed {:?} before its error, expected {:?}", r.out, want.out);
    }
  }
  Ok(())
}
