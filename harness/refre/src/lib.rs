//! Reference semantics of regular expressions: position (Glushkov) automata
//! simulated on sets of positions.  Shares nothing with laps except the parser
//! of the pattern syntax (`regex_syntax`).

use regex_syntax::hir::{Class, Hir, HirKind};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub mod gen;
pub mod sets;

/// A symbol: the code of a character or of a byte.
pub type Sym = u32;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Re {
  Empty,
  Class(Vec<(Sym, Sym)>),
  Cat(Vec<Re>),
  Alt(Vec<Re>),
  Star(Box<Re>),
}

/// Which symbols a matcher consumes.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
  Chars,
  Bytes,
}

/// Why an expression cannot be compiled.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Unsupported {
  Look,
  Lazy,
  EmptyClass,
  UnicodeClassInBytes,
  NonUtf8,
  TooBig,
}

impl Re {
  pub fn from_hir(h: &Hir, mode: Mode) -> Result<Re, Unsupported> {
    Ok(match h.kind() {
      HirKind::Empty => Re::Empty,
      HirKind::Literal(l) => match mode {
        Mode::Bytes => Re::Cat(l.0.iter().map(|b| Re::Class(vec![(*b as Sym, *b as Sym)])).collect()),
        Mode::Chars => {
          let s = std::str::from_utf8(&l.0).map_err(|_| Unsupported::NonUtf8)?;
          Re::Cat(s.chars().map(|c| Re::Class(vec![(c as Sym, c as Sym)])).collect())
        }
      },
      HirKind::Class(Class::Unicode(u)) => {
        let v: Vec<_> = u.ranges().iter().map(|r| (r.start() as Sym, r.end() as Sym)).collect();
        if v.is_empty() {
          return Err(Unsupported::EmptyClass);
        }
        if mode == Mode::Bytes && v.iter().any(|r| r.1 > 0x7f) {
          return Err(Unsupported::UnicodeClassInBytes);
        }
        Re::Class(v)
      }
      HirKind::Class(Class::Bytes(b)) => {
        let v: Vec<_> = b.ranges().iter().map(|r| (r.start() as Sym, r.end() as Sym)).collect();
        if v.is_empty() {
          return Err(Unsupported::EmptyClass);
        }
        Re::Class(v)
      }
      HirKind::Look(_) => return Err(Unsupported::Look),
      HirKind::Repetition(r) => {
        if !r.greedy {
          return Err(Unsupported::Lazy);
        }
        let sub = Re::from_hir(&r.sub, mode)?;
        let n = sub.positions().saturating_mul(r.max.unwrap_or(r.min + 1) as usize);
        if n > 5000 {
          return Err(Unsupported::TooBig);
        }
        let mut v: Vec<Re> = (0..r.min).map(|_| sub.clone()).collect();
        match r.max {
          None => v.push(Re::Star(Box::new(sub))),
          Some(m) => {
            // x{0,k} = (x(x(x)?)?)?
            let mut tail = Re::Empty;
            for _ in r.min..m {
              tail = Re::Alt(vec![Re::Empty, Re::Cat(vec![sub.clone(), tail])]);
            }
            v.push(tail);
          }
        }
        Re::Cat(v)
      }
      HirKind::Capture(c) => Re::from_hir(&c.sub, mode)?,
      HirKind::Concat(c) => Re::Cat(c.iter().map(|h| Re::from_hir(h, mode)).collect::<Result<_, _>>()?),
      HirKind::Alternation(a) => {
        Re::Alt(a.iter().map(|h| Re::from_hir(h, mode)).collect::<Result<_, _>>()?)
      }
    })
  }

  pub fn positions(&self) -> usize {
    match self {
      Re::Empty => 0,
      Re::Class(_) => 1,
      Re::Cat(v) | Re::Alt(v) => v.iter().map(|r| r.positions()).sum(),
      Re::Star(r) => r.positions(),
    }
  }
}

/// Parses a pattern as the matcher builder is documented to.
pub fn parse(re: &str, utf8: bool) -> Result<Hir, Box<regex_syntax::Error>> {
  if utf8 { regex_syntax::parse(re) } else { regex_syntax::ParserBuilder::new().utf8(false).build().parse(re) }
    .map_err(Box::new)
}

/// A position automaton over a set of tagged expressions.
#[derive(Default)]
pub struct Nfa<T> {
  classes: Vec<Vec<(Sym, Sym)>>,
  follow: Vec<Vec<usize>>,
  /// Tag of accepting positions.
  accept: Vec<Vec<T>>,
  first: Vec<usize>,
  /// Tags of the expressions matching the empty sequence.
  empty: Vec<T>,
}

struct Frag {
  nullable: bool,
  first: Vec<usize>,
  last: Vec<usize>,
}

impl<T: Clone + Ord> Nfa<T> {
  pub fn new(res: &[(Re, T)]) -> Self {
    let mut n = Nfa { classes: vec![], follow: vec![], accept: vec![], first: vec![], empty: vec![] };
    for (re, tag) in res {
      let f = n.build(re);
      n.first.extend(&f.first);
      for l in f.last {
        n.accept[l].push(tag.clone());
      }
      if f.nullable {
        n.empty.push(tag.clone());
      }
    }
    for f in &mut n.follow {
      f.sort_unstable();
      f.dedup();
    }
    n
  }

  fn build(&mut self, re: &Re) -> Frag {
    match re {
      Re::Empty => Frag { nullable: true, first: vec![], last: vec![] },
      Re::Class(c) => {
        let p = self.classes.len();
        let mut c = c.clone();
        c.sort_unstable();
        self.classes.push(c);
        self.follow.push(vec![]);
        self.accept.push(vec![]);
        Frag { nullable: false, first: vec![p], last: vec![p] }
      }
      Re::Cat(v) => {
        let mut acc = Frag { nullable: true, first: vec![], last: vec![] };
        for r in v {
          let f = self.build(r);
          for l in &acc.last {
            self.follow[*l].extend(&f.first);
          }
          if acc.nullable {
            acc.first.extend(&f.first);
          }
          if f.nullable {
            acc.last.extend(f.last);
          } else {
            acc.last = f.last;
          }
          acc.nullable &= f.nullable;
        }
        acc
      }
      Re::Alt(v) => {
        let mut acc = Frag { nullable: false, first: vec![], last: vec![] };
        for r in v {
          let f = self.build(r);
          acc.nullable |= f.nullable;
          acc.first.extend(f.first);
          acc.last.extend(f.last);
        }
        acc
      }
      Re::Star(r) => {
        let f = self.build(r);
        for l in &f.last {
          let first = f.first.clone();
          self.follow[*l].extend(first);
        }
        Frag { nullable: true, ..f }
      }
    }
  }

  pub fn positions(&self) -> usize {
    self.classes.len()
  }

  /// Whether the classes are few enough, or simple enough, for laps to divide
  /// them quickly (its division of overlapping classes takes cubic time).
  pub fn quick_to_divide(&self) -> bool {
    let distinct: BTreeSet<&Vec<(Sym, Sym)>> = self.classes.iter().collect();
    let ranges: usize = distinct.iter().map(|c| c.len()).sum();
    let many = distinct.iter().filter(|c| c.len() > 1).count();
    ranges <= 180 || (many <= 1 && distinct.len() <= 8)
  }

  fn contains(&self, p: usize, s: Sym) -> bool {
    let c = &self.classes[p];
    c.iter().any(|(l, r)| *l <= s && s <= *r)
  }

  /// Starts of the maximal intervals on which all classes are constant,
  /// given further interval starts.
  pub fn cuts(&self, max: Sym, extra: impl IntoIterator<Item = Sym>) -> Vec<Sym> {
    let mut b: BTreeSet<Sym> = extra.into_iter().collect();
    b.insert(0);
    for c in &self.classes {
      for (l, r) in c {
        b.insert(*l);
        b.insert(*r + 1);
      }
    }
    b.into_iter().filter(|s| *s <= max).collect()
  }
}

pub type StateId = usize;
pub const START: StateId = 0;

/// The lazily determinized reference automaton.
pub struct Dfa<T> {
  pub nfa: Nfa<T>,
  sets: Vec<Vec<usize>>,
  ids: HashMap<Vec<usize>, StateId>,
  tags: Vec<Option<T>>,
  trans: HashMap<(StateId, Sym), Option<StateId>>,
}

impl<T: Clone + Ord> Dfa<T> {
  /// An estimate of the work of laps, which splits every position into the
  /// symbol intervals it covers and computes closures over those: intervals
  /// reached from the sets explored so far, per symbol.
  pub fn work(&self, syms: &[Sym]) -> u64 {
    let n = &self.nfa;
    let width: Vec<u64> = n.classes.iter().map(|c| syms.iter().filter(|s| c.iter().any(|(l, r)| l <= s && *s <= r)).count() as u64).collect();
    let reached = |v: &[usize]| v.iter().map(|p| width[*p]).sum::<u64>();
    let follow: Vec<u64> = n.follow.iter().map(|f| reached(f)).collect();
    let all: u64 = reached(&n.first) + self.sets.iter().flatten().filter(|p| **p < follow.len()).map(|p| follow[*p]).sum::<u64>();
    all * syms.len() as u64
  }

  pub fn new(res: &[(Re, T)]) -> Self {
    let nfa = Nfa::new(res);
    let tag = nfa.empty.iter().min().cloned();
    // the start state is distinguished from every set of positions
    Dfa { nfa, sets: vec![vec![usize::MAX]], ids: HashMap::new(), tags: vec![tag], trans: HashMap::new() }
  }

  /// The state after `s`, or `None` if no match starts like this.
  pub fn step(&mut self, id: StateId, s: Sym) -> Option<StateId> {
    if let Some(r) = self.trans.get(&(id, s)) {
      return *r;
    }
    let mut next: Vec<usize> = vec![];
    if id == START {
      next.extend(self.nfa.first.iter().copied().filter(|p| self.nfa.contains(*p, s)));
    } else {
      for q in &self.sets[id] {
        next.extend(self.nfa.follow[*q].iter().copied().filter(|p| self.nfa.contains(*p, s)));
      }
    }
    next.sort_unstable();
    next.dedup();
    let r = if next.is_empty() {
      None
    } else if let Some(i) = self.ids.get(&next) {
      Some(*i)
    } else {
      let i = self.sets.len();
      self.tags.push(next.iter().flat_map(|p| self.nfa.accept[*p].iter()).min().cloned());
      self.ids.insert(next.clone(), i);
      self.sets.push(next);
      Some(i)
    };
    self.trans.insert((id, s), r);
    r
  }

  pub fn tag(&self, id: StateId) -> Option<&T> {
    self.tags[id].as_ref()
  }

  /// Smallest tag of the expressions that match the whole sequence.
  pub fn run(&mut self, seq: &[Sym]) -> Option<T> {
    let mut id = START;
    for s in seq {
      id = self.step(id, *s)?;
    }
    self.tag(id).cloned()
  }

  pub fn num_sets(&self) -> usize {
    self.sets.len()
  }

  /// All reachable states over the given symbols; `None` if more than `cap`.
  pub fn explore(&mut self, syms: &[Sym], cap: usize) -> Option<usize> {
    let mut i = 0;
    while i < self.sets.len() {
      for s in syms {
        self.step(i, *s);
      }
      if self.sets.len() > cap {
        return None;
      }
      i += 1;
    }
    Some(self.sets.len())
  }

  /// Number of states of the minimal (trim) automaton of the tagged language.
  /// Requires a completed `explore` with the same symbols.
  pub fn minimal_states(&mut self, syms: &[Sym]) -> usize {
    let n = self.sets.len();
    let mut class: Vec<usize> = vec![0; n];
    {
      let mut m: BTreeMap<Option<T>, usize> = BTreeMap::new();
      for i in 0..n {
        let k = m.len();
        class[i] = *m.entry(self.tags[i].clone()).or_insert(k);
      }
    }
    let mut count = class.iter().collect::<BTreeSet<_>>().len();
    loop {
      let mut m: HashMap<Vec<usize>, usize> = HashMap::new();
      let mut next = vec![0; n];
      for i in 0..n {
        let mut sig = vec![class[i]];
        for s in syms {
          sig.push(self.step(i, *s).map_or(usize::MAX, |j| class[j]));
        }
        let k = m.len();
        next[i] = *m.entry(sig).or_insert(k);
      }
      let c = m.len();
      class = next;
      if c == count {
        return c;
      }
      count = c;
    }
  }
}

/// Largest symbol of a mode.
pub fn max_sym(mode: Mode) -> Sym {
  match mode {
    Mode::Chars => 0x10ffff,
    Mode::Bytes => 0xff,
  }
}

/// Test symbols for the intervals starting at the given cuts: both ends of
/// every interval, moved off the surrogate gap.
pub fn test_symbols(cuts: &[Sym], mode: Mode) -> Vec<Sym> {
  let max = max_sym(mode);
  let mut v = vec![];
  for (i, l) in cuts.iter().enumerate() {
    let r = cuts.get(i + 1).map_or(max, |n| n - 1);
    let (mut l, mut r) = (*l, r);
    if mode == Mode::Chars {
      if (0xd800..0xe000).contains(&l) {
        l = 0xe000;
      }
      if (0xd800..0xe000).contains(&r) {
        r = 0xd7ff;
      }
      if l > r {
        continue;
      }
    }
    v.push(l);
    if r != l {
      v.push(r);
    }
  }
  v
}

/// Finds a sequence on which the reference and an implementation disagree.
///
/// `next(state, sym)` and `tag(state)` describe the implementation.  Explores
/// all pairs of states reachable by the test symbols, so agreement means the
/// automata are equivalent on those symbols.
pub fn compare<T: Clone + Ord + std::fmt::Debug>(
  dfa: &mut Dfa<T>,
  syms: &[Sym],
  init: usize,
  mut next: impl FnMut(usize, Sym) -> Option<usize>,
  mut tag: impl FnMut(usize) -> Option<T>,
  viable: bool,
) -> Result<usize, (Vec<Sym>, String)> {
  let mut seen: HashMap<(Option<StateId>, Option<usize>), Option<(usize, Sym)>> = HashMap::new();
  let mut queue: Vec<(Option<StateId>, Option<usize>, Option<(usize, Sym)>)> = vec![(Some(START), Some(init), None)];
  seen.insert((Some(START), Some(init)), None);
  let path = |queue: &Vec<(Option<StateId>, Option<usize>, Option<(usize, Sym)>)>, mut i: usize, last: Option<Sym>| {
    let mut p: Vec<Sym> = last.into_iter().collect();
    while let Some((j, s)) = queue[i].2 {
      p.push(s);
      i = j;
    }
    p.reverse();
    p
  };
  let mut i = 0;
  while i < queue.len() {
    let (r, t, _) = queue[i];
    let (rt, it) = (r.and_then(|r| dfa.tag(r).cloned()), t.and_then(&mut tag));
    if rt != it {
      return Err((path(&queue, i, None), format!("expected tag {rt:?}, got {it:?}")));
    }
    for s in syms {
      let rn = r.and_then(|r| dfa.step(r, *s));
      let tn = t.and_then(|t| next(t, *s));
      if viable && rn.is_some() != tn.is_some() {
        let m = if rn.is_some() {
          "rejects the last symbol although some match begins like this"
        } else {
          "accepts the last symbol although no match begins like this"
        };
        return Err((path(&queue, i, Some(*s)), m.to_string()));
      }
      if rn.is_none() && tn.is_none() {
        continue;
      }
      if let std::collections::hash_map::Entry::Vacant(e) = seen.entry((rn, tn)) {
        e.insert(None);
        queue.push((rn, tn, Some((i, *s))));
      }
    }
    i += 1;
  }
  Ok(queue.len())
}

pub fn show(mode: Mode, seq: &[Sym]) -> String {
  match mode {
    Mode::Chars => format!("{:?}", seq.iter().filter_map(|s| char::from_u32(*s)).collect::<String>()),
    Mode::Bytes => format!("{:02x?}", seq),
  }
}
