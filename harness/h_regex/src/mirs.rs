//! C08: compilation stages on intermediate representations.

use crate::common::*;
use laps_regex::dfa::DFA;
use laps_regex::mir::{Mir, MirBuilder};
use laps_regex::nfa::NFA;
use laps_regex::table::StateTransTable;
use pbt::{ensure, Ctx, R};
use refre::{compare, show, Dfa, Mode, Re, Sym};
use std::collections::{BTreeSet, HashMap};

type T = u8;

struct G {
  syms: Vec<Sym>,
  budget: i64,
}

impl G {
  fn range(&self, c: &mut Ctx, max: Sym) -> (Sym, Sym) {
    let a = *c.pick(&self.syms);
    match c.below(4) {
      0 | 1 => (a, a),
      2 => {
        let b = *c.pick(&self.syms);
        (a.min(b), a.max(b))
      }
      _ => {
        let b = a.saturating_add(c.choice(4) as Sym).min(max);
        let b = if max > 0xff && (0xd800..0xe000).contains(&b) { 0xe000 } else { b };
        (a, b)
      }
    }
  }

  fn mir<C: S>(&mut self, c: &mut Ctx, depth: usize) -> Mir<C, T> {
    self.budget -= 1;
    let k = if depth == 0 || self.budget <= 0 { c.weighted(&[8, 1]) } else { c.weighted(&[6, 1, 6, 6, 4]) };
    match k {
      0 => {
        let max = refre::max_sym(C::MODE);
        let n = if c.prob(1, 40) { 5 + c.below(30) } else { c.weighted(&[6, 3, 2, 1]) + 1 };
        Mir::Ranges(
          (0..n)
            .map(|_| {
              let (l, r) = self.range(c, max);
              (C::of(l), C::of(r))
            })
            .collect(),
        )
      }
      1 => Mir::Empty,
      2 if c.prob(1, 30) => Mir::Concat(c.vec(5, 30, 10, |c| self.mir(c, 0))),
      3 if c.prob(1, 30) => Mir::Alter(c.vec(5, 30, 10, |c| (self.mir(c, 0), None))),
      2 => Mir::Concat(c.vec(1, 4, 2, |c| self.mir(c, depth - 1))),
      3 => Mir::Alter(c.vec(1, 4, 2, |c| (self.mir(c, depth - 1), None))),
      _ => Mir::Kleene(Box::new(self.mir(c, depth - 1))),
    }
  }
}

fn re_of<C: S>(m: &Mir<C, T>) -> Re {
  match m {
    Mir::Empty => Re::Empty,
    Mir::Ranges(rs) => Re::Class(rs.iter().map(|(l, r)| (l.to(), r.to())).collect()),
    Mir::Concat(v) => Re::Cat(v.iter().map(re_of).collect()),
    Mir::Alter(v) => Re::Alt(v.iter().map(|(m, _)| re_of(m)).collect()),
    Mir::Kleene(k) => Re::Star(Box::new(re_of(k))),
  }
}

fn has_tags<C: S>(m: &Mir<C, T>) -> bool {
  match m {
    Mir::Empty | Mir::Ranges(_) => false,
    Mir::Concat(v) => v.iter().any(has_tags),
    Mir::Alter(v) => v.iter().any(|(m, t)| t.is_some() || has_tags(m)),
    Mir::Kleene(k) => has_tags(k),
  }
}

/// The tagged expressions of a representation whose tags are on outermost
/// alternatives, possibly behind common prefixes; `None` for another shape.
fn flatten<C: S>(m: &Mir<C, T>) -> Option<Vec<(Re, T)>> {
  match m {
    Mir::Alter(v) => {
      let mut out = vec![];
      for (e, t) in v {
        match t {
          Some(t) if !has_tags(e) => out.push((re_of(e), *t)),
          Some(_) => return None,
          None => out.extend(flatten(e)?),
        }
      }
      Some(out)
    }
    Mir::Concat(v) => {
      let (last, init) = v.split_last()?;
      if init.iter().any(has_tags) {
        return None;
      }
      let pre: Vec<Re> = init.iter().map(re_of).collect();
      Some(
        flatten(last)?
          .into_iter()
          .map(|(r, t)| {
            let mut v = pre.clone();
            v.push(r);
            (Re::Cat(v), t)
          })
          .collect(),
      )
    }
    _ => None,
  }
}

/// A simulation of an NFA by sets of states, numbered as they appear.
struct Sim<C> {
  edges: HashMap<usize, Vec<(Option<Vec<(C, C)>>, usize)>>,
  sets: Vec<BTreeSet<usize>>,
  ids: HashMap<BTreeSet<usize>, usize>,
}

impl<C: S> Sim<C> {
  fn closure(&self, mut set: BTreeSet<usize>) -> BTreeSet<usize> {
    let mut work: Vec<usize> = set.iter().copied().collect();
    while let Some(s) = work.pop() {
      for (l, to) in self.edges.get(&s).into_iter().flatten() {
        if l.is_none() && set.insert(*to) {
          work.push(*to);
        }
      }
    }
    set
  }
  fn id(&mut self, set: BTreeSet<usize>) -> usize {
    let n = self.sets.len();
    if let Some(i) = self.ids.get(&set) {
      return *i;
    }
    self.ids.insert(set.clone(), n);
    self.sets.push(set);
    n
  }
  fn next(&mut self, i: usize, s: Sym) -> Option<usize> {
    let mut out = BTreeSet::new();
    for q in &self.sets[i] {
      for (l, to) in self.edges.get(q).into_iter().flatten() {
        if l.as_ref().is_some_and(|rs| rs.iter().any(|(a, b)| a.to() <= s && s <= b.to())) {
          out.insert(*to);
        }
      }
    }
    if out.is_empty() {
      return None;
    }
    let out = self.closure(out);
    Some(self.id(out))
  }
}

fn check_nfa<C: S>(m: Mir<C, T>, dfa: &mut Dfa<T>, acc: &mut Dfa<()>, syms: &[Sym], tagged: bool, what: &str) -> R {
  let nfa = if tagged { NFA::new(m) } else { NFA::from(m) };
  let (fa, tags) = nfa.into_fa_tags();
  for t in tags.keys() {
    ensure!(fa.state(*t).is_some(), "{what}: tagged state {t} does not exist");
    ensure!(fa.finals().contains(t), "{what}: tagged state {t} is not final");
  }
  for f in fa.finals() {
    ensure!(fa.state(*f).is_some(), "{what}: final state {f} does not exist");
  }
  let mut edges: HashMap<usize, Vec<(Option<Vec<(C, C)>>, usize)>> = HashMap::new();
  for (id, st) in fa.states() {
    for (s, tos) in st.outs() {
      for to in tos {
        ensure!(fa.state(*to).is_some(), "{what}: edge to unknown state {to}");
        edges.entry(*id).or_default().push((s.clone(), *to));
      }
    }
  }
  let mut sim = Sim { edges, sets: vec![], ids: HashMap::new() };
  let init = sim.closure([fa.init_id()].into());
  let init = sim.id(init);
  let sim = std::cell::RefCell::new(sim);
  compare(
    acc,
    syms,
    init,
    |i, s| sim.borrow_mut().next(i, s),
    |i| sim.borrow().sets[i].iter().any(|q| fa.finals().contains(q)).then_some(()),
    false,
  )
  .map_err(|(p, m)| format!("{what}: final states: on {}: {m}", show(C::MODE, &p)))?;
  if tagged {
    compare(
      dfa,
      syms,
      init,
      |i, s| sim.borrow_mut().next(i, s),
      |i| sim.borrow().sets[i].iter().filter_map(|q| tags.get(q)).min().copied(),
      false,
    )
    .map_err(|(p, m)| format!("{what}: tags: on {}: {m}", show(C::MODE, &p)))?;
  }
  Ok(())
}

fn check_dfa<C: S>(m: Mir<C, T>, dfa: &mut Dfa<T>, syms: &[Sym], par: Option<bool>, what: &str) -> R {
  let built = |m: Mir<C, T>| if par.is_none() { DFA::from(NFA::from(m)) } else { DFA::new(NFA::new(m), par) };
  let (fa, tags) = built(m.clone()).into_fa_tags();
  for (id, st) in fa.states() {
    let mut rs: Vec<(Sym, Sym)> = vec![];
    for (s, to) in st.outs() {
      ensure!(fa.state(*to).is_some(), "{what}: edge of state {id} to unknown state {to}");
      for (l, r) in s {
        ensure!(l <= r, "{what}: inverted range {l:?}..={r:?}");
        rs.push((l.to(), r.to()));
      }
    }
    rs.sort_unstable();
    for w in rs.windows(2) {
      ensure!(w[0].1 < w[1].0, "{what}: two edges of one state on symbol {:#x}", w[1].0);
    }
  }
  for id in tags.keys() {
    ensure!(fa.finals().contains(id), "{what}: tagged state {id} is not final");
  }
  for id in fa.finals() {
    ensure!(fa.state(*id).is_some(), "{what}: final state {id} does not exist");
    ensure!(tags.contains_key(id), "{what}: final state {id} has no tag");
  }
  compare(
    dfa,
    syms,
    fa.init_id(),
    |i, s| {
      let st = fa.state(i)?;
      st.outs().iter().find(|(rs, _)| rs.iter().any(|(l, r)| l.to() <= s && s <= r.to())).map(|(rs, to)| {
        // the lookup by edge label must agree
        if st.next_state(rs) == Some(*to) { *to } else { usize::MAX }
      })
    },
    |i| tags.get(&i).copied(),
    false,
  )
  .map_err(|(p, m)| format!("{what}: on {}: {m}", show(C::MODE, &p)))?;
  let table = if par.is_none() { StateTransTable::from(built(m)) } else { StateTransTable::new(built(m)) };
  let all: Vec<Sym> = symbols(dfa, Some(&table));
  compare(dfa, &all, table.init_id(), |i, s| table.next_state(i, &C::of(s)), |i| table.is_final(i).copied(), false)
    .map(|_| ())
    .map_err(|(p, m)| format!("{what}, tabulated: on {}: {m}", show(C::MODE, &p)))
}

/// Representations of patterns, with the expressions they are of.
fn of_patterns<C: S>(c: &mut Ctx, tagged: bool) -> Result<Option<(Mir<C, T>, Vec<(Re, T)>)>, String>
where
  Mir<C, T>: MirBuilder,
{
  let mode = C::MODE;
  let pats = pattern_set(c, mode, 4);
  c.note(|| format!("of the patterns {pats:?}"));
  let (mut alts, mut res) = (vec![], vec![]);
  for (i, p) in pats.iter().enumerate() {
    let Ok(hir) = refre::parse(p, mode == Mode::Chars) else { return Ok(None) };
    let Ok(re) = Re::from_hir(&hir, mode) else { return Ok(None) };
    let m = if c.bool() { Mir::new(hir) } else { Mir::try_from(hir) };
    let tag = 3 * i as u8;
    alts.push((m.map_err(|e| format!("representing {p:?}: {e}"))?, tagged.then_some(tag)));
    res.push((re, if tagged { tag } else { 0 }));
  }
  // just the one
  if !tagged && alts.len() == 1 {
    return Ok(Some((alts.remove(0).0, res)));
  }
  Ok(Some((Mir::Alter(alts), res)))
}

fn c08<C: S>(c: &mut Ctx) -> R
where
  Mir<C, T>: MirBuilder,
{
  let tagged = !c.prob(1, 5);
  if c.prob(1, 5) {
    return match of_patterns::<C>(c, tagged)? {
      Some((mir, flat)) => {
        c.label("of patterns");
        stages(c, mir, flat, tagged)
      }
      None => Ok(()),
    };
  }
  let mode = C::MODE;
  let pool: &[Sym] = match mode {
    Mode::Chars => refre::gen::EDGE_CHARS,
    Mode::Bytes => refre::gen::EDGE_BYTES,
  };
  let n = c.range(2, 6);
  let syms: Vec<Sym> = match c.below(3) {
    0 => (0..n).map(|_| *c.pick(pool)).collect(),
    1 => (0..n as u32).map(|i| 0x61 + i).collect(),
    _ => (0..n).map(|_| 0x60 + c.choice(0x20) as Sym).collect(),
  };
  let mut g = G { syms, budget: 24 };
  let depth = c.range(1, 4);
  // alternatives with tags in ascending order
  let k = if c.prob(1, 20) { 6 + c.below(14) } else { c.range(1, 5) };
  let mut tag = 0u8;
  let mut alts: Vec<(Mir<C, T>, Option<T>)> = vec![];
  for i in 0..k {
    g.budget = g.budget.max(4);
    let m = if i > 0 && c.prob(1, 4) {
      let (m, _) = c.pick(&alts).clone();
      match c.below(3) {
        0 => m,
        1 => Mir::Concat(vec![m, g.mir(c, 1)]),
        _ => Mir::Alter(vec![(g.mir(c, 1), None), (m, None)]),
      }
    } else {
      g.mir(c, depth)
    };
    tag += 1 + c.choice(2) as u8;
    alts.push((m, tagged.then_some(tag)));
  }
  let mut mir = Mir::Alter(alts);
  if c.prob(1, 5) {
    c.label("common-prefix");
    let p = g.mir(c, 2);
    mir = Mir::Concat(vec![p, mir]);
  }
  let flat = if tagged { flatten(&mir).expect("generated shape") } else { vec![(re_of(&mir), 0)] };
  stages(c, mir, flat, tagged)
}

fn stages<C: S>(c: &mut Ctx, mir: Mir<C, T>, flat: Vec<(Re, T)>, tagged: bool) -> R {
  let mode = C::MODE;
  c.note(|| format!("{mir:?}"));
  c.key(&format!("{mir:?}"));
  let unit: Vec<(Re, ())> = flat.iter().map(|(r, _)| (r.clone(), ())).collect();
  if positions(&flat) > 200 {
    c.label("too-big");
    return Ok(());
  }
  let mut dfa = Dfa::new(&flat);
  let mut acc = Dfa::new(&unit);
  let syms = symbols::<C, T, ()>(&dfa, None);
  if syms.len() > 250 || !dfa.nfa.quick_to_divide() {
    c.label("too-many-classes");
    return Ok(());
  }
  // what is given may be much larger than what it means
  let given = [(re_of(&mir), ())];
  let size = given[0].0.positions();
  match Dfa::new(&given).explore(&syms, 600) {
    Some(n) if size <= 200 && n * size * syms.len() <= 300_000 => {}
    _ => {
      c.label("too-big");
      return Ok(());
    }
  }
  match dfa.explore(&syms, 400) {
    None => {
      c.label("state-explosion");
      return Ok(());
    }
    Some(n) => c.nontrivial_if(n >= 3),
  }
  c.label(if tagged { "tagged" } else { "untagged" });
  check_nfa(mir.clone(), &mut dfa, &mut acc, &syms, tagged, "NFA of the given representation")?;
  let opt = mir.clone().optimize().map_err(|e| format!("optimize failed: {e}"))?;
  c.label_if(opt != mir, "changed-by-optimize");
  c.note(|| format!("optimized: {opt:?}"));
  let opt_flat = if tagged { flatten(&opt) } else { Some(vec![(re_of(&opt), 0)]) };
  if let Some(f) = opt_flat {
    c.label("optimized-read-directly");
    let mut odfa = Dfa::new(&f);
    let odfa = std::cell::RefCell::new(&mut odfa);
    let osyms = refre::test_symbols(&dfa.nfa.cuts(refre::max_sym(mode), odfa.borrow().nfa.cuts(refre::max_sym(mode), [])), mode);
    compare(&mut dfa, &osyms, refre::START, |i, s| odfa.borrow_mut().step(i, s), |i| odfa.borrow().tag(i).copied(), false)
      .map_err(|(p, m)| format!("optimized representation: on {}: {m}", show(mode, &p)))?;
  }
  check_nfa(opt.clone(), &mut dfa, &mut acc, &syms, tagged, "NFA of the optimized representation")?;
  c.checks += 3;
  if c.prob(1, 4) {
    let again = opt.clone().optimize().map_err(|e| format!("optimizing twice failed: {e}"))?;
    check_nfa(again, &mut dfa, &mut acc, &syms, tagged, "NFA of the twice optimized representation")?;
  }
  if tagged {
    let par = *c.pick(&[Some(false), Some(true), None]);
    check_dfa(opt, &mut dfa, &syms, par, &format!("DFA (enable_par {par:?})"))?;
    c.checks += 2;
  }
  Ok(())
}

pub fn c08_char(c: &mut Ctx) -> R {
  c08::<char>(c)
}

pub fn c08_byte(c: &mut Ctx) -> R {
  c08::<u8>(c)
}

/// C27: the dumps of NFAs and DFAs are those of their automata.
pub fn c27_built(c: &mut Ctx) -> R {
  let mut g = G { syms: (0..4).map(|i| 0x61 + i).collect(), budget: 16 };
  let k = c.range(1, 3);
  let alts = (0..k).map(|i| (g.mir::<u8>(c, 3), Some(i as T))).collect();
  let mir: Mir<u8, T> = Mir::Alter(alts);
  c.note(|| format!("{mir:?}"));
  c.key(&format!("{mir:?}"));
  let size = re_of(&mir).positions();
  if size > 60 {
    return Ok(());
  }
  c.nontrivial_if(size > 2);
  let dump = |f: &dyn Fn(&mut dyn std::io::Write) -> std::io::Result<()>| -> Result<Vec<u8>, String> {
    let mut v = vec![];
    f(&mut v).map_err(|e| format!("dump failed: {e}"))?;
    for room in [v.len() - 1, v.len() / 2] {
      let mut buf = vec![0u8; room];
      ensure!(f(&mut buf.as_mut_slice()).is_err(), "a dump to a writer of {room} bytes is Ok although it takes {}", v.len());
    }
    Ok(v)
  };
  let nfa = NFA::new(mir.clone());
  let a = dump(&|mut w| nfa.dump(&mut w))?;
  let (fa, _) = nfa.into_fa_tags();
  ensure!(a == dump(&|mut w| fa.dump(&mut w))?, "the dump of the NFA is not that of its automaton");
  if size <= 20 {
    let dfa = DFA::new(NFA::new(mir.optimize().map_err(|e| format!("optimize failed: {e}"))?), Some(false));
    let a = dump(&|mut w| dfa.dump(&mut w))?;
    let (fa, _) = dfa.into_fa_tags();
    ensure!(a == dump(&|mut w| fa.dump(&mut w))?, "the dump of the DFA is not that of its automaton");
    c.checks += 1;
  }
  c.checks += 1;
  Ok(())
}
