//! C27: finite automata and closures against models.

use laps_regex::fa::*;
use pbt::{ensure, ensure_eq, Ctx, R};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Mutex;

/// Identifiers handed out so far, over all cases and threads.
static USED: Mutex<Vec<u64>> = Mutex::new(Vec::new());

fn fresh(ids: &[usize]) -> R {
  let mut used = USED.lock().unwrap();
  for id in ids {
    let (w, b) = (*id / 64, *id % 64);
    if w > 1 << 26 {
      continue;
    }
    if used.len() <= w {
      used.resize(w + 1024, 0);
    }
    ensure!(used[w] >> b & 1 == 0, "state identifier {id} was handed out before");
    used[w] |= 1 << b;
  }
  Ok(())
}

type Sym = char;

struct Model {
  init: usize,
  states: BTreeMap<usize, Vec<(Sym, usize)>>,
  finals: BTreeSet<usize>,
}

trait View: State<Sym> {
  const MULTI: bool;
  fn edges(&self) -> Vec<(Sym, usize)>;
  fn extra(&self, model: &[(Sym, usize)]) -> R;
}
impl View for DenseState<Sym> {
  const MULTI: bool = false;
  fn edges(&self) -> Vec<(Sym, usize)> {
    self.outs().to_vec()
  }
  fn extra(&self, model: &[(Sym, usize)]) -> R {
    for s in "abcd".chars() {
      let want = model.iter().find(|(x, _)| *x == s).map(|e| e.1);
      ensure_eq!(self.next_state(&s), want, "next_state({s:?})");
    }
    Ok(())
  }
}
impl View for MultiState<Sym> {
  const MULTI: bool = true;
  fn edges(&self) -> Vec<(Sym, usize)> {
    let mut v: Vec<_> = self.outs().iter().flat_map(|(s, t)| t.iter().map(|t| (*s, *t))).collect();
    v.sort_unstable();
    v
  }
  fn extra(&self, _: &[(Sym, usize)]) -> R {
    Ok(())
  }
}

fn norm<V: View>(es: &[(Sym, usize)]) -> Vec<(Sym, usize)> {
  let mut v = es.to_vec();
  if V::MULTI {
    v.sort_unstable();
    v.dedup();
  }
  v
}

/// A writer one of whose writes fails.
struct FailOnce {
  left: usize,
  writes: usize,
}

impl std::io::Write for FailOnce {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    self.writes += 1;
    if self.writes == self.left.wrapping_add(1) {
      return Err(std::io::Error::new(std::io::ErrorKind::Other, "once"));
    }
    Ok(b.len())
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}

fn inspect<V: View>(fa: &FiniteAutomaton<Sym, V>, m: &Model) -> R {
  ensure_eq!(fa.init_id(), m.init, "init_id");
  let mut ids: Vec<usize> = fa.states().keys().copied().collect();
  ids.sort_unstable();
  ensure_eq!(ids, m.states.keys().copied().collect::<Vec<_>>(), "states");
  for (id, es) in &m.states {
    let st = fa.state(*id).ok_or(format!("state({id}) is missing"))?;
    ensure_eq!(st.edges(), norm::<V>(es), "edges of state {id}");
    st.extra(es)?;
  }
  ensure_eq!(fa.init().edges(), norm::<V>(&m.states[&m.init]), "edges of init()");
  let mut fs: Vec<usize> = fa.finals().iter().copied().collect();
  fs.sort_unstable();
  ensure_eq!(fs, m.finals.iter().copied().collect::<Vec<_>>(), "finals");
  let fid = if m.finals.len() == 1 { m.finals.first().copied() } else { None };
  ensure_eq!(fa.final_id(), fid, "final_id");
  let mut out = vec![];
  fa.dump(&mut out).map_err(|e| format!("dump failed: {e}"))?;
  // a writer that takes less must not be reported as a complete dump
  for room in [out.len() - 1, out.len() * 3 / 4, out.len() / 2, out.len() / 3] {
    let mut buf = vec![0u8; room];
    ensure!(fa.dump(&mut buf.as_mut_slice()).is_err(), "dump to a writer of {room} bytes is Ok although it takes {}", out.len());
  }
  // nor to a writer that fails just once
  let mut count = FailOnce { left: usize::MAX, writes: 0 };
  let _ = fa.dump(&mut count);
  for n in [0, count.writes / 3, count.writes / 2, count.writes * 3 / 4, count.writes - 1] {
    let mut w = FailOnce { left: n, writes: 0 };
    ensure!(fa.dump(&mut w).is_err(), "dump is Ok although write {n} of {} failed", count.writes);
  }
  let out = String::from_utf8(out).map_err(|_| "dump is not UTF-8")?;
  let mut got: Vec<String> = out.lines().filter(|l| l.contains("->")).map(|l| l.trim().trim_end_matches(';').to_string()).collect();
  got.sort();
  let mut want: Vec<String> = vec![];
  for (id, es) in &m.states {
    want.extend(norm::<V>(es).into_iter().map(|(s, t)| format!("{id} -> {t} [label = \"{s:?}\"]")));
  }
  want.sort();
  ensure_eq!(got, want, "edges in the dump");
  let listed: BTreeSet<usize> = {
    // the nodes listed between the two shape declarations
    let from = out.find("doublecircle").ok_or("dump does not declare final states")?;
    let to = out[from..].find("shape = circle").map_or(out.len(), |p| from + p);
    out[from..to].split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect()
  };
  ensure_eq!(listed, m.finals, "final states in the dump");
  Ok(())
}

fn history<V: View>(c: &mut Ctx) -> R {
  let mut fas: Vec<(FiniteAutomaton<Sym, V>, Model)> = vec![];
  let mut all: Vec<usize> = vec![];
  let mut trail: Vec<String> = vec![];
  let n = c.range(2, 40);
  let mut edges = 0;
  for _ in 0..n {
    let op = if fas.is_empty() { 0 } else { c.weighted(&[2, 5, 3, 3, 3, 8, 2, 2, 2]) };
    if op == 0 {
      let fa = if c.bool() { FiniteAutomaton::new() } else { FiniteAutomaton::default() };
      let init = fa.init_id();
      all.push(init);
      trail.push(format!("new #{}", fas.len()));
      fas.push((fa, Model { init, states: [(init, vec![])].into(), finals: BTreeSet::new() }));
      continue;
    }
    let i = c.below(fas.len());
    let known = |c: &mut Ctx, m: &Model| -> usize {
      let ks: Vec<usize> = m.states.keys().copied().collect();
      *c.pick(&ks)
    };
    let any = |c: &mut Ctx, m: &Model, all: &[usize]| -> usize {
      match c.weighted(&[5, 2, 1]) {
        0 => known(c, m),
        1 => *c.pick(all),
        _ => *c.pick(&[usize::MAX, usize::MAX - 1, 1 << 60]),
      }
    };
    let (fa, m) = &mut fas[i];
    match op {
      1 => {
        let id = fa.add_state();
        all.push(id);
        m.states.insert(id, vec![]);
        trail.push(format!("#{i} add_state"));
      }
      2 => {
        let id = fa.add_final_state();
        all.push(id);
        m.states.insert(id, vec![]);
        m.finals.insert(id);
        trail.push(format!("#{i} add_final_state"));
      }
      3 => {
        let id = any(c, m, &all);
        let has = m.states.contains_key(&id);
        if has {
          m.finals.insert(id);
        }
        c.label_if(!has, "unknown-state");
        c.nontrivial_if(edges > 0);
        trail.push(format!("#{i} set_final_state({})", if has { "known" } else { "unknown" }));
        ensure_eq!(fa.set_final_state(id), has, "set_final_state({id}) after {trail:?}");
      }
      4 => {
        let id = if !m.finals.is_empty() && c.bool() { *c.pick(&m.finals.iter().copied().collect::<Vec<_>>()) } else { any(c, m, &all) };
        let has = m.states.contains_key(&id);
        if has {
          c.nontrivial_if(m.finals.remove(&id));
        }
        trail.push(format!("#{i} set_normal_state({})", if has { "known" } else { "unknown" }));
        ensure_eq!(fa.set_normal_state(id), has, "set_normal_state({id}) after {trail:?}");
      }
      5 => {
        let from = any(c, m, &all);
        let to = known(c, m);
        let s = *c.pick(&['a', 'b', 'c']);
        trail.push(format!("#{i} edge on {s}"));
        match (fa.state_mut(from), m.states.get_mut(&from)) {
          (Some(st), Some(es)) => {
            st.add(s, to);
            es.push((s, to));
            edges += 1;
          }
          (None, None) => {}
          (a, _) => {
            let got = a.is_some();
            ensure!(false, "state_mut({from}) found a state: {got}, after {trail:?}");
          }
        }
      }
      6 => {
        let to = known(c, m);
        fa.init_mut().add('d', to);
        let init = m.init;
        m.states.get_mut(&init).unwrap().push(('d', to));
        edges += 1;
        trail.push(format!("#{i} edge from init"));
      }
      7 => {
        if fas.len() > 1 {
          let j = (i + 1 + c.below(fas.len() - 1)) % fas.len();
          let (other, om) = fas.remove(j);
          let i = if j < i { i - 1 } else { i };
          let (fa, m) = &mut fas[i];
          fa.union(other);
          m.states.extend(om.states);
          m.finals.extend(om.finals);
          trail.push(format!("#{i} union #{j}"));
          c.label("union");
          c.nontrivial_if(edges > 0);
        }
      }
      _ => {
        let id = any(c, m, &all);
        ensure_eq!(fa.state(id).is_some(), m.states.contains_key(&id), "state({id}) after {trail:?}");
      }
    }
  }
  c.note(|| format!("{}: {}", if V::MULTI { "multi" } else { "dense" }, trail.join(", ")));
  c.key(&trail);
  let distinct: HashSet<usize> = all.iter().copied().collect();
  ensure_eq!(distinct.len(), all.len(), "distinct identifiers after {trail:?}");
  if !c.recording {
    fresh(&all)?;
  }
  for (i, (fa, m)) in fas.iter().enumerate() {
    c.checks += 1;
    inspect(fa, m).map_err(|e| format!("automaton #{i} after {trail:?}: {e}"))?;
  }
  Ok(())
}

pub fn c27_fa(c: &mut Ctx) -> R {
  if c.bool() {
    history::<MultiState<Sym>>(c)
  } else {
    history::<DenseState<Sym>>(c)
  }
}

pub fn c27_closure(c: &mut Ctx) -> R {
  let n = c.range(1, 12);
  let mut fa: MultiFA<Option<Sym>> = MultiFA::new();
  let mut ids = vec![fa.init_id()];
  for _ in 1..n {
    ids.push(if c.prob(1, 4) { fa.add_final_state() } else { fa.add_state() });
  }
  let mut edges: BTreeSet<(usize, Option<Sym>, usize)> = BTreeSet::new();
  let dense = c.range(1, 4);
  let m = c.range(0, n * dense);
  for _ in 0..m {
    let (f, t) = (*c.pick(&ids), *c.pick(&ids));
    let s = match c.weighted(&[4, 2, 2, 1]) {
      0 => None,
      1 => Some('a'),
      2 => Some('b'),
      _ => Some('c'),
    };
    fa.state_mut(f).unwrap().add(s, t);
    edges.insert((f, s, t));
  }
  let base = ids[0];
  let rel = |i: usize| ids.iter().position(|x| *x == i).map(|p| p as i64).unwrap_or(-1);
  c.note(|| format!("edges {:?}", edges.iter().map(|(f, s, t)| (rel(*f), *s, rel(*t))).collect::<Vec<_>>()));
  c.key(&edges.iter().map(|(f, s, t)| (*f - base, *s, *t - base)).collect::<Vec<_>>());
  let cb = ClosureBuilder::from(fa);
  let want_syms: HashSet<Sym> = edges.iter().filter_map(|e| e.1).collect();
  ensure_eq!(cb.symbol_set(), want_syms, "symbol_set");
  let mut adj: HashMap<usize, Vec<usize>> = HashMap::new();
  for (f, s, t) in &edges {
    if s.is_none() {
      adj.entry(*f).or_default().push(*t);
    }
  }
  let reach = |seed: &Closure| -> Closure {
    let mut out = seed.clone();
    let mut work: Vec<usize> = seed.iter().copied().collect();
    while let Some(s) = work.pop() {
      for t in adj.get(&s).into_iter().flatten() {
        if out.insert(*t) {
          work.push(*t);
        }
      }
    }
    out
  };
  let mut caches = [CachedClosures::new(), CachedClosures::new()];
  let mut sets: Vec<Closure> = vec![];
  let q = c.range(1, 12);
  for _ in 0..q {
    let k = c.below(2);
    let seed: Closure = if !sets.is_empty() && c.bool() {
      c.pick(&sets).clone()
    } else {
      let mut s: Closure = c.vec(0, 4, 2, |c| *c.pick(&ids)).into_iter().collect();
      if c.prob(1, 12) {
        s.insert(usize::MAX);
      }
      s
    };
    c.checks += 1;
    let show = |s: &Closure| s.iter().map(|i| rel(*i)).collect::<Vec<_>>();
    if c.bool() {
      let want = reach(&seed);
      c.nontrivial_if(want.len() > seed.len());
      let got = cb.epsilon_closure(&mut caches[k], seed.clone());
      ensure!(got == want, "epsilon_closure of {:?}: got {:?}, expected {:?}", show(&seed), show(&got), show(&want));
      sets.push(got);
    } else {
      let s = *c.pick(&['a', 'b', 'c', 'z']);
      let step: Closure = edges.iter().filter(|(f, x, _)| *x == Some(s) && seed.contains(f)).map(|e| e.2).collect();
      let want = reach(&step);
      c.nontrivial_if(want.len() > step.len());
      let got = cb.state_closure(&mut caches[k], &seed, &s);
      ensure!(got == want, "state_closure of {:?} on {s:?}: got {:?}, expected {:?}", show(&seed), show(&got), show(&want));
      sets.push(got);
    }
    sets.push(seed);
  }
  Ok(())
}
