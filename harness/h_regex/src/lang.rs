use crate::common::*;
use laps_regex::mir::{Mir, MirBuilder};
use laps_regex::re::RegexMatcher;
use laps_regex::table::StateTransTable;
use pbt::{ensure, ensure_eq, fail, Ctx, R};
use refre::{compare, show, Dfa, Mode, Sym, START};

const CAP: usize = 600;

fn must_build<C: S, T: Clone + std::hash::Hash + Ord + std::fmt::Debug>(
  pats: &[(String, T)],
  par: Option<bool>,
) -> Result<RegexMatcher<C, T>, String>
where
  Mir<C, T>: MirBuilder,
{
  build(pats, par).map_err(|e| format!("building {} failed: {e}", show_set(pats)))
}

/// Compares a table with the reference on all state pairs.
fn agree<C: S, T: Clone + Ord + std::fmt::Debug, U>(
  dfa: &mut Dfa<T>,
  syms: &[Sym],
  table: &StateTransTable<C, U>,
  mut map: impl FnMut(&U) -> T,
  what: &str,
) -> R {
  compare(
    dfa,
    syms,
    table.init_id(),
    |i, s| table.next_state(i, &C::of(s)),
    |i| table.is_final(i).map(&mut map),
    false,
  )
  .map(|_| ())
  .map_err(|(p, m)| format!("{what}: on {}: {m}", show(C::MODE, &p)))
}

fn as_chars(seq: &[Sym]) -> Vec<char> {
  seq.iter().map(|s| char::of(*s)).collect()
}

struct Case<T> {
  pats: Vec<(String, T)>,
  dfa: Dfa<T>,
  /// Whether all reference states were enumerated.
  complete: bool,
}

/// Generates a set and its reference; `None` discards the case.
fn case<T: Clone + Ord + std::fmt::Debug>(
  c: &mut Ctx,
  mode: Mode,
  pats: Vec<(String, T)>,
  syms_of: impl Fn(&Dfa<T>) -> Vec<Sym>,
) -> Option<Case<T>> {
  c.note(|| show_set(&pats));
  c.key(&pats.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>());
  let Some(res) = reference(mode, &pats) else {
    c.label("outside-domain");
    return None;
  };
  if positions(&res) > 400 {
    c.label("too-big");
    return None;
  }
  let mut dfa = Dfa::new(&res);
  let syms = syms_of(&dfa);
  if syms.len() > if c.prob(1, 20) { 2500 } else { 250 } || !dfa.nfa.quick_to_divide() {
    c.label("too-many-symbols");
    return None;
  }
  let complete = match dfa.explore(&syms, CAP) {
    Some(n) => {
      if dfa.work(&syms) > 4_000_000 {
        c.label("too-much-work");
        return None;
      }
      c.nontrivial_if(n >= 3);
      c.label(match n {
        0..=2 => "states<=2",
        3..=5 => "states3-5",
        6..=20 => "states6-20",
        21..=80 => "states21-80",
        _ => "states>80",
      });
      true
    }
    None => {
      c.label("state-explosion");
      return None;
    }
  };
  Some(Case { pats, dfa, complete })
}

fn labels(c: &mut Ctx, pats: &[String]) {
  c.label_if(pats.len() > 1, "several-patterns");
  c.label_if(pats.iter().any(|p| p.contains('*')), "star");
  c.label_if(pats.iter().any(|p| p.contains('{') && p.contains("}") && !p.contains("\\x{")), "counted");
  c.label_if(pats.iter().any(|p| p.contains("[^")), "negated");
  let mut u = pats.to_vec();
  u.sort();
  u.dedup();
  c.label_if(u.len() < pats.len(), "duplicates");
}

pub fn c01(c: &mut Ctx) -> R {
  let pats = pattern_set(c, Mode::Chars, 6);
  labels(c, &pats);
  let pats: Vec<(String, i32)> = tagged(c, pats);
  let unit: Vec<(String, ())> = pats.iter().map(|(p, _)| (p.clone(), ())).collect();
  let Some(mut k) = case(c, Mode::Chars, unit, |d| symbols::<char, (), ()>(d, None)) else { return Ok(()) };
  for round in 0..2 {
    let m = must_build::<char, i32>(&pats, None)?;
    let base = symbols::<char, (), ()>(&k.dfa, None);
    // strings through the matcher itself
    for _ in 0..3 {
      let seq = walk(c, &mut k.dfa, &base, 24);
      c.checks += 1;
      let want = k.dfa.run(&seq).is_some();
      let chars = as_chars(&seq);
      let text: String = chars.iter().collect();
      c.label(if want { "string-matches" } else { "string-rejected" });
      ensure_eq!(m.is_str_match(&text).is_some(), want, "is_str_match({text:?}) on build {round}");
      ensure_eq!(m.is_match(&chars).is_some(), want, "is_match({chars:?}) on build {round}");
    }
    let table = StateTransTable::from(m);
    let syms = symbols(&k.dfa, Some(&table));
    c.checks += 1;
    agree(&mut k.dfa, &syms, &table, |_| (), &format!("build {round}"))?;
  }
  Ok(())
}

pub fn c01_big(c: &mut Ctx) -> R {
  let mut pats: Vec<String> = if c.bool() {
    refre::gen::REAL_CHARS.iter().map(|s| s.to_string()).collect()
  } else {
    let n = c.range(20, 60);
    let mut v: Vec<String> = (0..n)
      .map(|_| c.vec(1, 9, 5, |c| (b'a' + c.choice(7) as u8) as char).into_iter().collect())
      .collect();
    v.push("[_a-zA-Z][_a-zA-Z0-9]*".into());
    v
  };
  for i in (1..pats.len()).rev() {
    let j = c.range(0, i);
    pats.swap(i, j);
  }
  let keep = c.range(pats.len() / 2, pats.len());
  pats.truncate(keep);
  let pats = tagged(c, pats);
  c.note(|| show_set(&pats));
  c.key(&pats);
  let res = reference(Mode::Chars, &pats).ok_or("reference rejects a fixed pattern")?;
  c.nontrivial_if(positions(&res) > 40);
  let m = must_build::<char, i32>(&pats, None)?;
  let mut dfa = Dfa::new(&res);
  let base = symbols::<char, i32, ()>(&dfa, None);
  for _ in 0..200 {
    let seq = walk(c, &mut dfa, &base, 40);
    c.checks += 1;
    let want = dfa.run(&seq);
    let text: String = as_chars(&seq).iter().collect();
    ensure_eq!(m.is_str_match(&text).copied(), want, "is_str_match({text:?})");
  }
  let table = StateTransTable::from(m);
  let syms = symbols(&dfa, Some(&table));
  if dfa.explore(&syms, 1500).is_some() {
    c.label("all-pairs");
    agree(&mut dfa, &syms, &table, |t| *t, "all pairs")?;
  }
  Ok(())
}

pub fn c02(c: &mut Ctx) -> R {
  let pats = pattern_set(c, Mode::Bytes, 6);
  labels(c, &pats);
  let pats = tagged(c, pats);
  let Some(mut k) = case(c, Mode::Bytes, pats, |d| symbols::<u8, i32, ()>(d, None)) else { return Ok(()) };
  let m = must_build::<u8, i32>(&k.pats, None)?;
  let base = symbols::<u8, i32, ()>(&k.dfa, None);
  for _ in 0..4 {
    let seq = walk(c, &mut k.dfa, &base, 24);
    c.checks += 1;
    let want = k.dfa.run(&seq);
    let bytes: Vec<u8> = seq.iter().map(|s| *s as u8).collect();
    c.label(if want.is_some() { "bytes-match" } else { "bytes-rejected" });
    c.label_if(want.is_some() && bytes.contains(&0xff), "matched-0xff");
    c.label_if(want.is_some() && bytes.contains(&0), "matched-0x00");
    ensure_eq!(m.is_match(&bytes).copied(), want, "is_match({bytes:02x?})");
    if let Ok(s) = std::str::from_utf8(&bytes) {
      ensure_eq!(m.is_str_match(s).copied(), want, "is_str_match({s:?})");
    }
  }
  let table = StateTransTable::from(m);
  let syms = symbols(&k.dfa, Some(&table));
  agree(&mut k.dfa, &syms, &table, |t| *t, "bytes")
}

fn c03_with<T: Clone + Ord + std::hash::Hash + std::fmt::Debug>(c: &mut Ctx, tag: impl Fn(i32) -> T) -> R
where
  Mir<char, T>: MirBuilder,
{
  // a base set, then copies of its members in equal or equivalent form
  let mut g = refre::gen::Gen::new(c, Mode::Chars);
  let mut ps: Vec<refre::gen::P> = vec![];
  while c.more(ps.len(), 2, 6, 3) {
    g.budget = g.budget.clamp(5, 12);
    let p = if !ps.is_empty() && c.prob(1, 2) {
      let q = c.pick(&ps).clone();
      match c.below(4) {
        0 => q,
        1 => refre::gen::rewrite(c, &q, 0),
        2 => refre::gen::P::Cat(vec![q, g.atom(c)]),
        _ => refre::gen::P::Alt(vec![g.any(c), q]),
      }
    } else {
      g.any(c)
    };
    ps.push(p);
  }
  let texts: Vec<String> = ps.iter().map(|p| refre::gen::text(p, Mode::Chars)).collect();
  labels(c, &texts);
  let pats: Vec<(String, T)> = tagged(c, texts).into_iter().map(|(p, t)| (p, tag(t))).collect();
  let Some(mut k) = case(c, Mode::Chars, pats, |d| symbols::<char, T, ()>(d, None)) else { return Ok(()) };
  debug_assert!(k.complete);
  let mut order: Vec<usize> = (0..k.pats.len()).collect();
  for i in (1..order.len()).rev() {
    let j = c.range(0, i);
    order.swap(i, j);
  }
  let shuffled: Vec<_> = order.iter().map(|i| k.pats[*i].clone()).collect();
  c.note(|| format!("second order: {order:?}"));
  for (what, pats) in [("first order", k.pats.clone()), ("second order", shuffled)] {
    let m = must_build::<char, T>(&pats, None)?;
    let base = symbols::<char, T, ()>(&k.dfa, None);
    for _ in 0..3 {
      let seq = walk(c, &mut k.dfa, &base, 12);
      let want = k.dfa.run(&seq);
      let chars = as_chars(&seq);
      ensure_eq!(m.is_match(&chars).cloned(), want, "{what}: is_match({chars:?})");
    }
    let table = StateTransTable::from(m);
    let syms = symbols(&k.dfa, Some(&table));
    agree(&mut k.dfa, &syms, &table, |t| t.clone(), what)?;
  }
  Ok(())
}

pub fn c03(c: &mut Ctx) -> R {
  match c.below(3) {
    0 => c03_with(c, |t| t),
    1 => c03_with(c, |t| format!("t{}", t + 100)),
    _ => c03_with(c, |t| (std::cmp::Reverse(t), 'x')),
  }
}

fn history<C: S>(c: &mut Ctx) -> R
where
  Mir<C, i32>: MirBuilder,
{
  let pats = pattern_set(c, C::MODE, 4);
  let pats = tagged(c, pats);
  let Some(mut k) = case(c, C::MODE, pats, |d| symbols::<C, i32, ()>(d, None)) else { return Ok(()) };
  let mut m = must_build::<C, i32>(&k.pats, None)?;
  let syms = symbols::<C, i32, ()>(&k.dfa, None);
  let mut cur = START;
  let mut remembered: Vec<(usize, usize)> = vec![];
  let mut accepted = 0;
  let mut trail: Vec<String> = vec![];
  let mut interesting = false;
  let n = c.range(1, 40);
  for _ in 0..n {
    let op = c.weighted(&[16, 2, 3, 2, 2, 2]);
    match op {
      0 => {
        let seq = walk(c, &mut k.dfa, &syms, 1);
        let s = match seq.first() {
          Some(_) if c.prob(4, 5) => {
            // a viable symbol of the current state, if any
            let start = c.below(syms.len());
            (0..syms.len()).map(|j| syms[(start + j) % syms.len()]).find(|s| k.dfa.step(cur, *s).is_some()).unwrap_or(syms[start])
          }
          _ => *c.pick(&syms),
        };
        let want = k.dfa.step(cur, s);
        let before = m.state();
        let got = m.is_accept(&C::of(s));
        trail.push(format!("accept({:?})={got}", C::of(s)));
        c.checks += 1;
        ensure_eq!(got, want.is_some(), "is_accept({:?}) after {trail:?}", C::of(s));
        if let Some(w) = want {
          cur = w;
          accepted += 1;
        } else {
          interesting |= accepted > 0;
          c.label("rejected");
          ensure_eq!(m.state(), before, "state after a rejected symbol, {trail:?}");
        }
      }
      1 => {
        m.reset();
        trail.push("reset".into());
        interesting |= cur != START;
        cur = START;
        c.label("reset");
      }
      2 => {
        remembered.push((m.state(), cur));
        trail.push("remember".into());
      }
      3 => {
        if !remembered.is_empty() {
          let (st, rf) = *c.pick(&remembered);
          c.checks += 1;
          ensure_eq!(m.is_state_final(st).copied(), k.dfa.tag(rf).copied(), "is_state_final of a remembered state, {trail:?}");
        }
      }
      4 => {
        c.checks += 1;
        ensure_eq!(m.is_final().copied(), k.dfa.tag(cur).copied(), "is_final after {trail:?}");
        ensure_eq!(m.is_state_final(m.state()).copied(), k.dfa.tag(cur).copied(), "is_state_final(state()) after {trail:?}");
      }
      _ => {
        let seq = walk(c, &mut k.dfa, &syms, 10);
        let want = k.dfa.run(&seq);
        let cs: Vec<C> = seq.iter().map(|s| C::of(*s)).collect();
        c.checks += 1;
        ensure_eq!(m.is_match(&cs).copied(), want, "is_match({cs:?}) after {trail:?}");
        trail.push("match".into());
      }
    }
    ensure_eq!(m.is_final().copied(), k.dfa.tag(cur).copied(), "is_final after {trail:?}");
  }
  for (st, rf) in &remembered {
    ensure_eq!(m.is_state_final(*st).copied(), k.dfa.tag(*rf).copied(), "is_state_final at the end, {trail:?}");
  }
  c.note(|| trail.join(" "));
  c.key(&trail);
  c.label_if(interesting, "reject-or-reset-mid-way");
  Ok(())
}

pub fn c04(c: &mut Ctx) -> R {
  if c.bool() {
    history::<u8>(c)
  } else {
    history::<char>(c)
  }
}

fn c05_mode<C: S>(c: &mut Ctx) -> R
where
  Mir<C, i32>: MirBuilder,
{
  let pats = if c.prob(1, 6) {
    c.label("wide");
    wide_set(c, C::MODE)
  } else {
    pattern_set(c, C::MODE, 5)
  };
  let pats = tagged(c, pats);
  let Some(mut k) = case(c, C::MODE, pats, |d| symbols::<C, i32, ()>(d, None)) else { return Ok(()) };
  let mut sizes = vec![];
  for par in [Some(false), Some(true), None] {
    let m = must_build::<C, i32>(&k.pats, par)?;
    let base = symbols::<C, i32, ()>(&k.dfa, None);
    for _ in 0..2 {
      let seq = walk(c, &mut k.dfa, &base, 10);
      let cs: Vec<C> = seq.iter().map(|s| C::of(*s)).collect();
      ensure_eq!(m.is_match(&cs).copied(), k.dfa.run(&seq), "enable_par {par:?}: is_match({cs:?})");
    }
    let table = StateTransTable::from(m);
    let syms = symbols(&k.dfa, Some(&table));
    c.checks += 1;
    let classes = table.sym_map().values().map(|v| v.1).collect::<std::collections::BTreeSet<_>>().len();
    c.label_if(classes > 64, "more-than-64-classes");
    sizes.push(table.num_states());
    agree(&mut k.dfa, &syms, &table, |t| *t, &format!("enable_par {par:?}"))?;
  }
  ensure!(sizes.iter().all(|s| *s == sizes[0]), "state counts with parallelization off/on/automatic: {sizes:?}");
  Ok(())
}

pub fn c05(c: &mut Ctx) -> R {
  if c.bool() {
    c05_mode::<u8>(c)
  } else {
    c05_mode::<char>(c)
  }
}

/// Hundreds of symbol classes and states.
fn many(c: &mut Ctx, builds: &[Option<bool>], repeats: usize) -> R {
  let mut pats = many_set(c);
  for _ in 0..repeats {
    let p = c.pick(&pats).clone();
    pats.push(p);
  }
  let pats = tagged_unique(c, pats);
  c.note(|| show_set(&pats));
  c.key(&pats);
  let res = reference(Mode::Chars, &pats).ok_or("reference rejects a generated set")?;
  let mut dfa = Dfa::new(&res);
  let mut sizes = vec![];
  for par in builds {
    let m = must_build::<char, i32>(&pats, *par)?;
    let table = StateTransTable::from(m);
    let syms = symbols(&dfa, Some(&table));
    let classes = table.sym_map().values().map(|v| v.1).collect::<std::collections::BTreeSet<_>>().len();
    c.nontrivial_if(classes > 256);
    c.label_if(table.num_states() > 256, "more-than-256-states");
    sizes.push(table.num_states());
    c.checks += 1;
    agree(&mut dfa, &syms, &table, |t| *t, &format!("enable_par {par:?}"))?;
  }
  if builds.len() == 1 {
    return Ok(());
  }
  ensure!(sizes.iter().all(|s| *s == sizes[0]), "state counts with parallelization off/on/automatic: {sizes:?}");
  let syms = symbols::<char, i32, ()>(&dfa, None);
  dfa.explore(&syms, 100000);
  ensure_eq!(sizes[0], dfa.minimal_states(&syms), "number of states against the minimum");
  Ok(())
}

pub fn c05_many(c: &mut Ctx) -> R {
  many(c, &[Some(false), Some(true), None], 0)
}

pub fn c01_many(c: &mut Ctx) -> R {
  many(c, &[None], 0)
}

pub fn c03_many(c: &mut Ctx) -> R {
  let n = c.range(1, 60);
  many(c, &[None], n)
}

pub fn c05_threads(c: &mut Ctx) -> R {
  let n = c.range(2, 5);
  let mut sets = vec![];
  for _ in 0..n {
    let pats = if c.prob(1, 8) { wide_set(c, Mode::Chars) } else { pattern_set(c, Mode::Chars, 5) };
    let pats = tagged(c, pats);
    let par = *c.pick(&[None, Some(true), Some(false)]);
    if let Some(k) = case(c, Mode::Chars, pats, |d| symbols::<char, i32, ()>(d, None)) {
      sets.push((k, par));
    }
  }
  c.nontrivial_if(sets.len() >= 2);
  let built: Vec<_> = std::thread::scope(|s| {
    let hs: Vec<_> = sets
      .iter()
      .map(|(k, par)| {
        let (pats, par) = (&k.pats, *par);
        s.spawn(move || must_build::<char, i32>(pats, par))
      })
      .collect();
    hs.into_iter().map(|h| h.join()).collect()
  });
  for ((k, par), m) in sets.iter_mut().zip(built) {
    let m = match m {
      Ok(m) => m?,
      Err(_) => fail!("a concurrent build panicked on {}", show_set(&k.pats)),
    };
    let table = StateTransTable::from(m);
    let syms = symbols(&k.dfa, Some(&table));
    c.checks += 1;
    agree(&mut k.dfa, &syms, &table, |t| *t, &format!("concurrent build, enable_par {par:?}"))?;
  }
  Ok(())
}

fn c06_mode<C: S>(c: &mut Ctx) -> R
where
  Mir<C, i32>: MirBuilder,
{
  let pats = if c.prob(1, 15) { wide_set(c, C::MODE) } else { pattern_set(c, C::MODE, 6) };
  let pats = tagged(c, pats);
  let Some(k) = case(c, C::MODE, pats, |d| symbols::<C, i32, ()>(d, None)) else { return Ok(()) };
  shape::<C>(c, k)
}

pub fn c06_many(c: &mut Ctx) -> R {
  let pats = many_set(c);
  let pats = tagged_unique(c, pats);
  c.note(|| show_set(&pats));
  c.key(&pats);
  c.nontrivial();
  let res = reference(Mode::Chars, &pats).ok_or("reference rejects a generated set")?;
  let dfa = Dfa::new(&res);
  shape::<char>(c, Case { pats, dfa, complete: true })
}

fn shape<C: S>(c: &mut Ctx, mut k: Case<i32>) -> R
where
  Mir<C, i32>: MirBuilder,
{
  let table = StateTransTable::from(must_build::<C, i32>(&k.pats, None)?);
  let n = table.num_states();
  let rows: std::collections::BTreeSet<usize> = table.sym_map().values().map(|v| v.1).collect();
  c.label_if(rows.len() >= 2, "classes>=2");
  ensure!(n > 0, "no states");
  ensure_eq!(table.table().len() % n, 0, "table length {} modulo states {n}", table.table().len());
  let classes = table.table().len() / n;
  ensure!(rows.iter().all(|r| *r < classes), "a symbol range refers to row {:?} of {classes}", rows.iter().max());
  ensure_eq!(rows.len(), classes, "rows that have symbols");
  ensure!(table.init_id() < n, "initial state {} of {n}", table.init_id());
  ensure!(!table.tags().is_empty(), "no tagged states");
  for (id, t) in table.tags() {
    ensure!(*id < n, "tagged state {id} of {n}");
    ensure!(k.pats.iter().any(|(_, u)| u == t), "tag {t} was never added");
    ensure_eq!(table.is_final(*id), Some(t), "is_final({id})");
  }
  let mut last: Option<Sym> = None;
  for (r, (l, _)) in table.sym_map() {
    ensure!(l <= r, "inverted range {l:?}..={r:?}");
    ensure!(last.is_none_or(|p| p < l.to()), "range {l:?}..={r:?} overlaps the previous one, which ends at {last:?}");
    last = Some(r.to());
  }
  // lookups
  let mut probe: Vec<Sym> = symbols(&k.dfa, Some(&table));
  let k2: Vec<Sym> = (0..6).map(|_| c.choice(refre::max_sym(C::MODE) as u64) as Sym).filter(|s| C::MODE == Mode::Bytes || char::from_u32(*s).is_some()).collect();
  probe.extend(k2);
  for s in &probe {
    let sym = C::of(*s);
    let row = table.sym_map().iter().find(|(r, (l, _))| *l <= sym && sym <= **r).map(|(_, (_, i))| *i);
    for id in 0..n {
      let want = row.map(|r| table.table()[r * n + id]).filter(|t| *t < n);
      c.checks += 1;
      ensure_eq!(table.next_state(id, &sym), want, "next_state({id}, {sym:?})");
    }
    for id in [n, n + 1, n * 2 + 7, usize::MAX] {
      ensure_eq!(table.next_state(id, &sym), None, "next_state of unknown state {id} on {sym:?}");
      ensure_eq!(table.is_final(id), None, "is_final of unknown state {id}");
    }
  }
  // every row must differ from the others, otherwise symbols that always
  // behave alike are in different classes; and the automaton is minimal
  let all: Vec<&[usize]> = table.table().chunks(n).collect();
  for i in 0..all.len() {
    for j in i + 1..all.len() {
      ensure!(all[i] != all[j], "rows {i} and {j} are equal");
    }
  }
  let syms = symbols(&k.dfa, Some(&table));
  k.dfa.explore(&syms, 100000);
  ensure_eq!(n, k.dfa.minimal_states(&syms), "number of states against the minimum");
  agree(&mut k.dfa, &syms, &table, |t| *t, "table")
}

pub fn c06(c: &mut Ctx) -> R {
  if c.bool() {
    c06_mode::<u8>(c)
  } else {
    c06_mode::<char>(c)
  }
}
