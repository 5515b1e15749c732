//! A small property-based testing engine.
//!
//! Every generated value comes from a *choice sequence* (a list of bounded
//! integers), drawn pseudo-randomly from (VERIF_SEED, sub-property, case
//! index).  A failing case is shrunk by shrinking its choice sequence, and the
//! minimal sequence is the replay file.  Runs are a pure function of the code
//! and the seed: cases are numbered and distributed over threads, and the
//! failure with the smallest index is the one that is reported.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod json;
pub use json::esc;

/// Result of one case: `Err` describes how the property was violated.
pub type R = Result<(), String>;

/// Fails the case with a formatted message.
#[macro_export]
macro_rules! fail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

/// Fails the case unless the condition holds.
#[macro_export]
macro_rules! ensure {
  ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)) } };
}

/// Fails the case unless both values are equal.
#[macro_export]
macro_rules! ensure_eq {
  ($a:expr, $b:expr, $($t:tt)*) => {{
    let (a, b) = (&$a, &$b);
    if a != b {
      return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b));
    }
  }};
}

pub fn mix(mut z: u64) -> u64 {
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
  z ^ (z >> 31)
}

/// FNV-1a, so that hashes do not depend on the standard library's version.
pub struct Fnv(pub u64);
impl Default for Fnv {
  fn default() -> Self {
    Fnv(0xcbf29ce484222325)
  }
}
impl Hasher for Fnv {
  fn finish(&self) -> u64 {
    mix(self.0)
  }
  fn write(&mut self, bytes: &[u8]) {
    for b in bytes {
      self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
    }
  }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
  let mut h = Fnv::default();
  t.hash(&mut h);
  h.finish()
}

/// Source of choices for one case, and the place where it reports about itself.
pub struct Ctx {
  state: u64,
  prefix: Vec<u64>,
  replaying: bool,
  pub choices: Vec<u64>,
  pub recording: bool,
  pub notes: Vec<String>,
  labels: Vec<&'static str>,
  nontrivial: bool,
  key: Option<u64>,
  trace: Option<std::fs::File>,
  /// Number of elementary oracle comparisons made by this case.
  pub checks: u64,
}

impl Ctx {
  pub fn random(seed: u64) -> Self {
    Ctx {
      state: seed,
      prefix: vec![],
      replaying: false,
      choices: vec![],
      recording: false,
      notes: vec![],
      labels: vec![],
      nontrivial: false,
      key: None,
      trace: None,
      checks: 0,
    }
  }
  pub fn replay(prefix: Vec<u64>) -> Self {
    let mut c = Self::random(0);
    c.prefix = prefix;
    c.replaying = true;
    c
  }
  /// A choice in `0..=max`; 0 is the simplest.
  pub fn choice(&mut self, max: u64) -> u64 {
    let v = if self.replaying {
      self.prefix.get(self.choices.len()).copied().unwrap_or(0).min(max)
    } else {
      self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
      let r = mix(self.state);
      if max == u64::MAX {
        r
      } else {
        ((r as u128 * (max as u128 + 1)) >> 64) as u64
      }
    };
    self.choices.push(v);
    if let Some(f) = &mut self.trace {
      use std::io::Write;
      let _ = f.write_all(format!("{v} ").as_bytes());
    }
    v
  }
  /// A number in `0..n`.
  pub fn below(&mut self, n: usize) -> usize {
    debug_assert!(n > 0);
    self.choice(n as u64 - 1) as usize
  }
  /// A number in `lo..=hi`.
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.choice((hi - lo) as u64) as usize
  }
  /// True with probability `num/den`; shrinks to false.
  pub fn prob(&mut self, num: u64, den: u64) -> bool {
    self.choice(den - 1) >= den - num
  }
  pub fn bool(&mut self) -> bool {
    self.choice(1) == 1
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }
  /// Index chosen with the given weights.
  pub fn weighted(&mut self, ws: &[u32]) -> usize {
    let total: u64 = ws.iter().map(|w| *w as u64).sum();
    let mut c = self.choice(total - 1);
    for (i, w) in ws.iter().enumerate() {
      if c < *w as u64 {
        return i;
      }
      c -= *w as u64;
    }
    unreachable!()
  }
  /// Whether to generate one more element of a list with `len` elements and
  /// mean length `avg`.
  pub fn more(&mut self, len: usize, min: usize, max: usize, avg: usize) -> bool {
    if len < min {
      return true;
    }
    if len >= max {
      return false;
    }
    self.prob(avg as u64, avg as u64 + 1)
  }
  pub fn vec<T>(
    &mut self,
    min: usize,
    max: usize,
    avg: usize,
    mut f: impl FnMut(&mut Self) -> T,
  ) -> Vec<T> {
    let mut v = Vec::new();
    while self.more(v.len(), min, max, avg) {
      v.push(f(self));
    }
    v
  }
  /// Describes the case (only evaluated when the description is needed).
  pub fn note(&mut self, f: impl FnOnce() -> String) {
    if self.recording {
      self.notes.push(f());
    }
  }
  pub fn label(&mut self, l: &'static str) {
    if !self.labels.contains(&l) {
      self.labels.push(l);
    }
  }
  pub fn label_if(&mut self, c: bool, l: &'static str) {
    if c {
      self.label(l)
    }
  }
  pub fn nontrivial(&mut self) {
    self.nontrivial = true;
  }
  pub fn nontrivial_if(&mut self, c: bool) {
    self.nontrivial |= c;
  }
  /// Identity of the case, for counting distinct ones.
  pub fn key<T: Hash + ?Sized>(&mut self, t: &T) {
    self.key = Some(mix(self.key.unwrap_or(0) ^ hash_of(t)));
  }
}

/// A sub-property: a generated check that contributes to a listed property.
pub struct Sub {
  pub name: &'static str,
  /// What is generated, and what makes a case non-trivial.
  pub rule: &'static str,
  pub quick: u64,
  pub thorough: u64,
  pub f: fn(&mut Ctx) -> R,
  /// Run on one thread only (global state such as captured stderr).
  pub serial: bool,
}

impl Sub {
  pub const fn new(
    name: &'static str,
    quick: u64,
    thorough: u64,
    f: fn(&mut Ctx) -> R,
    rule: &'static str,
  ) -> Self {
    Sub { name, rule, quick, thorough, f, serial: false }
  }
  pub const fn serial(mut self) -> Self {
    self.serial = true;
    self
  }
}

thread_local! {
  static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
  static CUR: Cell<(u64, u64)> = const { Cell::new((u64::MAX, 0)) };
}

static CRASH_FD: AtomicUsize = AtomicUsize::new(usize::MAX);

/// Signal numbers that stand for a case that does not end or that uses up the
/// memory. Such a case is run again on its own; it is a violation if it then
/// uses `ALONE_CPU_S` seconds of processor time (or waits for as long without
/// using any), or more memory than `MAX_AS`.
const HANG: u64 = 1000;
const OOM: u64 = 1001;
/// Seconds after which a single case is suspected of not ending (cases take
/// milliseconds, the slowest kinds at most a few seconds).
const HANG_S: u64 = 100;
/// Seconds of processor time for a case on its own.
const ALONE_CPU_S: u64 = 60;
/// Bytes of address space after which allocation fails.
const MAX_AS: u64 = 12 << 30;

/// What every runner thread is doing: sub, index, start in ms (0: idle).
static SLOTS: Mutex<Vec<(u64, u64, u64)>> = Mutex::new(Vec::new());

fn now_ms() -> u64 {
  static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
  T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// Declares what the current thread is doing, for the watchdog.
struct Slot(usize);
impl Slot {
  fn new() -> Self {
    let mut s = SLOTS.lock().unwrap();
    s.push((0, 0, 0));
    Slot(s.len() - 1)
  }
  fn set(&self, sub: u64, idx: u64) {
    SLOTS.lock().unwrap()[self.0] = (sub, idx, now_ms());
  }
}
impl Drop for Slot {
  fn drop(&mut self) {
    SLOTS.lock().unwrap()[self.0].2 = 0;
  }
}

fn watch_hangs() {
  std::thread::spawn(|| loop {
    std::thread::sleep(Duration::from_millis(500));
    let now = now_ms();
    let hung = SLOTS.lock().unwrap().iter().copied().find(|s| s.2 != 0 && now > s.2 + HANG_S * 1000);
    if let Some((sub, idx, _)) = hung {
      write_crash([HANG, sub, idx]);
      unsafe { libc::_exit(70) }
    }
  });
}

struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
  unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
    let p = std::alloc::System.alloc(l);
    if p.is_null() {
      on_crash(OOM as i32);
    }
    p
  }
  unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
    std::alloc::System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
    let p = std::alloc::System.realloc(p, l, n);
    if p.is_null() {
      on_crash(OOM as i32);
    }
    p
  }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

fn limit_memory(bytes: u64) {
  unsafe {
    let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    libc::setrlimit(libc::RLIMIT_AS, &l);
  }
}

extern "C" fn on_crash(sig: libc::c_int) {
  // async-signal-safe: format by hand and write
  let (sub, idx) = CUR.try_with(|c| c.get()).unwrap_or((u64::MAX, 0));
  if sub != u64::MAX {
    write_crash([sig as u64, sub, idx]);
  } else if let Ok(slots) = SLOTS.try_lock() {
    // a thread started by the code under test: any of the running cases
    for s in slots.iter().filter(|s| s.2 != 0) {
      write_crash([sig as u64, s.0, s.1]);
    }
  }
  unsafe { libc::_exit(70) }
}

fn write_crash(line: [u64; 3]) {
  let mut buf = [b' '; 64];
  let mut n = 0;
  for v in line {
    let mut d = [0u8; 20];
    let mut k = 0;
    let mut v = v;
    loop {
      d[k] = b'0' + (v % 10) as u8;
      v /= 10;
      k += 1;
      if v == 0 {
        break;
      }
    }
    while k > 0 {
      k -= 1;
      buf[n] = d[k];
      n += 1;
    }
    buf[n] = b' ';
    n += 1;
  }
  buf[n] = b'\n';
  n += 1;
  let fd = CRASH_FD.load(Ordering::Relaxed);
  unsafe {
    if fd != usize::MAX {
      libc::write(fd as i32, buf.as_ptr() as *const _, n);
    }
  }
}

fn install_handlers(crash_file: &Path) {
  use std::os::fd::IntoRawFd;
  let f = std::fs::File::create(crash_file).expect("crash file");
  CRASH_FD.store(f.into_raw_fd() as usize, Ordering::Relaxed);
  unsafe {
    for sig in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
      let mut sa: libc::sigaction = std::mem::zeroed();
      sa.sa_sigaction = on_crash as *const () as usize;
      sa.sa_flags = libc::SA_ONSTACK;
      libc::sigaction(sig, &sa, std::ptr::null_mut());
    }
  }
}

fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "panic".into()
    };
    let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
    let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("panicked: {msg}{loc}")));
  }));
}

/// Runs one case, turning panics into failures.
pub fn run_case(f: fn(&mut Ctx) -> R, ctx: &mut Ctx) -> R {
  match catch_unwind(AssertUnwindSafe(|| f(ctx))) {
    Ok(r) => r,
    Err(_) => Err(
      PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panicked on another thread".into()),
    ),
  }
}

#[derive(Default, Clone)]
pub struct Stats {
  pub evaluations: u64,
  pub nontrivial: u64,
  pub checks: u64,
  pub distinct: HashSet<u64>,
  pub labels: BTreeMap<&'static str, u64>,
  pub samples: Vec<u64>,
}

pub struct Failure {
  pub sub: usize,
  pub index: u64,
  pub message: String,
  pub choices: Vec<u64>,
  pub notes: Vec<String>,
}

fn case_seed(seed: u64, name: &str, idx: u64) -> u64 {
  mix(mix(seed ^ 0x5eed) ^ hash_of(name)).wrapping_add(mix(idx.wrapping_mul(0xd1342543de82ef95) ^ 77))
}

fn run_sub(sub_id: usize, sub: &Sub, n: u64, seed: u64, threads: usize) -> (Stats, Option<(u64, String, Vec<u64>)>) {
  let next = AtomicU64::new(0);
  let min_fail = AtomicU64::new(u64::MAX);
  let fails: Mutex<Vec<(u64, String, Vec<u64>)>> = Mutex::new(vec![]);
  let total: Mutex<Stats> = Mutex::new(Stats::default());
  let threads = if sub.serial { 1 } else { threads };
  std::thread::scope(|s| {
    for _ in 0..threads {
      std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn_scoped(s, || {
          let mut st = Stats::default();
          let slot = Slot::new();
          loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= n || i > min_fail.load(Ordering::Relaxed) {
              break;
            }
            CUR.with(|c| c.set((sub_id as u64, i)));
            slot.set(sub_id as u64, i);
            let mut ctx = Ctx::random(case_seed(seed, sub.name, i));
            let r = run_case(sub.f, &mut ctx);
            st.evaluations += 1;
            st.checks += ctx.checks;
            for l in &ctx.labels {
              *st.labels.entry(l).or_default() += 1;
            }
            if ctx.nontrivial {
              st.nontrivial += 1;
              st.distinct.insert(ctx.key.unwrap_or_else(|| hash_of(&ctx.choices)));
              if st.samples.len() < 4 {
                st.samples.push(i);
              }
            }
            if let Err(m) = r {
              min_fail.fetch_min(i, Ordering::Relaxed);
              fails.lock().unwrap().push((i, m, ctx.choices));
            }
          }
          CUR.with(|c| c.set((u64::MAX, 0)));
          let mut t = total.lock().unwrap();
          t.evaluations += st.evaluations;
          t.nontrivial += st.nontrivial;
          t.checks += st.checks;
          t.distinct.extend(st.distinct);
          for (l, c) in st.labels {
            *t.labels.entry(l).or_default() += c;
          }
          t.samples.extend(st.samples);
        })
        .unwrap();
    }
  });
  let mut st = total.into_inner().unwrap();
  st.samples.sort_unstable();
  let fail = fails.into_inner().unwrap().into_iter().min_by_key(|f| f.0);
  (st, fail)
}

/// Shrinks a failing choice sequence.
pub fn shrink(mut best: Vec<u64>, mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>, budget: Duration) -> Vec<u64> {
  // `test` returns the choices actually used if the case still fails
  let t0 = Instant::now();
  let mut tried: HashSet<u64> = HashSet::new();
  let mut attempt = |best: &mut Vec<u64>, cand: Vec<u64>| -> bool {
    if t0.elapsed() > budget || cand.len() > best.len() || cand == *best {
      return false;
    }
    if !tried.insert(hash_of(&cand)) {
      return false;
    }
    match test(&cand) {
      Some(used) if (used.len(), &used) < (best.len(), &*best) => {
        *best = used;
        true
      }
      _ => false,
    }
  };
  loop {
    let before = best.clone();
    // delete chunks
    for size in [64usize, 32, 16, 8, 5, 4, 3, 2, 1] {
      let mut i = best.len();
      while i > 0 {
        i = i.min(best.len());
        if i < size {
          break;
        }
        let mut c = best.clone();
        c.drain(i - size..i);
        if !attempt(&mut best, c) {
          // also try with the preceding choice decremented (list lengths)
          let mut done = false;
          if i > size && best[i - size - 1] > 0 {
            let mut c = best.clone();
            c[i - size - 1] -= 1;
            c.drain(i - size..i);
            done = attempt(&mut best, c);
          }
          if !done {
            i -= 1;
          }
        }
      }
    }
    // zero chunks
    for size in [16usize, 8, 4, 2] {
      let mut i = 0;
      while i + size <= best.len() {
        if best[i..i + size].iter().any(|v| *v != 0) {
          let mut c = best.clone();
          c[i..i + size].iter_mut().for_each(|v| *v = 0);
          attempt(&mut best, c);
        }
        i += size;
      }
    }
    // lower single values
    let mut i = 0;
    while i < best.len() {
      if best[i] != 0 {
        let mut c = best.clone();
        c[i] = 0;
        if !attempt(&mut best, c) && i < best.len() {
          let (mut lo, mut hi) = (0u64, best[i]);
          while lo + 1 < hi {
            let mid = lo + (hi - lo) / 2;
            let mut c = best.clone();
            if i >= c.len() {
              break;
            }
            c[i] = mid;
            if attempt(&mut best, c) {
              hi = mid;
            } else {
              lo = mid;
            }
          }
          if i < best.len() && best[i] > 0 {
            let mut c = best.clone();
            c[i] -= 1;
            attempt(&mut best, c);
          }
        }
      }
      i += 1;
    }
    if best == before || t0.elapsed() > budget {
      return best;
    }
  }
}

/// Re-runs a choice sequence with recording on.
fn record(sub: &Sub, choices: &[u64]) -> (R, Ctx) {
  let mut ctx = Ctx::replay(choices.to_vec());
  ctx.recording = true;
  let r = run_case(sub.f, &mut ctx);
  (r, ctx)
}

pub struct Prop {
  pub id: &'static str,
  pub subs: Vec<Sub>,
}

struct Args {
  cmd: String,
  pos: Vec<String>,
  opts: BTreeMap<String, String>,
}

fn parse_args() -> Args {
  let mut it = std::env::args().skip(1);
  let cmd = it.next().unwrap_or_default();
  let mut pos = vec![];
  let mut opts = BTreeMap::new();
  while let Some(a) = it.next() {
    if let Some(k) = a.strip_prefix("--") {
      opts.insert(k.to_string(), it.next().unwrap_or_default());
    } else {
      pos.push(a);
    }
  }
  Args { cmd, pos, opts }
}

/// Entry point of a harness binary.
///
/// * `run ID --seed N --tier T --report FILE`: supervises a worker process;
///   exit 0 if a report was written (violations are in the report), other
///   codes are errors of the check.
/// * `replay FILE`: runs one stored case; exit 1 if it fails.
pub fn main(props: Vec<Prop>) -> ! {
  let args = parse_args();
  let code = match args.cmd.as_str() {
    "run" => supervise(&props, &args),
    "worker" => worker(&props, &args),
    "trace" => trace(&props, &args),
    "case" => single(&props, &args),
    "replay" => replay(&props, &args),
    _ => {
      println!("usage: run|replay");
      2
    }
  };
  use std::io::Write;
  let _ = std::io::stdout().flush();
  std::process::exit(code)
}

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
  props.iter().find(|p| p.id == id).unwrap_or_else(|| {
    println!("unknown property {id}");
    std::process::exit(2)
  })
}

fn threads() -> usize {
  std::env::var("VERIF_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8)
}

fn opt_u64(args: &Args, k: &str, d: u64) -> u64 {
  args.opts.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn cases(sub: &Sub, args: &Args) -> u64 {
  let tier = args.opts.get("tier").map(|s| s.as_str()).unwrap_or("quick");
  let n = if tier == "thorough" { sub.thorough } else { sub.quick };
  match args.opts.get("cases").and_then(|v| v.parse::<u64>().ok()) {
    Some(c) => c,
    None => n,
  }
}

fn worker(props: &[Prop], args: &Args) -> i32 {
  let prop = find(props, &args.pos[0]);
  let seed = opt_u64(args, "seed", 1);
  let report = PathBuf::from(&args.opts["report"]);
  install_panic_hook();
  install_handlers(Path::new(&args.opts["crash"]));
  limit_memory(MAX_AS);
  watch_hangs();
  let t0 = Instant::now();
  let limit = opt_u64(args, "limit", 840);
  std::thread::spawn(move || loop {
    std::thread::sleep(Duration::from_millis(500));
    if t0.elapsed().as_secs() > limit {
      println!("ERROR: wall-clock limit of {limit} s exceeded; no verdict");
      unsafe { libc::_exit(3) }
    }
  });
  let only = args.opts.get("sub");
  let mut out = String::from("{\"subs\":[");
  let mut first = true;
  let mut failure: Option<Failure> = None;
  for (k, sub) in prop.subs.iter().enumerate() {
    if only.is_some_and(|o| o != sub.name) {
      continue;
    }
    let n = cases(sub, args);
    let ts = Instant::now();
    let (st, fail) = run_sub(k, sub, n, seed, threads());
    let mut samples = vec![];
    for i in st.samples.iter().take(3) {
      let mut ctx = Ctx::random(case_seed(seed, sub.name, *i));
      ctx.recording = true;
      CUR.with(|c| c.set((k as u64, *i)));
      let _ = run_case(sub.f, &mut ctx);
      let mut s = ctx.notes.join("; ");
      if s.len() > 1500 {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
          e -= 1;
        }
        s.truncate(e);
        s.push('…');
      }
      samples.push(s);
    }
    if !first {
      out.push(',');
    }
    first = false;
    let labels: Vec<String> = st.labels.iter().map(|(l, c)| format!("{}:{}", esc(l), c)).collect();
    let _ = write!(
      out,
      "{{\"name\":{},\"rule\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"checks\":{},\"labels\":{{{}}},\"samples\":[{}],\"wall_s\":{:.2}}}",
      esc(sub.name),
      esc(sub.rule),
      st.evaluations,
      st.nontrivial,
      st.distinct.len(),
      st.checks,
      labels.join(","),
      samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
      ts.elapsed().as_secs_f64()
    );
    if let Some((index, message, choices)) = fail {
      if failure.is_none() {
        CUR.with(|c| c.set((k as u64, index)));
        let f = Failure { sub: k, index, message: message.clone(), choices: choices.clone(), notes: vec![] };
        write_failure(prop, &f, &report.with_extension("first"));
        let slot = Slot::new();
        let best = shrink(
          choices,
          |cand| {
            slot.set(k as u64, index);
            let mut ctx = Ctx::replay(cand.to_vec());
            run_case(sub.f, &mut ctx).err().map(|_| ctx.choices)
          },
          Duration::from_secs(15),
        );
        let (r, ctx) = record(sub, &best);
        drop(slot);
        failure = Some(Failure {
          sub: k,
          index,
          message: r.err().unwrap_or(message + " (not reproduced when the case ran again)"),
          choices: best,
          notes: ctx.notes,
        });
      }
    }
  }
  out.push_str("],\"failure\":");
  match &failure {
    None => out.push_str("null"),
    Some(f) => out.push_str(&failure_json(prop, f)),
  }
  let _ = write!(out, ",\"wall_s\":{:.2}}}", t0.elapsed().as_secs_f64());
  std::fs::write(&report, out).expect("report");
  0
}

/// Writes a report that has a failure only.
fn write_failure(prop: &Prop, f: &Failure, path: &Path) {
  let text = format!("{{\"subs\":[],\"failure\":{},\"wall_s\":0.0}}", failure_json(prop, f));
  std::fs::write(path, text).expect("report");
}

fn failure_json(prop: &Prop, f: &Failure) -> String {
  format!(
    "{{\"property\":{},\"sub\":{},\"index\":{},\"message\":{},\"case\":[{}],\"choices\":[{}]}}",
    esc(prop.id),
    esc(prop.subs[f.sub].name),
    f.index,
    esc(&f.message),
    f.notes.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
    f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
  )
}

/// Runs the choices given in a file; exit 0 passed, 1 failed, 70 crashed.
fn single(props: &[Prop], args: &Args) -> i32 {
  limit_memory(opt_u64(args, "memory", MAX_AS));
  let prop = find(props, &args.pos[0]);
  let sub = &prop.subs[args.pos[1].parse::<usize>().unwrap()];
  let choices: Vec<u64> = std::fs::read_to_string(&args.pos[2])
    .unwrap()
    .split_whitespace()
    .map(|v| v.parse().unwrap())
    .collect();
  install_panic_hook();
  install_handlers(Path::new(&args.opts["crash"]));
  let (sub_f, used_file) = (sub.f, args.pos[2].clone());
  let mut ctx = Ctx::replay(choices);
  ctx.recording = true;
  // run with a big stack, as the runner does
  let r = std::thread::scope(|s| {
    std::thread::Builder::new()
      .stack_size(64 << 20)
      .spawn_scoped(s, || {
        CUR.with(|c| c.set((0, 0)));
        run_case(sub_f, &mut ctx)
      })
      .unwrap()
      .join()
      .unwrap()
  });
  let used: Vec<String> = ctx.choices.iter().map(|c| c.to_string()).collect();
  let _ = std::fs::write(used_file + ".used", used.join(" "));
  match r {
    Ok(()) => 0,
    Err(m) => {
      println!("{m}");
      for n in ctx.notes {
        println!("  {n}");
      }
      1
    }
  }
}

/// Runs one case from its seed, logging every choice before it is used.
fn trace(props: &[Prop], args: &Args) -> i32 {
  limit_memory(opt_u64(args, "memory", MAX_AS));
  let prop = find(props, &args.pos[0]);
  let sub = &prop.subs[args.pos[1].parse::<usize>().unwrap()];
  let idx: u64 = args.pos[2].parse().unwrap();
  let seed: u64 = args.pos[3].parse().unwrap();
  install_panic_hook();
  install_handlers(Path::new(&args.opts["crash"]));
  let mut ctx = Ctx::random(case_seed(seed, sub.name, idx));
  ctx.trace = Some(std::fs::File::create(&args.pos[4]).expect("log"));
  let f = sub.f;
  let r = std::thread::scope(|s| {
    let b = std::thread::Builder::new().stack_size(64 << 20);
    let f = || {
      CUR.with(|c| c.set((0, 0)));
      run_case(f, &mut ctx)
    };
    b.spawn_scoped(s, f).unwrap().join().unwrap()
  });
  r.is_err() as i32
}

fn supervise(props: &[Prop], args: &Args) -> i32 {
  let prop = find(props, &args.pos[0]);
  let report = PathBuf::from(&args.opts["report"]);
  let crash = report.with_extension("crash");
  let _ = std::fs::remove_file(&report);
  let exe = std::env::current_exe().unwrap();
  let mut cmd = std::process::Command::new(&exe);
  cmd.arg("worker").arg(&args.pos[0]);
  for (k, v) in &args.opts {
    cmd.arg(format!("--{k}")).arg(v);
  }
  cmd.arg("--crash").arg(&crash);
  let first = report.with_extension("first");
  let _ = std::fs::remove_file(&first);
  let status = cmd.status().expect("worker");
  if status.success() && report.exists() {
    let _ = std::fs::remove_file(&crash);
    let _ = std::fs::remove_file(&first);
    return 0;
  }
  // ended in any other way after a failure was found
  if first.exists() {
    println!("NOTE: the worker ended with {status} while it shrank a failing case");
    std::fs::rename(&first, &report).expect("report");
    return 0;
  }
  if status.code() != Some(70) {
    println!("ERROR: worker ended with {status}");
    return 4;
  }
  // the process crashed (abort, stack overflow, ...) or went on for too long,
  // in a known case or, for threads of the code under test, in one of several
  let text = std::fs::read_to_string(&crash).unwrap_or_default();
  let suspects: Vec<Vec<u64>> =
    text.lines().map(|l| l.split_whitespace().filter_map(|x| x.parse().ok()).collect()).collect();
  let seed = opt_u64(args, "seed", 1);
  for s in &suspects {
    let (sig, k, idx) = match s[..] {
      [s, k, i] if (k as usize) < prop.subs.len() => (s, k as usize, i),
      _ => continue,
    };
    let Some((message, choices)) = confirm(prop, k, idx, seed, sig, suspects.len() == 1, &report) else {
      continue;
    };
    let f = Failure { sub: k, index: idx, message, choices, notes: vec![] };
    write_failure(prop, &f, &report);
    let _ = std::fs::remove_file(&crash);
    return 0;
  }
  println!("ERROR: the worker ended with {status}, which no case explains on its own ({}); no verdict", text.trim());
  4
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
  /// It passed or failed.
  Normal,
  Crash,
  /// It used more memory than allowed.
  Memory,
  /// It used more processor time than allowed, or none at all.
  Time,
  /// It could not be found out.
  Unknown,
}

/// Processor time used by a child in clock ticks.
fn cpu_ticks(pid: u32) -> u64 {
  let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
  let s = s.rsplit(')').next().unwrap_or("");
  let f: Vec<&str> = s.split_whitespace().collect();
  let n = |i: usize| f.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
  n(11) + n(12)
}

/// Runs one command of this program on its own, with limits.
fn alone(cmd: &mut std::process::Command, crash: &Path, cpu_s: u64) -> End {
  use std::os::unix::process::{CommandExt, ExitStatusExt};
  let _ = std::fs::remove_file(crash);
  unsafe {
    cmd.pre_exec(move || {
      let l = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 5 };
      libc::setrlimit(libc::RLIMIT_CPU, &l);
      Ok(())
    });
  }
  let mut child = cmd.stdout(std::process::Stdio::null()).spawn().expect("case");
  let t0 = Instant::now();
  let (mut ticks, mut since) = (u64::MAX, Instant::now());
  let status = loop {
    match child.try_wait() {
      Ok(None) => {}
      Ok(Some(s)) => break s,
      Err(_) => return End::Unknown,
    }
    // stands still
    let now = cpu_ticks(child.id());
    if now != ticks {
      (ticks, since) = (now, Instant::now());
    }
    let still = since.elapsed().as_secs() > cpu_s;
    if still || t0.elapsed().as_secs() > 4 * cpu_s {
      let _ = child.kill();
      let _ = child.wait();
      return if still { End::Time } else { End::Unknown };
    }
    std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 100 { 1 } else { 20 }));
  };
  match (status.code(), status.signal()) {
    (_, Some(libc::SIGXCPU)) => End::Time,
    (Some(70), _) => {
      let text = std::fs::read_to_string(crash).unwrap_or_default();
      if text.starts_with(&OOM.to_string()) { End::Memory } else { End::Crash }
    }
    (Some(_), _) => End::Normal,
    (None, _) => End::Unknown,
  }
}

/// Runs a suspected case on its own. If it ends abnormally again, gives the
/// shrunk choices and what happens.
fn confirm(prop: &Prop, k: usize, idx: u64, seed: u64, sig: u64, sure: bool, report: &Path) -> Option<(String, Vec<u64>)> {
  let exe = std::env::current_exe().unwrap();
  let (raw, log, crash) = (report.with_extension("choices"), report.with_extension("log"), report.with_extension("alone"));
  let run = |cand: &[u64], cpu_s: u64, memory: u64| -> End {
    let s: Vec<String> = cand.iter().map(|c| c.to_string()).collect();
    std::fs::write(&raw, s.join(" ")).unwrap();
    let mut c = std::process::Command::new(&exe);
    c.args(["case", prop.id, &k.to_string()]).arg(&raw).arg("--crash").arg(&crash).arg("--memory").arg(memory.to_string());
    alone(&mut c, &crash, cpu_s)
  };
  // run the case alone, logging its choices as they are drawn
  let mut c = std::process::Command::new(&exe);
  c.args(["trace", prop.id, &k.to_string(), &idx.to_string(), &seed.to_string()]).arg(&log).arg("--crash").arg(&crash);
  let end = alone(&mut c, &crash, ALONE_CPU_S);
  let mut choices: Vec<u64> = std::fs::read_to_string(&log)
    .unwrap_or_default()
    .split_whitespace()
    .filter_map(|x| x.parse().ok())
    .take(50000)
    .collect();
  let message = match end {
    End::Crash if sig == HANG || sig == OOM => "the process was terminated (abort, memory fault or stack overflow) in this case".into(),
    End::Crash => format!("the process was terminated by signal {sig} (abort, memory fault or stack overflow) in this case"),
    End::Memory => format!("the case uses more than {} GB of memory", MAX_AS >> 30),
    End::Time => format!("the case does not end: it was stopped after {ALONE_CPU_S} s on its own, where cases take milliseconds"),
    End::Normal | End::Unknown if sure && sig != HANG && sig != OOM => {
      format!("the process was terminated by signal {sig} (abort, memory fault or stack overflow) in this case (not reproduced in isolation)")
    }
    _ => return None,
  };
  if end != End::Normal && end != End::Unknown {
    // smaller limits while shrinking; the result must pass the full ones
    let (cpu_s, memory) = if end == End::Memory { (30, 3 << 30) } else { (3, MAX_AS) };
    let small = shrink(
      choices.clone(),
      |c| (run(c, cpu_s, memory) == end).then(|| c.to_vec()),
      Duration::from_secs(if end == End::Crash { 20 } else { 60 }),
    );
    if end == End::Crash || run(&small, ALONE_CPU_S, MAX_AS) == end {
      choices = small;
    }
  }
  for f in [&crash, &raw, &log, &raw.with_extension("choices.used")] {
    let _ = std::fs::remove_file(f);
  }
  Some((message, choices))
}

fn replay(props: &[Prop], args: &Args) -> i32 {
  let text = std::fs::read_to_string(&args.pos[0]).expect("replay file");
  let field = |k: &str| -> String {
    let p = text.find(&format!("\"{k}\"")).expect("field");
    let s = &text[p + k.len() + 2..];
    let s = &s[s.find('"').unwrap() + 1..];
    s[..s.find('"').unwrap()].to_string()
  };
  let id = field("property");
  let name = field("sub");
  let p = text.find("\"choices\"").expect("choices");
  let s = &text[p..];
  let s = &s[s.find('[').unwrap() + 1..s.find(']').unwrap()];
  let choices: Vec<u64> = s.split(',').filter_map(|v| v.trim().parse().ok()).collect();
  let prop = find(props, &id);
  let sub = prop.subs.iter().find(|s| s.name == name).expect("sub-property");
  install_panic_hook();
  std::thread::spawn(|| {
    std::thread::sleep(Duration::from_secs(2 * ALONE_CPU_S));
    println!("replay: violated: the case does not end");
    unsafe { libc::_exit(1) }
  });
  limit_memory(MAX_AS);
  let (r, ctx) = std::thread::scope(|s| {
    std::thread::Builder::new()
      .stack_size(64 << 20)
      .spawn_scoped(s, || record(sub, &choices))
      .unwrap()
      .join()
      .unwrap()
  });
  for n in &ctx.notes {
    println!("case: {n}");
  }
  match r {
    Ok(()) => {
      println!("replay: property {id} ({name}) held");
      0
    }
    Err(m) => {
      println!("replay: property {id} ({name}) violated: {m}");
      1
    }
  }
}
