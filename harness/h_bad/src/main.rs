//! C29: definitions that break the rules of a macro are rejected when they
//! are compiled, with an error, and valid ones next to them are not.

mod defs;
#[path = "../../h_gen/src/text.rs"]
#[allow(dead_code)]
mod text;

use defs::{Broken, Src};
use pbt::{ensure, fail, Ctx, Prop, Sub, R};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

struct Diag {
  message: String,
  /// Line and column in the definition.
  at: Option<(usize, usize)>,
}

/// Compiles a definition against the library; the errors if it is rejected.
fn compile(text: &str) -> Result<Option<Vec<Diag>>, String> {
  static N: AtomicU64 = AtomicU64::new(0);
  let out = std::env::var("VERIF_OUT").unwrap_or_else(|_| "/tmp".into());
  let dir = format!("{out}/scratch.bad.{}", std::process::id());
  std::fs::create_dir_all(&dir).expect("scratch directory");
  let n = N.fetch_add(1, Ordering::Relaxed);
  let (src, meta) = (format!("{dir}/d{n}.rs"), format!("{dir}/d{n}.rmeta"));
  std::fs::write(&src, text).expect("write a definition");
  let r = Command::new("rustc")
    .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "d", "--emit=metadata", "--cap-lints", "allow", "--error-format=short"])
    .arg("-o")
    .arg(&meta)
    .arg("--extern")
    .arg(format!("laps={}", std::env::var("LAPS_RLIB").expect("LAPS_RLIB")))
    .arg("-L")
    .arg(format!("dependency={}", std::env::var("LAPS_DEPS").expect("LAPS_DEPS")))
    .arg(&src)
    .env_remove("RUST_BACKTRACE")
    .stdin(Stdio::null())
    .output();
  let _ = std::fs::remove_file(&src);
  let _ = std::fs::remove_file(&meta);
  let r = r.map_err(|e| format!("cannot run rustc: {e}"))?;
  if r.status.success() {
    return Ok(None);
  }
  let text = String::from_utf8_lossy(&r.stderr);
  let mut v = vec![];
  for l in text.lines() {
    // FILE:LINE:COLUMN: error: MESSAGE, or error: MESSAGE
    let (place, m) = match l.strip_prefix(&format!("{src}:")) {
      Some(rest) => {
        let mut it = rest.splitn(3, ':');
        let at = it.next().and_then(|x| x.parse().ok()).zip(it.next().and_then(|x| x.parse().ok()));
        (at, it.next().unwrap_or("").trim_start())
      }
      None => (None, l),
    };
    if m.starts_with("error") && !m.starts_with("error: aborting due to") {
      v.push(Diag { message: m.to_string(), at: place });
    } else if let Some(d) = v.last_mut() {
      // messages may have several lines
      d.message.push('\n');
      d.message.push_str(l);
    }
  }
  if v.is_empty() {
    return Err(format!("rustc ended with {} without an error: {}", r.status, text.chars().take(1000).collect::<String>()));
  }
  Ok(Some(v))
}

fn show(v: &[Diag]) -> String {
  v.iter().map(|d| format!("{:?}: {}", d.at, d.message)).collect::<Vec<_>>().join("\n")
}

fn valid(what: &str, s: &Src) -> R {
  if let Some(v) = compile(&s.text)? {
    if v.iter().any(|d| d.message.contains("panicked")) {
      fail!("{what} makes the macro panic: {}", show(&v));
    }
    fail!("{what} is rejected: {}", show(&v));
  }
  Ok(())
}

fn broken(c: &mut Ctx, b: &Broken) -> R {
  c.note(|| format!("{}:\n{}", b.what, b.src.text));
  c.key(&b.src.text);
  c.label(b.what);
  let Some(v) = compile(&b.src.text)? else {
    fail!("{} is accepted", b.what);
  };
  for d in &v {
    if d.message.contains("panicked") || d.message.contains("internal compiler error") {
      fail!("{} makes the macro panic: {}", b.what, show(&v));
    }
  }
  ensure!(v.iter().any(|d| d.at.is_some()), "{}: no error points at the definition: {}", b.what, show(&v));
  if !b.says.is_empty() {
    let told = v.iter().any(|d| {
      let m = d.message.to_lowercase();
      b.says.iter().any(|s| m.contains(s))
    });
    ensure!(told, "{}: no error mentions {:?}: {}", b.what, b.says, show(&v));
  }
  if let Some((from, to)) = b.src.mark {
    let before = &b.src.text[..from];
    let (line, col) = (before.matches('\n').count() + 1, before.chars().rev().take_while(|c| *c != '\n').count() + 1);
    let width = b.src.text[from..to].chars().count();
    let hit = v.iter().any(|d| d.at.is_some_and(|(l, c)| l == line && (col..col + width).contains(&c)));
    ensure!(hit, "{}: no error points into {:?}: {}", b.what, &b.src.text[from..to], show(&v));
  }
  Ok(())
}

fn c29(c: &mut Ctx) -> R {
  let k = c.weighted(&[10, 3, 4, 2, 5]);
  let (ok, b) = match k {
    0 => defs::tokenize(c),
    1 => defs::parse(c),
    2 => defs::spanned(c),
    3 => defs::token_kind(c),
    _ => defs::token_ast(c),
  };
  c.nontrivial();
  if c.prob(1, 4) {
    c.note(|| format!("the valid definition:\n{}", ok.text));
    valid("a valid definition", &ok)?;
  }
  broken(c, &b)
}

/// Rules that match only the empty string are odd, but nothing forbids them.
fn c29_empty(c: &mut Ctx) -> R {
  let s = defs::only_empty(c);
  c.note(|| s.text.clone());
  c.key(&s.text);
  c.nontrivial();
  valid("a definition whose rules match only the empty string", &s)
}

fn main() {
  pbt::main(vec![Prop {
    id: "C29",
    subs: vec![
      Sub::new("broken-definitions", 1600, 40000, c29, "random valid definitions for every macro, each broken in one way that the documentation or the macro itself forbids, compiled against the library: rejected, with an error (not a panic of the macro) that points into the definition, names what is wrong, and for patterns that do not parse points at their literal; a quarter of the valid definitions are compiled as well; non-trivial: all, told apart by text"),
      Sub::new("empty-rules", 60, 2000, c29_empty, "token-kind enums whose rules match only the empty string compile; non-trivial: all"),
    ],
  }])
}
