//! Running the repository's example programs.

use pbt::{ensure, fail, R};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Ran {
  pub code: Option<i32>,
  pub out: String,
  pub err: String,
}

/// How long an example may take for an input that it handles in milliseconds.
const LIMIT: Duration = Duration::from_secs(60);

pub fn run(name: &str, args: &[&str], input: &str) -> Result<Ran, String> {
  let exe = std::env::current_exe().expect("path of this program").with_file_name(format!("ex_{name}"));
  let mut p = Command::new(&exe)
    .args(args)
    .env_remove("RUST_BACKTRACE")
    .env("NO_COLOR", "1")
    .stdin(Stdio::piped())
    .stdout(Stdio::piped())
    .stderr(Stdio::piped())
    .spawn()
    .unwrap_or_else(|e| panic!("cannot run {}: {e}", exe.display()));
  // inputs are smaller than a pipe's buffer
  assert!(input.len() < 60000);
  let _ = p.stdin.take().unwrap().write_all(input.as_bytes());
  let (mut o, mut e) = (p.stdout.take().unwrap(), p.stderr.take().unwrap());
  let errs = std::thread::spawn(move || {
    let mut v = vec![];
    let _ = e.read_to_end(&mut v);
    v
  });
  let outs = std::thread::spawn(move || {
    let mut v = vec![];
    let _ = o.read_to_end(&mut v);
    v
  });
  let t0 = Instant::now();
  let mut pause = 100;
  let status = loop {
    if let Some(s) = p.try_wait().expect("wait") {
      break s;
    }
    if t0.elapsed() > LIMIT {
      let _ = p.kill();
      let _ = p.wait();
      return Err(format!("the {name} example did not end within {} s", LIMIT.as_secs()));
    }
    std::thread::sleep(Duration::from_micros(pause));
    pause = (pause * 2).min(20000);
  };
  let out = String::from_utf8_lossy(&outs.join().unwrap()).into_owned();
  let err = String::from_utf8_lossy(&errs.join().unwrap()).into_owned();
  if let Some(s) = status.signal() {
    return Err(format!("the {name} example was ended by signal {s}: {err}"));
  }
  if status.code() == Some(101) && err.contains("panicked at") {
    return Err(format!("the {name} example panicked: {err}"));
  }
  Ok(Ran { code: status.code(), out, err })
}

/// The input must be rejected with an error.
pub fn rejected(r: &Ran, what: &str) -> R {
  if r.code == Some(0) {
    fail!("{what} was accepted, with output {:?}", r.out);
  }
  ensure!(!r.err.is_empty(), "{what} was rejected without a message, exit code {:?}", r.code);
  Ok(())
}
