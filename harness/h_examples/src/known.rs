//! Listed defects of the example programs.  A case on which an example does
//! not behave as it should is a known finding only if the example behaves
//! exactly as the reference does with listed defects built into it.

use pbt::{Ctx, R};

/// Label of the cases that show a defect.
pub type Defect = &'static str;

/// Operators of one precedence level are taken from right to left.
pub const RIGHT: Defect = "known: right-to-left operators";
/// Hexadecimal letters in `\u` escapes of JSON are taken as other escapes.
pub const HEX: Defect = "known: hexadecimal letters in escapes";
/// The scope of a block left by break, continue or return stays.
pub const SCOPE: Defect = "known: scopes left early";
/// Break and continue leave the function called, or the program panics.
pub const OUTSIDE: Defect = "known: break outside of a loop";

thread_local! {
  static LISTED: Vec<String> = {
    let home = std::env::var("VERIF_HOME").unwrap_or_else(|_| "/verif".into());
    let text = std::fs::read_to_string(format!("{home}/KNOWN_FINDINGS.txt")).unwrap_or_default();
    text.lines().filter_map(|l| l.strip_prefix("finding: property=C28 label=/")?.split_once('/').map(|x| x.0.to_string())).collect()
  };
}

/// What a reference makes of a case.
pub enum Verdict {
  Is(R),
  /// What happens with these defects is not specified (e.g. an overflow).
  Unknown,
}

/// Decides a case: `f` compares with the reference with some defects.
pub fn judge(c: &mut Ctx, possible: &[Defect], f: impl Fn(&[Defect]) -> Verdict) -> R {
  let Verdict::Is(first) = f(&[]) else { return Ok(()) };
  if first.is_ok() {
    return first;
  }
  let listed: Vec<Defect> = LISTED.with(|l| possible.iter().filter(|d| l.iter().any(|x| d.strip_prefix("known: ") == Some(x))).copied().collect());
  // small sets first
  let mut sets: Vec<u32> = (1..1 << listed.len()).collect();
  sets.sort_by_key(|s: &u32| s.count_ones());
  for s in sets {
    let set: Vec<Defect> = (0..listed.len()).filter(|i| s >> i & 1 == 1).map(|i| listed[i]).collect();
    match f(&set) {
      Verdict::Is(Ok(())) => set.iter().for_each(|d| c.label(d)),
      Verdict::Unknown => c.label("unspecified because of known defects"),
      Verdict::Is(Err(_)) => continue,
    }
    return Ok(());
  }
  first
}
