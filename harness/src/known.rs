//! Known findings: defects which are recorded and not repaired. The file lists them by the failing input; a listed one
//! which still fails is reported as such, one which does not fail any more is not mentioned.

use crate::model::*;
use crate::props::nbuild::*;
use crate::run::Known;
use nrbf::RemotingMessage;

/// What the message of a finding denotes.
fn denotes(id: &str) -> Option<MM> {
  let nothing = || MV::Arr(vec![]);
  Some(match id {
    "K2" => MM::Value(MV::Arr(vec![MV::Arr(vec![nothing()]), nothing()])),
    "K3" => MM::Value(MV::Arr(vec![nothing(), nothing()])),
    "K4" => MM::Return { ret: Some(MV::I32(7)), ctx: None, args: None },
    "K5" => MM::Value(MV::Arr(vec![nothing(), nothing()])),
    _ => return None,
  })
}

/// The messages as they are listed in the file; used to write it.
pub fn messages() -> Vec<(&'static str, Vec<u8>)> {
  vec![
    (
      "K2",
      message(1, &cat(&[&objarr(1, 2), &mref(2), &mref(3), &objarr(2, 1), &mref(4), &objarr(3, 0), &objarr(4, 0)])),
    ),
    ("K3", message(1, &cat(&[&objarr(1, 2), &mref(2), &mref(2), &objarr(2, 0)]))),
    // a method return whose return value is the only item of its call array
    ("K4", message(0, &cat(&[&[22], &int(0x1011), &objarr(1, 1), &typed(P::I32, &MV::I32(7))]))),
    ("K5", message(1, &binarr(1, 2, &[2, 0], &[], 0, &[8]))),
  ]
}

/// Classes nested in each other as inline members.
pub fn deep(n: usize) -> Vec<u8> {
  let mut b = vec![];
  for i in 0..n {
    b.extend(cls(i as i32 + 1, "N", &["n"], None));
  }
  b.push(10);
  message(1, &b)
}

fn field<'a>(line: &'a str, name: &str) -> Option<&'a str> {
  line.split_whitespace().find_map(|w| w.strip_prefix(name)?.strip_prefix('='))
}

/// The finding still fails.
fn fails(id: &str, line: &str) -> Option<bool> {
  use std::os::unix::process::ExitStatusExt;
  if id == "K1" {
    let n = field(line, "nested")?;
    let s = std::process::Command::new(std::env::current_exe().ok()?)
      .args(["deep", n])
      .env_remove("NRBF_SLOTS")
      .stderr(std::process::Stdio::null())
      .status()
      .ok()?;
    return Some(s.signal().is_some());
  }
  let bytes = unhex(field(line, "message")?);
  Some(match RemotingMessage::parse(&bytes) {
    Ok(m) => cmp_message(&m, &denotes(id)?).is_err(),
    Err(_) => true,
  })
}

pub fn run(check: &str, file: &str) -> Known {
  let mut k = Known { lines: vec![], violations: vec![], tried: 0 };
  let Ok(text) = std::fs::read_to_string(file) else { return k };
  for l in text.lines().filter(|l| l.starts_with("known: ")) {
    if field(l, "property") != Some(check) {
      continue;
    }
    let Some(id) = field(l, "id") else { continue };
    k.tried += 1;
    if fails(id, l) == Some(true) {
      k.lines.push(l["known: ".len()..].replacen(&format!("property={check} "), "", 1));
    }
  }
  k
}
