//! A dictionary for the generators: the literals in the sources of the crate under test, as fuzzers take theirs from
//! the program. Literals which the sources did not have when the harness was written are preferred. The dictionary only
//! changes which messages are tried; what they have to give is decided by the oracles alone.

use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
  pub ints: Vec<u64>,
  pub texts: Vec<String>,
  pub new_ints: Vec<u64>,
  pub new_texts: Vec<String>,
}

/// The literals of the sources when the harness was written: `i NUMBER` and `s HEX`.
const BASE: &str = include_str!("../base-literals.txt");

type Literals = (BTreeSet<u64>, BTreeSet<String>);

fn number(w: &str) -> Option<u64> {
  let w: String = w.chars().filter(|c| *c != '_').collect();
  let (d, radix) = match w.get(..2) {
    Some("0x") => (&w[2..], 16),
    Some("0b") => (&w[2..], 2),
    Some("0o") => (&w[2..], 8),
    _ => (&w[..], 10),
  };
  let n = d.find(|c: char| !c.is_digit(radix)).unwrap_or(d.len());
  u64::from_str_radix(&d[..n], radix).ok()
}

/// Decodes the escapes of a text literal.
fn unescape(s: &str) -> String {
  let mut o = String::new();
  let mut i = s.chars();
  while let Some(c) = i.next() {
    if c != '\\' {
      o.push(c);
      continue;
    }
    match i.next() {
      Some('n') => o.push('\n'),
      Some('r') => o.push('\r'),
      Some('t') => o.push('\t'),
      Some('0') => o.push('\0'),
      Some('x') => {
        let h: String = i.by_ref().take(2).collect();
        o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
      },
      Some('u') => {
        let h: String = i.by_ref().take_while(|c| *c != '}').filter(|c| c.is_ascii_hexdigit()).collect();
        o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
      },
      Some('\n') | None => (),
      Some(c) => o.push(c),
    }
  }
  o
}

/// The literals of a source text, without comments.
pub fn scan(src: &str, out: &mut Literals) {
  let src = match src.find("#[cfg(test)]") {
    Some(i) if src[i..].contains("mod ") => &src[..i],
    _ => src,
  };
  let c: Vec<char> = src.chars().collect();
  let mut i = 0;
  let mut last: Option<u64> = None;
  // since the last number only an operator
  let mut op = ' ';
  while i < c.len() {
    let rest = |k: usize| c.get(i + k).copied().unwrap_or(' ');
    match c[i] {
      '/' if rest(1) == '/' => {
        while i < c.len() && c[i] != '\n' {
          i += 1;
        }
      },
      '/' if rest(1) == '*' => {
        i += 2;
        while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
          i += 1;
        }
        i += 2;
      },
      'r' if rest(1) == '"' || (rest(1) == '#' && (rest(2) == '"' || rest(2) == '#')) => {
        let mut n = 0;
        i += 1;
        while i < c.len() && c[i] == '#' {
          n += 1;
          i += 1;
        }
        i += 1;
        let start = i;
        while i < c.len() && !(c[i] == '"' && (1..=n).all(|k| c.get(i + k) == Some(&'#'))) {
          i += 1;
        }
        out.1.insert(c[start.min(c.len())..i.min(c.len())].iter().collect());
        i += n + 1;
        last = None;
      },
      '"' => {
        i += 1;
        let start = i;
        while i < c.len() && c[i] != '"' {
          i += 1 + (c[i] == '\\') as usize;
        }
        let t: String = c[start..i.min(c.len())].iter().collect();
        out.1.insert(unescape(&t));
        i += 1;
        last = None;
      },
      '\'' => {
        // a character, or a lifetime
        let end = if rest(1) == '\\' {
          (i + 3..(i + 12).min(c.len())).find(|k| c[*k] == '\'')
        } else if rest(2) == '\'' {
          Some(i + 2)
        } else {
          None
        };
        match end {
          Some(e) => {
            let t: String = c[i + 1..e].iter().collect();
            let t = unescape(&t);
            if let Some(ch) = t.chars().next() {
              out.0.insert(ch as u64);
            }
            out.1.insert(t);
            i = e + 1;
          },
          None => i += 1,
        }
        last = None;
      },
      d if d.is_ascii_digit() => {
        let start = i;
        while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
          i += 1;
        }
        let w: String = c[start..i].iter().collect();
        if let Some(n) = number(&w) {
          out.0.insert(n);
          if let Some(a) = last {
            let v = match op {
              '<' => (n < 64).then(|| a << n),
              '*' => a.checked_mul(n),
              '+' => a.checked_add(n),
              '-' => a.checked_sub(n),
              _ => None,
            };
            out.0.extend(v);
            last = v.or(Some(n));
          } else {
            last = Some(n);
          }
          op = ' ';
        }
      },
      a if a.is_alphabetic() || a == '_' => {
        while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
          i += 1;
        }
        last = None;
      },
      ' ' | '\n' | '(' | ')' => i += 1,
      o if "<*+-".contains(o) => {
        op = o;
        i += 1;
      },
      _ => {
        last = None;
        i += 1;
      },
    }
  }
}

fn walk(dir: &std::path::Path, out: &mut Literals) {
  let Ok(es) = std::fs::read_dir(dir) else { return };
  for e in es.flatten() {
    let p = e.path();
    if p.is_dir() {
      walk(&p, out);
    } else if p.extension().is_some_and(|x| x == "rs") {
      if let Ok(t) = std::fs::read_to_string(&p) {
        scan(&t, out);
      }
    }
  }
}

/// The literals of the crate under test.
pub fn literals() -> Literals {
  let mut l = Literals::default();
  let repo = std::env::var("NRBF_REPO").unwrap_or_else(|_| "/repo".into());
  walk(&std::path::Path::new(&repo).join("src"), &mut l);
  l
}

pub fn dict() -> &'static Dict {
  static D: OnceLock<Dict> = OnceLock::new();
  D.get_or_init(|| {
    let (ints, texts) = literals();
    let mut base = Literals::default();
    for l in BASE.lines() {
      match l.split_at_checked(2) {
        Some(("i ", n)) => base.0.extend(n.parse::<u64>()),
        Some(("s ", h)) => base.1.extend(String::from_utf8(crate::model::unhex(h))),
        _ => (),
      }
    }
    let ok = |s: &&String| s.len() <= 200;
    Dict {
      new_ints: ints.difference(&base.0).copied().take(40).collect(),
      new_texts: texts.difference(&base.1).filter(ok).take(40).cloned().collect(),
      ints: ints.into_iter().collect(),
      texts: texts.iter().filter(ok).cloned().collect(),
    }
  })
}

use crate::tape::Tape;

/// A number of the dictionary or next to one, now and then.
pub fn int(t: &mut Tape) -> Option<u64> {
  let d = dict();
  if !d.new_ints.is_empty() && t.chance(24) {
    let n = *t.of(&d.new_ints);
    return Some(match t.below(6) {
      0 => n.wrapping_add(1),
      1 => n.wrapping_sub(1),
      2 => n.wrapping_neg(),
      _ => n,
    });
  }
  if !d.ints.is_empty() && t.chance(5) {
    let n = *t.of(&d.ints);
    return Some(match t.below(4) {
      0 => n.wrapping_add(1),
      1 => n.wrapping_sub(1),
      2 => n.wrapping_neg(),
      _ => n,
    });
  }
  None
}

/// A size, now and then one of the new numbers or next to it, at most `max`.
pub fn size(t: &mut Tape, max: usize) -> Option<usize> {
  let d = dict();
  if d.new_ints.is_empty() || !t.chance(12) {
    return None;
  }
  let n = *t.of(&d.new_ints);
  let n = match t.below(4) {
    0 => n.wrapping_add(1),
    1 => n.wrapping_sub(1),
    _ => n,
  };
  usize::try_from(n).ok().filter(|n| *n <= max)
}

/// A text which has to do with the dictionary, now and then.
pub fn text(t: &mut Tape) -> Option<String> {
  let d = dict();
  if !d.new_texts.is_empty() && t.chance(24) {
    let s = t.of(&d.new_texts).clone();
    return Some(vary(t, s));
  }
  if !d.texts.is_empty() && t.chance(5) {
    let s = t.of(&d.texts).clone();
    return Some(vary(t, s));
  }
  // a text of one of the new lengths, in bytes or in characters
  if let Some(n) = size(t, 70_000) {
    let c = *t.of(&['a', 'é', '€', '😀']);
    return Some(if t.chance(128) {
      std::iter::repeat_n(c, n).collect()
    } else {
      let k = n / c.len_utf8();
      let mut s: String = std::iter::repeat_n(c, k).collect();
      s.push_str(&"x".repeat(n - s.len()));
      s
    });
  }
  None
}

fn vary(t: &mut Tape, s: String) -> String {
  match t.below(8) {
    0 => format!("{s}a"),
    1 => format!("a{s}"),
    2 => format!("A{s}B"),
    3 => format!("{s}{s}"),
    4 => s.chars().skip(1).collect(),
    5 => {
      // a piece of a text which formats something
      s.split(['{', '}']).next().unwrap_or("").to_string()
    },
    _ => s,
  }
}
