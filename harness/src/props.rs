//! The checks of the properties which concern parsing: generators, oracles and the rules for non-trivial cases.

use crate::generate::{CHARS, Case, Profile, SK, Site, gen_decimal, gen_prim, gen_string, generate, near_pairs, shaped, tag};
use crate::model::*;
use crate::mutate;
use crate::refdec::{Verdict, decode};
use crate::run::{Check, Cx, Phase, enumerate, phase};
use nbuild::*;
use nrbf::RemotingMessage;

type Res = Result<(), String>;

pub mod nbuild {
  //! Hand-written records for the enumerating phases.
  use crate::model::*;

  pub fn message(root: i32, body: &[u8]) -> Vec<u8> {
    let mut o = header(root);
    o.extend_from_slice(body);
    o.push(11);
    o
  }
  pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
  }
  pub fn int(v: i32) -> Vec<u8> {
    v.to_le_bytes().to_vec()
  }
  pub fn s(v: &str) -> Vec<u8> {
    let mut o = vec![];
    put_str(&mut o, v.as_bytes());
    o
  }
  pub fn lib(id: i32, name: &str) -> Vec<u8> {
    cat(&[&[12], &int(id), &s(name)])
  }
  pub fn strobj(id: i32, v: &str) -> Vec<u8> {
    cat(&[&[6], &int(id), &s(v)])
  }
  pub fn mref(id: i32) -> Vec<u8> {
    cat(&[&[9], &int(id)])
  }
  pub fn objarr(id: i32, n: i32) -> Vec<u8> {
    cat(&[&[16], &int(id), &int(n)])
  }
  pub fn strarr(id: i32, n: i32) -> Vec<u8> {
    cat(&[&[17], &int(id), &int(n)])
  }
  pub fn primarr(id: i32, p: P, items: &[MV]) -> Vec<u8> {
    let mut o = cat(&[&[15], &int(id), &int(items.len() as i32), &[p as u8]]);
    items.iter().for_each(|v| v.encode_prim(&mut o));
    o
  }
  /// An untyped class; with a library if there is one.
  pub fn cls(id: i32, name: &str, members: &[&str], lib: Option<i32>) -> Vec<u8> {
    let mut o = cat(&[&[if lib.is_some() { 3 } else { 2 }], &int(id), &s(name), &int(members.len() as i32)]);
    members.iter().for_each(|m| o.extend(s(m)));
    if let Some(l) = lib {
      o.extend(int(l));
    }
    o
  }
  /// A typed class; the types are the binary type and the bytes of the additional information.
  pub fn clst(id: i32, name: &str, members: &[(&str, u8, &[u8])], lib: Option<i32>) -> Vec<u8> {
    let mut o = cat(&[&[if lib.is_some() { 5 } else { 4 }], &int(id), &s(name), &int(members.len() as i32)]);
    members.iter().for_each(|m| o.extend(s(m.0)));
    members.iter().for_each(|m| o.push(m.1));
    members.iter().for_each(|m| o.extend(m.2));
    if let Some(l) = lib {
      o.extend(int(l));
    }
    o
  }
  pub fn cid(id: i32, meta: i32) -> Vec<u8> {
    cat(&[&[1], &int(id), &int(meta)])
  }
  pub fn binarr(id: i32, kind: u8, lens: &[i32], bounds: &[i32], ty: u8, info: &[u8]) -> Vec<u8> {
    let mut o = cat(&[&[7], &int(id), &[kind], &int(lens.len() as i32)]);
    lens.iter().for_each(|l| o.extend(int(*l)));
    bounds.iter().for_each(|l| o.extend(int(*l)));
    o.push(ty);
    o.extend(info);
    o
  }
  pub fn typed(p: P, v: &MV) -> Vec<u8> {
    let mut o = vec![8, p as u8];
    v.encode_prim(&mut o);
    o
  }
  pub fn obj(class: &str, lib: Option<&str>, members: Vec<(&str, MV)>) -> MV {
    MV::Obj(MObj {
      class: class.into(),
      lib: lib.map(|l| l.into()),
      members: members.into_iter().map(|(n, v)| (n.to_string(), v)).collect(),
    })
  }
}

// --- shared phases -------------------------------------------------------------------------------------------------

pub fn label_tags(cx: &mut Cx, tags: u64) {
  const NAMES: [(u64, &str); 34] = [
    (tag::TYPED, "typed class"),
    (tag::UNTYPED, "untyped class"),
    (tag::LIBCLASS, "class with library"),
    (tag::SYSCLASS, "system class"),
    (tag::REUSE, "metadata reuse"),
    (tag::REUSE_SELF, "metadata reuse within the object"),
    (tag::STR_FWD, "forward reference to a string"),
    (tag::STR_BACK, "reference to an earlier string"),
    (tag::STR_SHARED, "string with several references"),
    (tag::OBJ_FWD, "forward reference to an object"),
    (tag::OBJ_BACK, "reference to an earlier object"),
    (tag::ASO, "object array"),
    (tag::ASP, "primitive array"),
    (tag::ASS, "string array"),
    (tag::BA, "binary array"),
    (tag::RECT, "rectangular array"),
    (tag::JAGGED, "jagged array"),
    (tag::OFFSET, "lower bounds"),
    (tag::NULL_RUN, "null run"),
    (tag::LIB_EXTRA, "unused library"),
    (tag::LIB_BEFORE_MEMBER, "library before a member"),
    (tag::LIB_INLINE, "library at its first use"),
    (tag::POOL, "objects before the root"),
    (tag::TRAILING, "objects after the root"),
    (tag::CALL, "method call"),
    (tag::RETURN, "method return"),
    (tag::CALLARRAY, "call array"),
    (tag::NEG_ID, "negative class ID"),
    (tag::PADDED, "padded string length"),
    (tag::MULTIBYTE_LEN, "string length of several bytes"),
    (tag::NONASCII, "string beyond ASCII"),
    (tag::INLINE_CLASS, "inline class"),
    (tag::PRIM12, "primitive starting with the byte 12"),
    (tag::ROOT_POOL, "root before the last object"),
  ];
  for (m, n) in NAMES {
    if tags & m != 0 {
      cx.label(n);
    }
  }
}

/// A generated message has to be parsed as the value it denotes.
pub fn accepted(bytes: &[u8], want: &MM) -> Res {
  match expect_ok(bytes, want) {
    Ok(()) => Ok(()),
    // The generator and the reference decoder are independent; where they disagree nothing is claimed.
    Err(e) => match decode(bytes) {
      Verdict::Accept(m) if m == *want => Err(e),
      _ => {
        eprintln!("harness: generator and reference decoder disagree on {}", hex(bytes));
        Ok(())
      },
    },
  }
}

/// The reference decoder decides.
pub fn decide(cx: &mut Cx, bytes: &[u8]) -> Res {
  cx.msg(bytes);
  match decode(bytes) {
    Verdict::Accept(m) => {
      cx.label("well-formed");
      cx.nontrivial = true;
      expect_ok(bytes, &m)
    },
    Verdict::Reject(w) => {
      cx.label(w);
      cx.nontrivial = true;
      expect_err(bytes, w)
    },
    Verdict::AcceptOrReject(m) => {
      cx.label("limited (rejected or exact)");
      cx.nontrivial = true;
      match RemotingMessage::parse(bytes) {
        Ok(g) => cmp_message(&g, &m),
        Err(_) => Ok(()),
      }
    },
    Verdict::Unspecified(_) => {
      cx.label("unspecified (skipped)");
      Ok(())
    },
  }
}

pub fn roundtrip(p: Profile, any_of: u64) -> impl Fn(&mut Cx) -> Res + Sync + Send + 'static {
  move |cx| {
    let c = generate(&mut cx.t, &p);
    cx.msg(&c.bytes);
    cx.nontrivial = c.tags & any_of != 0;
    label_tags(cx, c.tags);
    accepted(&c.bytes, &c.expected)
  }
}

pub fn mutated(p: Profile, want: fn(SK) -> bool, structure: u8) -> impl Fn(&mut Cx) -> Res + Sync + Send + 'static {
  move |cx| {
    let c = generate(&mut cx.t, &p);
    cx.msg(&c.bytes);
    match mutate::mutate(&mut cx.t, &c.bytes, &c.sites, want, structure) {
      Some(m) => decide(cx, &m),
      None => {
        cx.label("nothing to change");
        Ok(())
      },
    }
  }
}

fn small(mut p: Profile) -> Profile {
  p.budget = 12;
  p.max_members = 3;
  p.max_len = 4;
  p.depth = 3;
  p.pool = 2;
  p.trailing = 1;
  p
}

const K: u64 = 1000;

/// Work before every check: nothing may be skipped because a message would need a lot of memory.
pub fn too_big(bytes: &[u8], v: &Verdict) -> bool {
  match v {
    Verdict::Unspecified("too many nulls to try") => true,
    Verdict::Unspecified(_) => bytes.windows(5).any(|w| {
      w[0] == 14 && (200_000..i32::MAX).contains(&i32::from_le_bytes(w[1..5].try_into().unwrap()))
    }),
    _ => false,
  }
}

// --- C01 -----------------------------------------------------------------------------------------------------------

/// Everything a user can do with a message without choosing a type.
pub fn touch(cx: &mut Cx, bytes: &[u8]) -> Res {
  cx.msg(bytes);
  let v = decode(bytes);
  if too_big(bytes, &v) {
    cx.label("skipped, declares too many nulls");
    return Ok(());
  }
  touch_only(cx, bytes)?;
  #[cfg(feature = "serde")]
  crate::sd::zoo(bytes);
  Ok(())
}

/// The same without deserializing.
fn touch_only(cx: &mut Cx, bytes: &[u8]) -> Res {
  if cx.bytes.is_empty() {
    cx.msg(&bytes[..bytes.len().min(2000)]);
  }
  cx.nontrivial = true;
  match RemotingMessage::parse(bytes) {
    Ok(m) => {
      cx.label("parsed");
      let d = format!("{m:?}");
      let c = m.clone();
      let _ = c == m;
      drop(d);
      drop(c);
    },
    Err(e) => {
      cx.label("rejected");
      let s = e.to_string();
      if s.is_empty() {
        return Err("an error with an empty message".into());
      }
      let d = format!("{e:?}");
      let c = e.clone();
      if c != e {
        return Err("the clone of an error differs from it".into());
      }
      drop(d);
    },
  }
  Ok(())
}

fn c01() -> Check {
  let base = Profile::default();
  let p0 = base.clone();
  let p1 = base.clone();
  let p2 = small(base.clone());
  let p3 = small(base.clone());
  Check {
    id: "C01",
    rule: "messages from the structured generator, mutated messages, soups of record fragments, random bytes after a header, every prefix and every single-byte change of small messages; non-trivial: actually parsed, formatted, cloned and deserialized into a zoo of types",
    assumptions: vec![
      "messages which declare more than 200000 null elements are skipped (they are valid and need as much memory as they declare)",
      "objects nested deeper than a few hundred levels are excluded (known finding K1)",
      "an endless loop is reported when one message takes more than 60 s of CPU time in a process of its own",
    ],
    phases: vec![
      phase("valid", 150 * K, 5000 * K, move |cx| {
        let c = generate(&mut cx.t, &p0);
        touch(cx, &c.bytes)
      }),
      phase("mutated", 500 * K, 20000 * K, move |cx| {
        let c = generate(&mut cx.t, &p1);
        let n = 1 + cx.t.below(4);
        let m = mutate::mutate_many(&mut cx.t, &c.bytes, &c.sites, n);
        touch(cx, &m)
      }),
      phase("soup", 600 * K, 20000 * K, |cx| {
        let m = mutate::soup(&mut cx.t);
        touch(cx, &m)
      }),
      phase("random bytes", 300 * K, 10000 * K, |cx| {
        let mut m = if cx.t.chance(20) { vec![] } else { header(cx.t.below(3) as i32) };
        let n = cx.t.below(64);
        for _ in 0..n {
          let b = if cx.t.chance(90) { cx.t.below(24) as u8 } else { cx.t.u8() };
          m.push(b);
        }
        touch(cx, &m)
      }),
      phase("every prefix", 4 * K, 100 * K, move |cx| {
        let c = generate(&mut cx.t, &p2);
        for i in 0..=c.bytes.len().min(1500) {
          touch(cx, &c.bytes[..i])?;
          cx.evals += 1;
        }
        Ok(())
      }),
      phase("every byte at one place", 6 * K, 200 * K, move |cx| {
        let c = generate(&mut cx.t, &p3);
        let at = cx.t.below(c.bytes.len());
        let mut m = c.bytes.clone();
        for b in 0..=255 {
          m[at] = b;
          touch(cx, &m)?;
          cx.evals += 1;
        }
        Ok(())
      }),
      phase("decimal texts", 100 * K, 3000 * K, |cx| {
        let text = decimal_like(&mut cx.t);
        let mut b = vec![];
        put_str(&mut b, text.as_bytes());
        let m = match cx.t.below(3) {
          0 => message(1, &cat(&[&[15], &int(1), &int(1), &[5], &b])),
          1 => message(1, &cat(&[&objarr(1, 1), &[8, 5], &b])),
          _ => message(1, &cat(&[&clst(1, "A", &[("a", 0, &[5])], None), &b])),
        };
        touch(cx, &m)
      }),
      // a character of several bytes at every place of a text, in every position of the format
      enumerate("wide characters at every offset", 420, |cx| {
        for prefix in ["", "System.", "System.Collections.Generic.List`1[[", "<x", "_"] {
          for c in ["é", "€", "𝄞", "\u{0}", "`"] {
            let text = format!("{prefix}{}{c}{}", "1".repeat(cx.idx as usize), "x".repeat(9));
            let mut enc = vec![];
            put_str(&mut enc, text.as_bytes());
            for k in 0..STR_POSITIONS {
              cx.evals += 1;
              touch(cx, &str_at(k, &enc, &text).0)?;
            }
          }
        }
        Ok(())
      }),
      phase("deep nesting", 300, 3000, |cx| {
        let depth = 50 + cx.t.below(450);
        let (b, _) = nest(&mut cx.t, depth);
        let cut = if cx.t.chance(128) { b.len() } else { cx.t.below(b.len()) };
        touch(cx, &b[..cut])
      }),
      // the stack needed may grow with the depth of nesting only
      enumerate("large messages on the stack of a usual thread", families() as u64, |cx| {
        let f = cx.idx as usize;
        let most = if f < FAMILIES || crate::scale::families()[f - FAMILIES].large { 100_003 } else { 10_000 };
        match [most, 1000, 300, 100].into_iter().find_map(|n| family(f, n)) {
          Some(b) => on_usual_stack(|| touch_only(cx, &b)),
          None => Ok(()),
        }
      }),
      phase("nesting on the stack of a usual thread", 300, 3000, |cx| {
        let depth = 1 + cx.t.below(300);
        let (b, _) = nest(&mut cx.t, depth);
        on_usual_stack(|| touch_only(cx, &b))
      }),
      phase("repeated records on the stack of a usual thread", 400, 8000, |cx| {
        let b = periodic(&mut cx.t, 30_000);
        on_usual_stack(|| touch_only(cx, &b))
      }),
    ],
  }
}

/// Runs on a thread with the stack which threads have by default.
fn on_usual_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
  std::thread::scope(|s| {
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, f).expect("thread");
    match t.join() {
      Ok(r) => r,
      Err(e) => std::panic::resume_unwind(e),
    }
  })
}

/// A long message in which the same few records, each complete by itself, are repeated over and over with new IDs, at the
/// top level or within an array, an object or a list of arguments.
pub fn periodic(t: &mut crate::tape::Tape, most: usize) -> Vec<u8> {
  let n = match t.below(4) {
    0 => t.below(40),
    1 => t.below(1200),
    _ => t.below(most),
  };
  let place = t.below(7);
  let top = place < 2;
  let unit: Vec<usize> = (0..1 + t.below(3)).map(|_| t.below(if place == 6 { 5 } else if top { 18 } else { 14 })).collect();
  let run = 1 + t.below(9) as i32;
  // what the units refer to
  let mut o = header(t.below(3) as i32);
  o.extend(cat(&[&lib(1, "L"), &strobj(2, "text"), &cls(3, "C", &["a"], None), &[10], &clst(4, "D", &[("x", 0, &[8]), ("y", 2, &[])], Some(1))]));
  o.extend(cat(&[&int(5), &[10]]));
  let mut count = 0i32;
  let mut body = vec![];
  let mut id = 10;
  for _ in 0..n {
    for u in &unit {
      id += 1;
      count += 1;
      if place == 6 {
        body.extend(match u {
          0 => vec![17],
          1 => cat(&[&[18], &s("text")]),
          2 => cat(&[&[8], &int(id)]),
          3 => cat(&[&[5], &s("1.50")]),
          _ => vec![2, id as u8],
        });
        continue;
      }
      body.extend(match u {
        0 => strobj(id, "s"),
        1 => cat(&[&cls(id, "A", &["m"], None), &[10]]),
        2 => cat(&[&clst(id, "B", &[("m", 0, &[2])], None), &[7]]),
        3 => cat(&[&cid(id, 3), &[10]]),
        4 => cat(&[&cid(id, 4), &int(id), &[10]]),
        5 => cat(&[&lib(id, "K"), &cls(-id, "A", &[], Some(id))]),
        6 => cat(&[&clst(id, "E", &[("m", 1, &[]), ("n", 7, &[2])], Some(1)), &mref(2), &[10]]),
        7 => cat(&[&cls(id, "F", &["m", "n"], Some(1)), &strobj(id + 1_000_000, "f"), &mref(2)]),
        8 => vec![10],
        9 => {
          count += run - 1;
          vec![13, run as u8]
        },
        10 => {
          count += run - 1;
          cat(&[&[14], &int(run)])
        },
        11 => mref(2),
        12 => typed(P::I32, &MV::I32(id)),
        13 => cls(id, "A", &[], None),
        14 => objarr(id, 0),
        15 => cat(&[&strarr(id, 2), &mref(2), &[10]]),
        16 => cat(&[&[15], &int(id), &int(3), &[2, 1, 2, 3]]),
        _ => cat(&[&binarr(id, 2, &[1, 2], &[], 2, &[]), &mref(2), &[10]]),
      });
    }
  }
  match place {
    0 | 1 => o.extend(body),
    2 => o.extend(cat(&[&objarr(5, count), &body])),
    3 => o.extend(cat(&[&strarr(5, count), &body])),
    4 => o.extend(cat(&[&binarr(5, 2, &[1, count], &[], 2, &[]), &body])),
    5 => {
      let names: Vec<String> = (0..count.min(100_000)).map(|i| format!("m{i}")).collect();
      let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
      o.extend(cat(&[&cls(5, "M", &names, None), &body]));
    },
    _ => o.extend(cat(&[&[21], &int(0x12), &[18], &s("m"), &[18], &s("t"), &int(count), &body])),
  }
  if !t.chance(20) {
    o.push(11);
  }
  o
}

/// Something in place of the text of a decimal.
pub fn decimal_like(t: &mut crate::tape::Tape) -> String {
  let mut s = match t.below(4) {
    0 => gen_decimal(t),
    1 => (0..t.below(70)).map(|_| *t.of(&['0', '1', '9', '5'])).collect(),
    2 => (0..t.below(40)).map(|_| *t.of(&['0', '1', '9', '5', '.', '-', '+', '_', 'e', 'E', ' '])).collect(),
    _ => {
      let (a, b) = (t.below(36), t.below(36));
      format!("{}.{}", "9".repeat(a), "9".repeat(b))
    },
  };
  for _ in 0..t.below(3) {
    let mut at = t.below(s.len() + 1);
    while !s.is_char_boundary(at) {
      at -= 1;
    }
    match t.below(3) {
      0 => s.insert(at, *t.of(&CHARS)),
      1 => s.insert(at, *t.of(&['é', '€', '𝄞', '٣', '\u{ff11}', '-', '.', '+', '_', 'x'])),
      _ => s.truncate(at),
    }
  }
  s
}

/// Objects and arrays nested in each other, in every way the format has.
pub fn nest(t: &mut crate::tape::Tape, depth: usize) -> (Vec<u8>, MM) {
  let mut o = header(1);
  let kind = t.below(5);
  for i in 0..depth {
    let id = i as i32 + 1;
    let k = if kind == 4 { t.below(3) } else { kind };
    match k {
      0 => o.extend(cls(id, "N", &["n"], None)),
      1 => {
        o.extend(objarr(id, 1));
        if i + 1 < depth {
          o.extend(mref(id + 1));
        }
      },
      2 => {
        o.extend(cls(id, "R", &["n"], None));
        if i + 1 < depth {
          o.extend(mref(id + 1));
        }
      },
      _ => {
        o.extend(binarr(id, 0, &[1], &[], 2, &[]));
        if i + 1 < depth {
          o.extend(mref(id + 1));
        }
      },
    }
    // an inline class has to follow an inline position, arrays cannot be inline
    if kind == 4 && k == 0 && i + 1 < depth {
      // the next one is referred to
      o.extend(mref(id + 1));
    }
  }
  o.push(10);
  o.push(11);
  (o, MM::Value(MV::Null))
}

// --- C02 -----------------------------------------------------------------------------------------------------------

/// How many nulls the message may legitimately expand to: the sum over null runs, capped by the array lengths.
fn null_allowance(bytes: &[u8]) -> u64 {
  crate::refdec::nulls(bytes) as u64
}

fn resources(cx: &mut Cx, bytes: &[u8]) -> Res {
  cx.msg(bytes);
  let v = decode(bytes);
  if too_big(bytes, &v) {
    cx.label("skipped, declares too many nulls");
    return Ok(());
  }
  cx.nontrivial = true;
  let nulls = null_allowance(bytes);
  let (ok, u) = crate::alloc::measure(|| RemotingMessage::parse(bytes).is_ok());
  cx.label(if ok { "parsed" } else { "rejected" });
  let units = bytes.len() as u64 + nulls;
  let peak = 512 * 1024 + 640 * units;
  if u.peak > peak {
    return Err(format!(
      "{} bytes of memory are needed at once for a message of {} bytes with {} nulls",
      u.peak,
      bytes.len(),
      nulls
    ));
  }
  // nothing is left when the result is gone
  if cx.t.chance(40) {
    cx.label("nothing is left");
    for what in 0..2 {
      let go = || {
        if what == 0 {
          _ = RemotingMessage::parse(bytes);
        } else {
          #[cfg(feature = "serde")]
          crate::sd::zoo(bytes);
        }
      };
      // tables which are only built once do not count
      go();
      let (_, u) = crate::alloc::measure(|| (0..4).for_each(|_| go()));
      if u.kept > 0 {
        return Err(format!("{} bytes of memory are kept after a message was read four times and dropped", u.kept));
      }
    }
  }
  Ok(())
}

/// Families of messages which grow with n.
const FAMILIES: usize = 22;
/// Those and the ones of the module `scale`.
pub fn families() -> usize {
  FAMILIES + crate::scale::families().len()
}
pub fn family(f: usize, n: usize) -> Option<Vec<u8>> {
  if f < FAMILIES { Some(small_family(f, n)) } else { (crate::scale::families()[f - FAMILIES].make)(n).map(|x| x.0) }
}
fn small_family(f: usize, n: usize) -> Vec<u8> {
  let mut b = vec![];
  let m = n as i32;
  match f {
    0 => {
      b.extend(objarr(1, m));
      (0..m).for_each(|i| b.extend(cat(&[&cls(i + 2, "A", &["x"], None), &[10]])));
    },
    1 => {
      b.extend(objarr(1, m));
      (0..m).for_each(|i| b.extend(mref(i + 2)));
      (0..m).for_each(|i| b.extend(cat(&[&cls(i + 2, "A", &["x"], None), &[10]])));
    },
    2 => {
      b.extend(cls(2, "A", &["x", "y"], None));
      b.extend([10, 10]);
      (0..m).for_each(|i| b.extend(cat(&[&cid(i + 3, 2), &[13, 1, 10]])));
      b.extend(objarr(1, 0));
    },
    3 => {
      (0..m).for_each(|i| b.extend(strobj(i + 2, "text")));
      b.extend(strarr(1, m));
      (0..m).for_each(|i| b.extend(mref(m + 1 - i)));
    },
    4 => {
      b.extend(strobj(2, "text"));
      b.extend(strarr(1, m));
      (0..m).for_each(|_| b.extend(mref(2)));
    },
    5 => {
      (0..m).for_each(|i| b.extend(cat(&[&lib(i + 2, "L"), &cls(m + i + 2, "A", &[], Some(i + 2))])));
      b.extend(objarr(1, 0));
    },
    6 => {
      b.extend(cat(&[&[15], &int(1), &int(m), &[8]]));
      (0..m).for_each(|i| b.extend(int(i)));
    },
    7 => {
      b.extend(binarr(1, 2, &[m, 1], &[], 0, &[2]));
      (0..m).for_each(|i| b.push(i as u8));
    },
    8 => {
      b.extend(binarr(1, 2, &[1, 1, m], &[], 0, &[2]));
      (0..m).for_each(|i| b.push(i as u8));
    },
    9 => {
      b.extend(binarr(1, 2, &[m, 2, 1], &[], 1, &[]));
      (0..2 * m).for_each(|_| b.push(10));
    },
    10 => {
      b.extend(objarr(1, m));
      (0..m).for_each(|_| b.extend([13, 1]));
    },
    11 => {
      // one class with many members
      let names: Vec<String> = (0..m).map(|i| format!("m{i}")).collect();
      let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
      b.extend(cls(1, "A", &names, None));
      (0..m).for_each(|_| b.push(10));
    },
    12 => {
      let names: Vec<String> = (0..m).map(|i| format!("m{i}")).collect();
      let mem: Vec<(&str, u8, &[u8])> = names.iter().map(|s| (s.as_str(), 0u8, &[8u8][..])).collect();
      b.extend(clst(1, "A", &mem, None));
      (0..m).for_each(|i| b.extend(int(i)));
    },
    13 => {
      // many objects which are never referred to
      (0..m).for_each(|i| b.extend(objarr(i + 2, 0)));
      b.extend(objarr(1, 0));
    },
    14 => b.extend(strobj(1, &"x".repeat(8 * n))),
    15 => {
      // nested arrays of strings
      b.extend(objarr(1, m));
      (0..m).for_each(|i| b.extend(mref(i + 2)));
      (0..m).for_each(|i| b.extend(cat(&[&strarr(i + 2, 2), &[13, 2]])));
    },
    16 => {
      // typed members of a library class, each with its library
      b.extend(lib(2, "L"));
      b.extend(clst(3, "A", &[("x", 4, &cat(&[&s("B"), &int(2)]))], Some(2)));
      b.push(10);
      (0..m).for_each(|i| {
        b.extend(cid(2 * i + 10, 3));
        b.extend(cat(&[&cls(2 * i + 11, "B", &["v"], Some(2)), &[10]]));
      });
      b.extend(objarr(1, 0));
    },
    17 => {
      // references in the reverse order of the definitions
      (0..m).for_each(|i| b.extend(objarr(i + 2, 0)));
      b.extend(objarr(1, m));
      (0..m).for_each(|i| b.extend(mref(m + 1 - i)));
    },
    18 => {
      // arguments
      let mut o = header(0);
      o.push(21);
      o.extend(int(0x12));
      o.extend(cat(&[&[18], &s("m"), &[18], &s("t")]));
      o.extend(int(m));
      (0..m).for_each(|i| {
        o.push(8);
        o.extend(int(i));
      });
      o.push(11);
      return o;
    },
    19 => {
      // objects after a method record
      let mut o = header(0);
      o.push(21);
      o.extend(int(0x11));
      o.extend(cat(&[&[18], &s("m"), &[18], &s("t")]));
      (0..m).for_each(|i| o.extend(strobj(i + 1, "x")));
      o.push(11);
      return o;
    },
    20 => {
      // classes with a typed member each
      b.extend(objarr(1, m));
      (0..m).for_each(|i| {
        b.extend(clst(i + 2, "A", &[("x", 3, &s("System.Object")), ("y", 7, &[2]), ("z", 1, &[])], None));
        b.extend([10, 10, 10]);
      });
    },
    _ => {
      // the end of the message is missing
      (0..m).for_each(|i| b.extend(strobj(i + 2, "x")));
      let mut o = header(1);
      o.extend(b);
      return o;
    },
  }
  message(1, &b)
}

fn c02() -> Check {
  let mut big = Profile::default();
  big.budget = 1500;
  big.max_len = 60;
  big.max_members = 20;
  big.msg = [4, 1, 1];
  let b2 = small(Profile::default());
  let b3 = big.clone();
  Check {
    id: "C02",
    rule: "the allocations of parsing are measured with a counting allocator: highest use at most 512 KiB + 640 bytes per byte of input and per null of a run; growth of requested bytes, of allocations and of executed instructions (callgrind) linear in families of messages of n and 4n records; non-trivial: measured",
    assumptions: vec![
      "null elements count like input bytes, since a run of nulls denotes as many elements",
      "a ratio up to 6.5 from n to 4n counts as linear (quadratic growth gives 16)",
    ],
    phases: vec![
      phase("large messages", 6 * K, 100 * K, move |cx| {
        let c = generate(&mut cx.t, &big);
        resources(cx, &c.bytes)
      }),
      phase("mutated counts", 500 * K, 10000 * K, move |cx| {
        let c = generate(&mut cx.t, &b2);
        let want: fn(SK) -> bool = if cx.t.chance(200) { mutate::counts } else { |k| k == SK::StrLen };
        match mutate::at_site(&mut cx.t, &c.bytes, &c.sites, want) {
          Some(m) => resources(cx, &m),
          None => Ok(()),
        }
      }),
      phase("huge counts", 300 * K, 6000 * K, |cx| {
        let m = huge_count(&mut cx.t);
        resources(cx, &m)
      }),
      phase("huge counts before much else", 3 * K, 60 * K, |cx| {
        // the count is not backed up by the message, but the message is long
        let mut m = huge_count(&mut cx.t);
        m.pop();
        let n = 1000 << cx.t.below(11);
        match cx.t.below(6) {
          0 => m.extend(std::iter::repeat_n(cx.t.u8(), n)),
          1 => m.extend((0..n / 4).flat_map(|_| [1, b'a', 10, 0])),
          2 => m.extend((0..n / 10).flat_map(|i| strobj(i as i32 + 5, "abcd"))),
          3 => m.extend((0..n / 5).flat_map(|_| int(1 << 28))),
          4 => m.extend(std::iter::repeat_n(10, n)),
          _ => {
            let f = crate::mutate::fragment(&mut cx.t);
            m.extend(f.iter().copied().cycle().take(n));
          },
        }
        resources(cx, &m)
      }),
      phase("mutated large messages", 6 * K, 100 * K, move |cx| {
        let c = generate(&mut cx.t, &b3);
        let n = 1 + cx.t.below(4);
        let m = mutate::mutate_many(&mut cx.t, &c.bytes, &c.sites, n);
        resources(cx, &m)
      }),
      enumerate("growth of allocations", families() as u64 * 4, |cx| {
        let f = cx.idx as usize % families();
        let n = [3000, 4000, 5000, 7000][cx.idx as usize / families()];
        let (Some(a), Some(b)) = (family(f, n), family(f, 4 * n)) else { return Ok(()) };
        cx.msg(&a[..a.len().min(400)]);
        cx.nontrivial = true;
        let go = |m: &[u8]| crate::alloc::measure(|| drop(RemotingMessage::parse(m))).1;
        let (ua, ub) = (go(&a), go(&b));
        if ub.total > ua.total * 13 / 2 + (1 << 20) {
          return Err(format!(
            "family {f}: parsing {} bytes requests {} bytes of memory, {} bytes request {}",
            a.len(), ua.total, b.len(), ub.total
          ));
        }
        if ub.calls > ua.calls * 13 / 2 + 200 {
          return Err(format!(
            "family {f}: parsing {} bytes takes {} allocations, {} bytes take {}",
            a.len(), ua.calls, b.len(), ub.calls
          ));
        }
        Ok(())
      }),
      enumerate("growth of instructions", families() as u64, |cx| {
        let f = cx.idx as usize;
        let n = 1500;
        let (Some(a), Some(b)) = (family(f, n), family(f, 4 * n)) else { return Ok(()) };
        cx.msg(&a[..a.len().min(400)]);
        // without what building the message takes
        let cost = |n| Some(instructions(f, n, "parse")?.saturating_sub(instructions(f, n, "build")?));
        let (Some(ia), Some(ib)) = (cost(n), cost(4 * n)) else {
          cx.label("callgrind is not available");
          return Ok(());
        };
        cx.nontrivial = true;
        if ib > ia * 13 / 2 + 200_000 {
          return Err(format!(
            "family {f}: parsing {} bytes takes {} instructions, {} bytes take {}",
            a.len(), ia, b.len(), ib
          ));
        }
        Ok(())
      }),
    ],
  }
}

/// Executed instructions of a process which builds the message of the family and parses it or does not.
fn instructions(f: usize, n: usize, what: &str) -> Option<u64> {
  let exe = std::env::current_exe().ok()?;
  let o = std::process::Command::new("valgrind")
    .args(["--tool=callgrind", "--callgrind-out-file=/dev/null"])
    .arg(exe)
    .args(["family", &f.to_string(), &n.to_string(), what])
    .env_remove("NRBF_SLOTS")
    .output()
    .ok()?;
  if !o.status.success() {
    return None;
  }
  let e = String::from_utf8_lossy(&o.stderr).into_owned();
  let l = e.lines().find(|l| l.contains("Collected :"))?;
  l.split(':').nth(1)?.trim().parse().ok()
}

fn huge_count(t: &mut crate::tape::Tape) -> Vec<u8> {
  let big = |t: &mut crate::tape::Tape| match t.below(5) {
    0 => i32::MAX,
    1 => i32::MAX - t.below(100) as i32,
    2 => 1 << (10 + t.below(21)),
    3 => 1_000_000,
    _ => (t.u32() & 0x7fff_ffff) as i32,
  };
  let n = big(t);
  let few: Vec<u8> = (0..t.below(5)).flat_map(|_| crate::mutate::fragment(t)).collect();
  let mut b = vec![];
  match t.below(13) {
    0 => b.extend(objarr(1, n)),
    1 => b.extend(strarr(1, n)),
    2 => b.extend(cat(&[&[15], &int(1), &int(n), &[*t.of(&PRIMS) as u8]])),
    3 => {
      let ty = t.below(8) as u8;
      let info: Vec<u8> = match ty {
        0 | 7 => vec![*t.of(&PRIMS) as u8],
        3 => s("A"),
        4 => cat(&[&s("A"), &int(9)]),
        _ => vec![],
      };
      let l2 = big(t);
      let lens = match t.below(4) {
        0 => vec![n],
        1 => vec![n, 1],
        2 => vec![n, l2],
        _ => vec![1, n, 2],
      };
      if ty == 4 {
        b.extend(lib(9, "L"));
      }
      b.extend(binarr(1, if lens.len() == 1 { 0 } else { 2 }, &lens, &[], ty, &info));
    },
    4 => b.extend(cat(&[&[7], &int(1), &[2], &int(n)])),
    5 => b.extend(cat(&[&[2], &int(1), &s("A"), &int(n), &s("a"), &s("b")])),
    6 => b.extend(cat(&[&[4], &int(1), &s("A"), &int(n), &s("a"), &s("b")])),
    7 => {
      b.extend(cat(&[&[21], &int(0x12), &[18], &s("m"), &[18], &s("t"), &int(n)]));
    },
    8 => {
      b.extend(cat(&[&[22], &int(0x212), &int(n)]));
    },
    9 => {
      b.extend(cat(&[&[6], &int(1)]));
      put_varint(&mut b, n as usize);
    },
    10 => {
      // a null run which is longer than the array
      let len = t.below(4) as i32;
      b.extend(cat(&[&objarr(1, len), &[14], &int(n)]));
    },
    11 => {
      let len = t.below(4) as i32;
      b.extend(cat(&[&binarr(1, 0, &[len], &[], 1, &[]), &[14], &int(n)]));
    },
    _ => {
      b.extend(cat(&[&cls(1, "A", &["a", "b"], None), &[14], &int(n)]));
    },
  }
  b.extend(few);
  let mut o = header(1);
  o.extend(b);
  o.push(11);
  o
}

// --- C03 -----------------------------------------------------------------------------------------------------------

fn c03() -> Check {
  let p = Profile { pool: 2, trailing: 2, root: [3, 3, 2, 1], ..Default::default() };
  let (p1, p2, p3, p4, p5) = (small(p.clone()), small(p.clone()), p.clone(), small(p.clone()), p.clone());
  Check {
    id: "C03",
    rule: "well-formed messages, every strict prefix and many suffixes of them, changes to the header, to the record types at the top level and to the end record, decided by the reference decoder; non-trivial: a prefix or suffix was tried, or the changed message is specified",
    assumptions: vec!["a prefix of a well-formed message is never well-formed, because the end record comes last"],
    phases: vec![
      phase("well-formed", 300 * K, 10000 * K, roundtrip(p3, !0)),
      phase("prefixes", 10 * K, 300 * K, move |cx| {
        let c = generate(&mut cx.t, &p1);
        cx.nontrivial = true;
        let step = 1 + c.bytes.len() / 1200;
        for i in (0..c.bytes.len()).step_by(step).chain(c.bytes.len().saturating_sub(4)..c.bytes.len()) {
          cx.msg(&c.bytes[..i]);
          cx.evals += 1;
          expect_err(&c.bytes[..i], "it is cut short")?;
        }
        Ok(())
      }),
      phase("suffixes", 200 * K, 5000 * K, move |cx| {
        let c = generate(&mut cx.t, &p2);
        cx.nontrivial = true;
        let mut m = c.bytes.clone();
        match cx.t.below(6) {
          0 => m.push(11),
          1 => m.push(cx.t.u8()),
          2 => m.extend_from_slice(&c.bytes),
          3 => m.extend(mutate::fragment(&mut cx.t)),
          4 => m.extend(strobj(77777, "x")),
          _ => {
            let n = 1 + cx.t.below(40);
            m.extend((0..n).map(|_| cx.t.u8()))
          },
        }
        cx.msg(&m);
        if m.len() == c.bytes.len() {
          m.push(11);
          cx.msg(&m);
        }
        expect_err(&m, "there is data after its end")
      }),
      phase("changed frame", 400 * K, 10000 * K, mutated(
        p4,
        |k| matches!(k, SK::RootId | SK::HeaderId | SK::Major | SK::Minor | SK::End | SK::RecType),
        60,
      )),
      phase("header", 100 * K, 2000 * K, |cx| {
        let pick = |t: &mut crate::tape::Tape, v: i32| match t.below(7) {
          0..=2 => v,
          3 => *t.of(&[0, 1, -1, 2, i32::MAX, i32::MIN, 256, 0x01000000]),
          4 => v ^ (1 << t.below(32)),
          5 => v.wrapping_neg(),
          _ => t.u32() as i32,
        };
        let rec = if cx.t.chance(40) { cx.t.u8() } else { 0 };
        let (r, h) = (pick(&mut cx.t, 1), cx.t.u32() as i32);
        let (ma, mi) = (pick(&mut cx.t, 1), pick(&mut cx.t, 0));
        let mut m = cat(&[&[rec], &int(r), &int(h), &int(ma), &int(mi), &strobj(1, "x"), &[11]]);
        if cx.t.chance(10) {
          let n = cx.t.below(m.len());
          m.truncate(n);
        }
        cx.label(if (rec, ma, mi) == (0, 1, 0) { "valid frame" } else { "invalid frame" });
        decide(cx, &m)
      }),
      phase("order of top-level records", 200 * K, 5000 * K, move |cx| {
        // records before and after the root do not change it, and none of them may be missing its end
        let c = generate(&mut cx.t, &p5);
        let m = mutate::structural(&mut cx.t, &c.bytes, &c.sites);
        decide(cx, &m)
      }),
    ],
  }
}

// --- C04 -----------------------------------------------------------------------------------------------------------

pub const POSITIONS: usize = 15;
/// A message with one primitive value in each of the places where the format allows it, and the expected message.
pub fn prim_at(pos: usize, p: P, v: &MV, raw: &[u8]) -> (Vec<u8>, MM) {
  let t = p as u8;
  let val = |x: MV| MM::Value(x);
  let call = |args: Option<Vec<MV>>| MM::Call { method: "m".into(), type_name: "t".into(), ctx: None, args };
  let call_rec = |flags: i32| cat(&[&[21], &int(flags), &[18], &s("m"), &[18], &s("t")]);
  match pos {
    0 => (message(1, &cat(&[&[15], &int(1), &int(1), &[t], raw])), val(MV::Arr(vec![v.clone()]))),
    1 => (message(1, &cat(&[&binarr(1, 0, &[1], &[], 0, &[t]), raw])), val(MV::Arr(vec![v.clone()]))),
    2 => (
      message(1, &cat(&[&binarr(1, 2, &[1, 1], &[], 0, &[t]), raw])),
      val(MV::Arr(vec![MV::Arr(vec![v.clone()])])),
    ),
    3 => (message(1, &cat(&[&clst(1, "A", &[("a", 0, &[t])], None), raw])), val(obj("A", None, vec![("a", v.clone())]))),
    4 => (
      message(1, &cat(&[&lib(2, "L"), &clst(1, "A", &[("a", 0, &[t])], Some(2)), raw])),
      val(obj("A", Some("L"), vec![("a", v.clone())])),
    ),
    5 => (
      message(1, &cat(&[&cls(1, "A", &["a"], None), &[8, t], raw])),
      val(obj("A", None, vec![("a", v.clone())])),
    ),
    6 => (message(1, &cat(&[&objarr(1, 1), &[8, t], raw])), val(MV::Arr(vec![v.clone()]))),
    7 => (
      message(1, &cat(&[&clst(1, "A", &[("a", 2, &[])], None), &[8, t], raw])),
      val(obj("A", None, vec![("a", v.clone())])),
    ),
    8 => (message(1, &cat(&[&binarr(1, 0, &[1], &[], 2, &[]), &[8, t], raw])), val(MV::Arr(vec![v.clone()]))),
    9 => (message(0, &cat(&[&call_rec(0x12), &int(1), &[t], raw])), call(Some(vec![v.clone()]))),
    10 => (
      message(0, &cat(&[&[22], &int(0x811), &[t], raw])),
      MM::Return { ret: Some(v.clone()), ctx: None, args: None },
    ),
    11 => (
      message(0, &cat(&[&[22], &int(0x212), &int(1), &[t], raw])),
      MM::Return { ret: None, ctx: None, args: Some(vec![v.clone()]) },
    ),
    12 => (message(1, &cat(&[&call_rec(0x14), &objarr(1, 1), &[8, t], raw])), call(Some(vec![v.clone()]))),
    13 => (
      // between other values, and with the metadata of an earlier object
      message(
        3,
        &cat(&[
          &clst(1, "A", &[("x", 0, &[2]), ("a", 0, &[t]), ("y", 0, &[2])], None),
          &[1],
          raw,
          &[2],
          &objarr(3, 1),
          &cid(2, 1),
          &[7],
          raw,
          &[8],
        ]),
      ),
      val(MV::Arr(vec![obj("A", None, vec![("x", MV::Byte(7)), ("a", v.clone()), ("y", MV::Byte(8))])])),
    ),
    _ => (
      message(1, &cat(&[&binarr(1, 3, &[2], &[-5], 0, &[t]), raw, raw])),
      val(MV::Arr(vec![v.clone(), v.clone()])),
    ),
  }
}

fn c04() -> Check {
  let p = Profile {
    member: [12, 1, 1, 2, 2, 1],
    decl: [12, 1, 3, 1, 1, 1, 1, 4],
    arr: [1, 5, 1, 5],
    pool: 1,
    trailing: 1,
    ..Default::default()
  };
  let (p1, p2) = (p.clone(), small(p.clone()));
  let all = |p: P, lo: u64, n: u64| -> Vec<MV> {
    (lo..lo + n)
      .map(|x| match p {
        P::Bool => MV::Bool(x == 1),
        P::Byte => MV::Byte(x as u8),
        P::SByte => MV::SByte(x as u8 as i8),
        P::I16 => MV::I16(x as u16 as i16),
        P::U16 => MV::U16(x as u16),
        _ => unreachable!(),
      })
      .collect()
  };
  let space = move |p: P, n: u64| {
    move |cx: &mut Cx| -> Res {
      // blocks of 256 values, in an array, and each one on its own in every position
      let vals = all(p, cx.idx * 256 % n, 256.min(n));
      let m = prim_array_message(p, &vals);
      cx.msg(&m);
      cx.nontrivial = true;
      cx.evals = vals.len() as u64;
      accepted(&m, &MM::Value(MV::Arr(vals.clone())))?;
      for (i, v) in vals.iter().enumerate() {
        let pos = if n <= 256 { 0..POSITIONS } else { (i % POSITIONS)..(i % POSITIONS + 1) };
        for k in pos {
          let mut raw = vec![];
          v.encode_prim(&mut raw);
          let (m, want) = prim_at(k, p, v, &raw);
          cx.msg(&m);
          cx.evals += 1;
          accepted(&m, &want)?;
        }
      }
      Ok(())
    }
  };
  Check {
    id: "C04",
    rule: "every value of the one- and two-byte types and every Unicode scalar value enumerated, values of the other types drawn with boundary values preferred, in each of the 15 places of the format which hold a primitive, alone and within generated messages; compared bit by bit; non-trivial: a primitive value is part of the message",
    assumptions: vec![
      "decimals are compared by their debug text with the same decimal parsed from an array, C24 checks their text",
      "only decimals in the canonical form are claimed to be accepted",
    ],
    phases: vec![
      enumerate("all bytes", 1, space.clone()(P::Byte, 256)),
      enumerate("all signed bytes", 1, space.clone()(P::SByte, 256)),
      enumerate("all booleans", 256, |cx| {
        // any byte other than 0 and 1 is not a boolean
        let b = cx.idx as u8;
        for k in 0..POSITIONS {
          let (m, want) = prim_at(k, P::Bool, &MV::Bool(b == 1), &[b]);
          cx.msg(&m);
          cx.evals += 1;
          cx.nontrivial = true;
          if b < 2 { accepted(&m, &want)? } else { expect_err(&m, "a boolean is neither 0 nor 1")? }
        }
        Ok(())
      }),
      enumerate("all 16-bit integers", 256, space.clone()(P::I16, 65536)),
      enumerate("all unsigned 16-bit integers", 256, space(P::U16, 65536)),
      enumerate("all chars", 0x110000 / 4096, |cx| {
        let lo = cx.idx as u32 * 4096;
        let vals: Vec<MV> = (lo..lo + 4096).filter_map(char::from_u32).map(MV::Char).collect();
        let m = prim_array_message(P::Char, &vals);
        cx.msg(&m);
        cx.nontrivial = true;
        cx.evals = vals.len() as u64;
        accepted(&m, &MM::Value(MV::Arr(vals.clone())))?;
        for (i, v) in vals.iter().enumerate().step_by(37) {
          let mut raw = vec![];
          v.encode_prim(&mut raw);
          let (m, want) = prim_at(i % POSITIONS, P::Char, v, &raw);
          cx.msg(&m);
          cx.evals += 1;
          accepted(&m, &want)?;
        }
        Ok(())
      }),
      enumerate("char bytes", 65536, |cx| {
        // two bytes as the start of a char, with and without a continuation
        let raw = (cx.idx as u16).to_be_bytes();
        for tail in [&b""[..], b"\x80", b"\xbf\x80", b"a\x80"] {
          let m = message(1, &cat(&[&[15], &int(1), &int(1), &[3], &raw, tail]));
          decide(cx, &m)?;
          let m = message(1, &cat(&[&[15], &int(1), &int(2), &[3], &raw, tail]));
          decide(cx, &m)?;
          cx.evals += 2;
        }
        Ok(())
      }),
      phase("values in every position", 60 * K, 2000 * K, |cx| {
        let p = *cx.t.of(&PRIMS);
        let v = gen_prim(&mut cx.t, p);
        let mut raw = vec![];
        v.encode_prim(&mut raw);
        cx.nontrivial = true;
        for k in 0..POSITIONS {
          let (m, want) = prim_at(k, p, &v, &raw);
          cx.msg(&m);
          cx.evals += 1;
          accepted(&m, &want)?;
        }
        Ok(())
      }),
      phase("raw bytes in every position", 60 * K, 2000 * K, |cx| {
        // any bytes of about the right size
        let p = *cx.t.of(&PRIMS);
        let mut raw = vec![];
        gen_prim(&mut cx.t, p).encode_prim(&mut raw);
        match cx.t.below(4) {
          0 => {
            raw.pop();
          },
          1 => raw.push(cx.t.u8()),
          2 => {
            let i = cx.t.below(raw.len());
            raw[i] = cx.t.u8();
          },
          _ => raw.iter_mut().for_each(|b| *b = cx.t.u8()),
        }
        for k in 0..POSITIONS {
          let (m, _) = prim_at(k, p, &MV::Null, &raw);
          cx.evals += 1;
          decide(cx, &m)?;
        }
        Ok(())
      }),
      phase("arrays", 60 * K, 2000 * K, |cx| {
        let p = *cx.t.of(&PRIMS);
        let n = if cx.t.chance(10) { cx.t.below(2000) } else { cx.t.below(30) };
        let vals: Vec<MV> = (0..n).map(|_| gen_prim(&mut cx.t, p)).collect();
        let m = prim_array_message(p, &vals);
        cx.msg(&m);
        cx.nontrivial = n > 0;
        accepted(&m, &MM::Value(MV::Arr(vals)))
      }),
      phase("generated messages", 200 * K, 5000 * K, roundtrip(p1, tag::PRIM_TYPED | tag::PRIM_UNTYPED | tag::ASP)),
      phase("changed values", 200 * K, 5000 * K, mutated(p2, |k| matches!(k, SK::PrimVal(_) | SK::PrimType), 0)),
    ],
  }
}

// --- C05 -----------------------------------------------------------------------------------------------------------

pub const STR_POSITIONS: usize = 14;
/// A message with the text, encoded as given, in each place where the format has a string.
pub fn str_at(pos: usize, enc: &[u8], text: &str) -> (Vec<u8>, MM) {
  let v = MV::Str(text.to_string());
  let val = MM::Value;
  match pos {
    0 => (message(1, &cat(&[&[6], &int(1), enc])), val(v)),
    1 => (message(1, &cat(&[&objarr(1, 1), &[6], &int(2), enc])), val(MV::Arr(vec![v]))),
    2 => (message(1, &cat(&[&strarr(1, 1), &[6], &int(2), enc])), val(MV::Arr(vec![v]))),
    3 => (
      message(1, &cat(&[&clst(1, "A", &[("a", 1, &[])], None), &[6], &int(2), enc])),
      val(obj("A", None, vec![("a", v)])),
    ),
    4 => (message(1, &cat(&[&[2], &int(1), enc, &int(0)])), val(obj(text, None, vec![]))),
    5 => (message(1, &cat(&[&[2], &int(1), &s("A"), &int(1), enc, &[10]])), val(obj("A", None, vec![(text, MV::Null)]))),
    6 => (
      message(1, &cat(&[&[12], &int(2), enc, &cls(1, "A", &[], Some(2))])),
      val(obj("A", Some(text), vec![])),
    ),
    7 => (
      // the declared class of a member
      message(1, &cat(&[&clst(1, "A", &[("a", 3, enc)], None), &[2], &int(2), enc, &int(0)])),
      val(obj("A", None, vec![("a", obj(text, None, vec![]))])),
    ),
    8 => (
      message(
        1,
        &cat(&[
          &lib(2, "L"),
          &clst(1, "A", &[("a", 4, &cat(&[enc, &int(2)]))], None),
          &[3],
          &int(3),
          enc,
          &int(0),
          &int(2),
        ]),
      ),
      val(obj("A", None, vec![("a", obj(text, Some("L"), vec![]))])),
    ),
    9 => (
      message(0, &cat(&[&[21], &int(0x11), &[18], enc, &[18], &s("t")])),
      MM::Call { method: text.into(), type_name: "t".into(), ctx: None, args: None },
    ),
    10 => (
      message(0, &cat(&[&[21], &int(0x11), &[18], &s("m"), &[18], enc])),
      MM::Call { method: "m".into(), type_name: text.into(), ctx: None, args: None },
    ),
    11 => (
      message(0, &cat(&[&[21], &int(0x21), &[18], &s("m"), &[18], &s("t"), &[18], enc])),
      MM::Call { method: "m".into(), type_name: "t".into(), ctx: Some(text.into()), args: None },
    ),
    12 => (
      message(0, &cat(&[&[22], &int(0x811), &[18], enc])),
      MM::Return { ret: Some(v), ctx: None, args: None },
    ),
    _ => (
      message(0, &cat(&[&[22], &int(0x212), &int(1), &[18], enc])),
      MM::Return { ret: None, ctx: None, args: Some(vec![v]) },
    ),
  }
}

/// Every text of the result has to be a part of the input.
pub fn borrowed(bytes: &[u8]) -> Res {
  fn inside(b: &[u8], s: &str) -> Res {
    let (lo, hi) = (b.as_ptr() as usize, b.as_ptr() as usize + b.len());
    let p = s.as_ptr() as usize;
    if s.is_empty() || (lo <= p && p + s.len() <= hi) { Ok(()) } else { Err(format!("{s:?} is not a part of the input")) }
  }
  fn value(b: &[u8], v: &nrbf::Value<'_>) -> Res {
    match v {
      nrbf::Value::String(s) => inside(b, s),
      nrbf::Value::Array(a) => a.iter().try_for_each(|v| value(b, v)),
      nrbf::Value::Object(o) => {
        inside(b, o.class)?;
        o.library.map_or(Ok(()), |l| inside(b, l))?;
        o.members.iter().try_for_each(|(k, v)| inside(b, k).and_then(|_| value(b, v)))
      },
      _ => Ok(()),
    }
  }
  match RemotingMessage::parse(bytes) {
    Ok(RemotingMessage::Value(v)) => value(bytes, &v),
    Ok(RemotingMessage::MethodCall(c)) => {
      inside(bytes, c.method_name)?;
      inside(bytes, c.type_name)?;
      c.call_context.map_or(Ok(()), |l| inside(bytes, l))?;
      c.args.iter().flatten().try_for_each(|v| value(bytes, v))
    },
    Ok(RemotingMessage::MethodReturn(c)) => {
      c.call_context.map_or(Ok(()), |l| inside(bytes, l))?;
      c.return_value.iter().try_for_each(|v| value(bytes, v))?;
      c.args.iter().flatten().try_for_each(|v| value(bytes, v))
    },
    Err(_) => Ok(()),
  }
}

fn c05() -> Check {
  let p = Profile { member: [2, 9, 1, 3, 2, 1], long_str: 20, padded: 60, arr: [2, 1, 4, 2], ..Default::default() };
  let (p1, p2, p3) = (p.clone(), small(p.clone()), p.clone());
  const LENS: [usize; 18] =
    [0, 1, 2, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152, 2097153];
  Check {
    id: "C05",
    rule: "strings at every length where the encoding of the length changes, in each of the 14 places of the format which hold a string, with every width of the length field; every one- and two-byte length prefix, every one- and two-byte sequence as text, generated messages and changed length fields and text bytes; non-trivial: specified by the reference decoder or built to hold a string",
    assumptions: vec![
      "a length may be encoded with more bytes than needed, as long as it fits in 31 bits and five bytes",
      "strings longer than 2 MiB are tried in one place only",
    ],
    phases: vec![
      Phase {
        thorough: ((LENS.len() + 3) * STR_POSITIONS) as u64,
        ..enumerate("boundary lengths", (LENS.len() * STR_POSITIONS) as u64, |cx| {
          let i = cx.idx as usize / STR_POSITIONS;
          let n = if i < LENS.len() { LENS[i] } else { [268435455, 268435456, 268435457][i - LENS.len()] };
          if n > 1 << 27 && cx.idx % 7 > 1 {
            return Ok(());
          }
          let pos = cx.idx as usize % STR_POSITIONS;
          cx.nontrivial = true;
          for c in ["a", "é"] {
            let mut text = String::with_capacity(n);
            while text.len() + c.len() <= n {
              text.push_str(c);
            }
            while text.len() < n {
              text.push('z');
            }
            for w in 1..=5 {
              if w < 5 && n >> (7 * w) != 0 || n > 1 << 27 && c == "é" {
                continue;
              }
              let mut enc = vec![];
              put_varint_padded(&mut enc, n, w);
              enc.extend_from_slice(text.as_bytes());
              let (m, want) = str_at(pos, &enc, &text);
              cx.msg(&m[..m.len().min(300)]);
              cx.evals += 1;
              expect_ok(&m, &want)?;
              borrowed(&m)?;
              // one byte too few
              let cut = &m[..m.len() - 2];
              expect_err(cut, "a string is cut short")?;
            }
          }
          Ok(())
        })
      },
      // each bit of the fifth byte of a length
      Phase {
        thorough: 4,
        ..enumerate("huge lengths", 3, |cx| {
          let n = [(1usize << 28) + 3, (1 << 29) + 5, (1 << 30) + 7, i32::MAX as usize][cx.idx as usize];
          let mut m = header(1);
          m.extend([6, 1, 0, 0, 0]);
          put_varint(&mut m, n);
          let at = m.len();
          m.reserve_exact(n + 1);
          while m.len() < at + n {
            let c = b'a' + ((m.len() >> 20) % 26) as u8;
            m.resize((m.len() + (1 << 20)).min(at + n), c);
          }
          m.push(11);
          cx.nontrivial = true;
          cx.evals += 1;
          cx.msg(&m[..at + 10]);
          match RemotingMessage::parse(&m) {
            Ok(RemotingMessage::Value(nrbf::Value::String(s))) if s.len() == n && s.as_bytes() == &m[at..at + n] => (),
            Ok(RemotingMessage::Value(nrbf::Value::String(s))) => return Err(format!("a string of {n} bytes became one of {}", s.len())),
            Ok(_) => return Err(format!("a string of {n} bytes became something else")),
            Err(e) => return Err(format!("a string of {n} bytes is an error: {e}")),
          }
          // the length means nothing else, such as one of its lower bits
          for k in (0..28).map(|s| (n & 0xFFF_FFFF) | ((n >> 28) << s)) {
            if k < n {
              let mut b = m[..at + k].to_vec();
              b.push(11);
              cx.evals += 1;
              expect_err(&b, "a string is cut short")?;
            }
          }
          Ok(())
        })
      },
      enumerate("two-byte length prefixes", 65536 / 16, |cx| {
        for x in cx.idx * 16..cx.idx * 16 + 16 {
          let raw = (x as u16).to_be_bytes();
          let mut n = (raw[0] & 127) as usize;
          if raw[0] & 128 != 0 {
            n |= ((raw[1] & 127) as usize) << 7;
          }
          if n > 6000 && x % 7 != 0 {
            continue;
          }
          let (three, two) = (raw[0] & raw[1] & 128 != 0, raw[0] & 128 != 0);
          let mut enc = raw.to_vec();
          if three {
            enc.push(0);
          }
          // the second byte is text if the length has only one
          let mut text = String::new();
          if !two {
            if n == 0 || raw[1] >= 128 {
              continue;
            }
            text.push(raw[1] as char);
          }
          while text.len() < n {
            text.push('q');
          }
          let rest = if two { &text[..] } else { &text[1..] };
          enc.extend_from_slice(rest.as_bytes());
          let (m, want) = str_at(0, &enc, &text);
          cx.msg(&m[..m.len().min(100)]);
          cx.evals += 1;
          cx.nontrivial = true;
          expect_ok(&m, &want)?;
        }
        Ok(())
      }),
      enumerate("two-byte texts", 65536, |cx| {
        let raw = (cx.idx as u16).to_be_bytes();
        for text in [&raw[..1], &raw[..], &[b'a', raw[0], raw[1]], &[raw[0], raw[1], 0x80], &[raw[0], raw[1], 0x80, 0xbf]] {
          let mut enc = vec![];
          put_str(&mut enc, text);
          let (m, _) = str_at(cx.idx as usize % STR_POSITIONS, &enc, "");
          cx.evals += 1;
          decide(cx, &m)?;
        }
        Ok(())
      }),
      enumerate("all characters", 0x110000 / 256, |cx| {
        cx.nontrivial = true;
        for c in (cx.idx as u32 * 256..).take(256).filter_map(char::from_u32) {
          for text in [c.to_string(), format!("{c}x{c}")] {
            let mut enc = vec![];
            put_str(&mut enc, text.as_bytes());
            for k in 0..STR_POSITIONS {
              let (m, want) = str_at(k, &enc, &text);
              cx.evals += 1;
              if let Err(e) = expect_ok(&m, &want) {
                cx.msg(&m);
                return Err(e);
              }
            }
          }
        }
        Ok(())
      }),
      enumerate("wide characters at every offset", 420, |cx| {
        cx.nontrivial = true;
        for prefix in ["", "System.", "<x"] {
          for c in ["é", "€", "𝄞", "\u{0}"] {
            let text = format!("{prefix}{}{c}{}", "1".repeat(cx.idx as usize), "x".repeat(9));
            let mut enc = vec![];
            put_str(&mut enc, text.as_bytes());
            for k in 0..STR_POSITIONS {
              let (m, want) = str_at(k, &enc, &text);
              cx.evals += 1;
              if let Err(e) = expect_ok(&m, &want) {
                cx.msg(&m);
                return Err(e);
              }
            }
          }
        }
        Ok(())
      }),
      phase("length prefixes", 200 * K, 5000 * K, |cx| {
        // up to six bytes of any kind as a length
        let n = 1 + cx.t.below(6);
        let mut enc: Vec<u8> = (0..n)
          .map(|i| {
            let b = match cx.t.below(4) {
              0 => 0,
              1 => cx.t.below(10) as u8,
              _ => cx.t.u8(),
            };
            if i + 1 < n { b | 128 } else { b & 127 }
          })
          .collect();
        if cx.t.chance(30) {
          let i = cx.t.below(enc.len());
          enc[i] ^= 128;
        }
        let k = cx.t.below(300);
        enc.extend(std::iter::repeat_n(b'a', k));
        let pos = cx.t.below(STR_POSITIONS);
        let (m, _) = str_at(pos, &enc, "");
        decide(cx, &m)
      }),
      phase("texts in every position", 40 * K, 1000 * K, |cx| {
        let text = gen_string(&mut cx.t, 30);
        let mut enc = vec![];
        let w = 1 + cx.t.below(5);
        if w < 5 && text.len() >> (7 * w) != 0 {
          put_str(&mut enc, text.as_bytes());
        } else {
          put_varint_padded(&mut enc, text.len(), w);
          enc.extend_from_slice(text.as_bytes());
        }
        cx.nontrivial = true;
        for k in 0..STR_POSITIONS {
          let (m, want) = str_at(k, &enc, &text);
          cx.msg(&m);
          cx.evals += 1;
          accepted(&m, &want)?;
          borrowed(&m)?;
        }
        Ok(())
      }),
      phase("broken texts in every position", 40 * K, 1000 * K, |cx| {
        let mut text = gen_string(&mut cx.t, 0).into_bytes();
        let at = cx.t.below(text.len() + 1);
        let bad = *cx.t.of(&mutate::BAD_UTF8);
        text.splice(at..at, bad.iter().copied());
        let mut enc = vec![];
        put_str(&mut enc, &text);
        for k in 0..STR_POSITIONS {
          let (m, _) = str_at(k, &enc, "");
          cx.evals += 1;
          decide(cx, &m)?;
        }
        Ok(())
      }),
      phase("generated messages", 150 * K, 4000 * K, roundtrip(p1, !0)),
      phase("borrowed", 60 * K, 1000 * K, move |cx| {
        let c = generate(&mut cx.t, &p3);
        cx.msg(&c.bytes);
        cx.nontrivial = true;
        borrowed(&c.bytes)
      }),
      phase("changed strings", 300 * K, 8000 * K, mutated(p2, mutate::strings, 0)),
    ],
  }
}

// --- C06 -----------------------------------------------------------------------------------------------------------

fn c06() -> Check {
  let p = Profile {
    root: [8, 1, 0, 0],
    member: [4, 3, 2, 6, 4, 2],
    decl: [5, 3, 3, 4, 3, 1, 1, 1],
    refs: [5, 1, 1],
    max_members: 9,
    budget: 60,
    lib: 128,
    reuse: 30,
    ..Default::default()
  };
  let (p1, p2, p3) = (p.clone(), small(p.clone()), small(p.clone()));
  let mut wide = p.clone();
  wide.max_members = 60;
  wide.budget = 200;
  let pairs = near_pairs();
  Check {
    id: "C06",
    rule: "generated graphs of class records of all four kinds, nested inline and by reference, with wide classes; changes to names, member counts, member types and record types, decided by the reference decoder; non-trivial: contains a class record, or the changed message is specified",
    assumptions: vec!["duplicate member names within a class are not generated"],
    phases: vec![
      phase("class graphs", 500 * K, 15000 * K, roundtrip(p1, tag::TYPED | tag::UNTYPED)),
      phase("wide classes", 60 * K, 1000 * K, roundtrip(wide, tag::MULTI_MEMBER)),
      enumerate("names which are nearly the same", pairs.len() as u64 * 4, move |cx| {
        // members of an object, and a class next to another one
        let (a, b) = &pairs[(cx.idx / 4) as usize];
        let (a, b) = if cx.idx & 1 == 0 { (a.as_str(), b.as_str()) } else { (b.as_str(), a.as_str()) };
        let (m, want) = if cx.idx & 2 == 0 {
          let v = obj(a, None, vec![(a, MV::Byte(1)), (b, MV::Byte(2)), ("other", MV::Byte(3))]);
          (cat(&[&cls(1, a, &[a, b, "other"], None), &[8, 2, 1, 8, 2, 2, 8, 2, 3]]), v)
        } else {
          let v = MV::Arr(vec![obj(a, Some(b), vec![(b, MV::Byte(1))]), obj(b, Some(a), vec![(a, MV::Byte(2))])]);
          let c1 = cat(&[&lib(5, b), &clst(2, a, &[(b, 0, &[2])], Some(5)), &[1]]);
          let c2 = cat(&[&lib(6, a), &clst(3, b, &[(a, 0, &[2])], Some(6)), &[2]]);
          (cat(&[&objarr(1, 2), &c1, &c2]), v)
        };
        let m = message(1, &m);
        cx.msg(&m);
        cx.nontrivial = true;
        accepted(&m, &MM::Value(want))
      }),
      phase("changed class records", 600 * K, 15000 * K, mutated(
        p2,
        |k| {
          matches!(
            k,
            SK::ClassName
              | SK::MemberName
              | SK::TypeName
              | SK::MemberCount
              | SK::BinType
              | SK::PrimType
              | SK::RecType
              | SK::ClassId
              | SK::LibUse
          )
        },
        0,
      )),
      phase("changed structure", 300 * K, 8000 * K, mutated(p3, |k| k == SK::MemberCount, 255)),
    ],
  }
}

// --- C07 -----------------------------------------------------------------------------------------------------------

fn c07() -> Check {
  let p = Profile {
    root: [5, 5, 0, 0],
    member: [3, 2, 2, 7, 5, 2],
    decl: [6, 3, 3, 3, 2, 1, 1, 1],
    refs: [6, 2, 1],
    arr: [4, 0, 1, 4],
    reuse: 200,
    max_members: 5,
    budget: 70,
    max_len: 12,
    pool: 3,
    ..Default::default()
  };
  let (p1, p2, p3) = (p.clone(), small(p.clone()), small(p.clone()));
  Check {
    id: "C07",
    rule: "generated graphs in which most objects reuse the metadata of an earlier object, of each kind of class record, from within the object itself, from siblings, from elements and from other top-level objects; changes to metadata and object IDs decided by the reference decoder; non-trivial: metadata is reused, or the changed message is specified",
    assumptions: vec!["a metadata ID which names an object that itself reuses metadata is unspecified"],
    phases: vec![
      phase("reused metadata", 700 * K, 20000 * K, roundtrip(p1, tag::REUSE)),
      phase("changed IDs", 600 * K, 15000 * K, move |cx| {
        let c = generate(&mut cx.t, &p2);
        cx.msg(&c.bytes);
        if c.tags & tag::REUSE == 0 {
          cx.label("nothing to change");
          return Ok(());
        }
        let want: fn(SK) -> bool =
          if cx.t.chance(160) { |k| k == SK::MetaId } else { |k| matches!(k, SK::ClassId | SK::MetaId | SK::ObjId) };
        match mutate::at_site(&mut cx.t, &c.bytes, &c.sites, want) {
          Some(m) => decide(cx, &m),
          None => Ok(()),
        }
      }),
      phase("order of definition and use", 300 * K, 8000 * K, move |cx| {
        let c = generate(&mut cx.t, &p3);
        let m = mutate::structural(&mut cx.t, &c.bytes, &c.sites);
        decide(cx, &m)
      }),
      phase("siblings", 100 * K, 2000 * K, siblings),
    ],
  }
}

/// An array of objects of a few classes, each class defined once and reused in any order.
fn siblings(cx: &mut Cx) -> Res {
  let t = &mut cx.t;
  let n_classes = 1 + t.below(4);
  let n = 1 + t.below(40);
  let mut o = header(1);
  let mut libs = vec![false; n_classes];
  for i in 0..n_classes {
    if t.chance(128) {
      libs[i] = true;
    }
  }
  let mut body = vec![];
  let mut defined: Vec<Option<i32>> = vec![None; n_classes];
  let mut items = vec![];
  let kinds: Vec<(u8, P)> = (0..n_classes).map(|_| (t.below(3) as u8, *t.of(&PRIMS))).collect();
  let mut next = 2;
  for _ in 0..n {
    let c = t.below(n_classes);
    let (kind, p) = kinds[c];
    let name = format!("Class{c}");
    let libname = format!("Lib{c}");
    let id = next;
    next += 1;
    match defined[c] {
      Some(meta) => body.extend(cid(id, meta)),
      None => {
        let l = if libs[c] {
          let l = 1000 + c as i32;
          body.extend(lib(l, &libname));
          Some(l)
        } else {
          None
        };
        defined[c] = Some(id);
        match kind {
          0 => body.extend(cls(id, &name, &["v", "s"], l)),
          1 => body.extend(clst(id, &name, &[("v", 0, &[p as u8]), ("s", 1, &[])], l)),
          _ => body.extend(clst(id, &name, &[("v", 2, &[]), ("s", 2, &[])], l)),
        }
      },
    }
    let v = gen_prim(t, p);
    if kind == 1 {
      v.encode_prim(&mut body);
    } else {
      body.extend(typed(p, &v));
    }
    let text = format!("t{next}");
    body.extend(strobj(next + 5000, &text));
    items.push(obj(&name, libs[c].then_some(&libname[..]), vec![("v", v), ("s", MV::Str(text))]));
  }
  o.extend(objarr(1, n as i32));
  o.extend(body);
  o.push(11);
  cx.msg(&o);
  cx.nontrivial = n > n_classes;
  accepted(&o, &MM::Value(MV::Arr(items)))
}

// --- C08 -----------------------------------------------------------------------------------------------------------

fn c08() -> Check {
  let p = Profile {
    root: [4, 4, 1, 0],
    member: [1, 7, 1, 2, 8, 7],
    decl: [1, 6, 5, 3, 3, 3, 3, 3],
    strs: [2, 1, 5, 4],
    refs: [4, 4, 3],
    arr: [5, 1, 3, 3],
    pool: 5,
    trailing: 3,
    root_pool: 60,
    budget: 70,
    ..Default::default()
  };
  let (p1, p2, p3) = (p.clone(), small(p.clone()), small(p.clone()));
  Check {
    id: "C08",
    rule: "generated graphs with references to earlier and later records from class members of each declared type, array elements and call arrays, strings referred to any number of times; changes to the ID or reference fields and to the order of records, decided by the reference decoder; dangling references; non-trivial: contains a reference, or the changed message is specified",
    assumptions: vec![
      "an object or array other than a string is referred to once, and a definition after its reference follows in depth-first order (known findings K2, K3)",
    ],
    phases: vec![
      phase("reference graphs", 700 * K, 20000 * K, roundtrip(
        p1,
        tag::STR_FWD | tag::STR_BACK | tag::STR_SHARED | tag::OBJ_FWD | tag::OBJ_BACK,
      )),
      phase("changed IDs", 600 * K, 15000 * K, mutated(
        p2,
        |k| matches!(k, SK::Ref | SK::ObjId | SK::ClassId | SK::RootId | SK::MemberRecType),
        0,
      )),
      phase("changed order", 300 * K, 8000 * K, mutated(p3, |k| k == SK::Ref, 255)),
      phase("chains", 20 * K, 500 * K, chain),
      enumerate("IDs which are nearly the same", 31 * 31 * 4, |cx| {
        // two or three IDs which differ in single bits, in each order of the definitions and references
        let (i, j) = (cx.idx / 4 % 31, cx.idx / 124);
        let base = cx.t.below(1 << 31) as i32;
        let mut ids = vec![base, base ^ (1 << i), base ^ (1 << j), base ^ (1 << i) ^ (1 << j)];
        ids.sort();
        ids.dedup();
        ids.retain(|n| *n > 0);
        let root = (1..).find(|n| !ids.contains(n)).unwrap();
        let text = |id: &i32| format!("text {id}");
        let mut b = vec![];
        let late = cx.idx & 1 != 0;
        if !late {
          for id in &ids {
            b.extend(strobj(*id, &text(id)));
          }
        }
        let mut order = ids.clone();
        if cx.idx & 2 != 0 {
          order.reverse();
        }
        b.extend(objarr(root, order.len() as i32));
        for id in &order {
          b.extend(mref(*id));
        }
        if late {
          for id in &order {
            b.extend(strobj(*id, &text(id)));
          }
        }
        let m = message(root, &b);
        cx.msg(&m);
        cx.nontrivial = true;
        accepted(&m, &MM::Value(MV::Arr(order.iter().map(|id| MV::Str(text(id))).collect())))
      }),
      phase("any order of definitions", 200 * K, 5000 * K, |cx| {
        let b = any_order(&mut cx.t);
        decide(cx, &b)
      }),
      phase("dangling", 100 * K, 2000 * K, |cx| {
        // a reference which nothing in the message satisfies
        let t = &mut cx.t;
        let id = 2 + t.below(5) as i32;
        let other = if t.chance(128) { id + 1 } else { i32::MAX - t.below(3) as i32 };
        let mut b = match t.below(6) {
          0 => cat(&[&objarr(1, 1), &mref(id)]),
          1 => cat(&[&strarr(1, 1), &mref(id)]),
          2 => cat(&[&cls(1, "A", &["a"], None), &mref(id)]),
          3 => cat(&[&clst(1, "A", &[("a", 1, &[])], None), &mref(id)]),
          4 => cat(&[&binarr(1, 0, &[1], &[], *t.of(&[1u8, 2, 5, 6]), &[]), &mref(id)]),
          _ => cat(&[&clst(1, "A", &[("a", *t.of(&[2u8, 5, 6]), &[])], None), &mref(id)]),
        };
        match t.below(4) {
          0 => (),
          1 => b.extend(strobj(other, "x")),
          2 => b.extend(objarr(other, 0)),
          _ => b = cat(&[&strobj(other, "x"), &b]),
        }
        let m = message(1, &b);
        cx.msg(&m);
        cx.nontrivial = true;
        match decode(&m) {
          Verdict::Reject(_) => expect_err(&m, "a reference to an object which does not exist"),
          v => Err(format!("harness: dangling reference decoded as {v:?}")),
        }
      }),
    ],
  }
}

/// A few objects whose members refer to any of them, defined in any order.
fn any_order(t: &mut crate::tape::Tape) -> Vec<u8> {
  let n = 2 + t.below(5);
  let mut ids: Vec<i32> = (1..=n as i32).collect();
  // backward references only, forward ones only, or both
  let dir = t.below(4);
  let repeat = t.chance(128);
  let mut used = vec![false; n + 2];
  if t.chance(100) {
    ids.reverse();
  } else if t.chance(128) {
    for i in (1..n).rev() {
      let j = t.below(i + 1);
      ids.swap(i, j);
    }
  }
  let mut b = vec![];
  for (k, id) in ids.iter().enumerate() {
    let kind = t.below(4);
    let m = if kind == 3 { 0 } else { t.below(4) };
    let mut items = vec![];
    for _ in 0..m {
      let to = match dir {
        0 if k > 0 => ids[t.below(k)],
        1 if k + 1 < n => ids[k + 1 + t.below(n - k - 1)],
        2 => ids[(k + 1) % n],
        3 => ids[t.below(n)],
        _ => 0,
      };
      if to == 0 || (used[to as usize] && !repeat) || t.chance(40) {
        items.extend(if t.chance(128) { vec![10] } else { typed(P::Byte, &MV::Byte(k as u8)) });
      } else {
        used[to as usize] = true;
        items.extend(mref(to));
      }
    }
    match kind {
      0 => b.extend(objarr(*id, m as i32)),
      1 => b.extend(cls(*id, &format!("C{id}"), &["a", "b", "c"][..m], None)),
      2 => b.extend(binarr(*id, 0, &[m as i32], &[], 2, &[])),
      _ => b.extend(strobj(*id, &format!("s{id}"))),
    }
    b.extend(items);
  }
  message(ids[t.below(n)], &b)
}

/// Strings and objects referred to across many levels.
fn chain(cx: &mut Cx) -> Res {
  let t = &mut cx.t;
  let n = 2 + t.below(60);
  // n arrays, each holding the next one and references to shared strings
  let shared = 1 + t.below(5);
  let mut o = header(1);
  let texts: Vec<String> = (0..shared).map(|i| format!("shared {i}")).collect();
  let mut defined = vec![false; shared];
  for i in 0..shared {
    if t.chance(100) {
      defined[i] = true;
      o.extend(strobj(1000 + i as i32, &texts[i]));
    }
  }
  let mut rows: Vec<Vec<usize>> = vec![];
  for i in 0..n {
    let id = i as i32 + 1;
    let k = t.below(4);
    let row: Vec<usize> = (0..k).map(|_| t.below(shared)).collect();
    let last = i + 1 == n;
    o.extend(objarr(id, row.len() as i32 + !last as i32));
    // the strings come after the array inside, so only strings defined so far or inline
    for s in &row {
      if defined[*s] {
        o.extend(mref(1000 + *s as i32));
      } else {
        defined[*s] = true;
        o.extend(strobj(1000 + *s as i32, &texts[*s]));
      }
    }
    if !last {
      o.extend(mref(id + 1));
    }
    rows.push(row);
  }
  o.push(11);
  let mut v: Option<MV> = None;
  for row in rows.iter().rev() {
    let mut items: Vec<MV> = row.iter().map(|s| MV::Str(texts[*s].clone())).collect();
    items.extend(v.take());
    v = Some(MV::Arr(items));
  }
  cx.msg(&o);
  cx.nontrivial = true;
  accepted(&o, &MM::Value(v.unwrap()))
}

// --- C09 -----------------------------------------------------------------------------------------------------------

fn c09() -> Check {
  let p = Profile {
    root: [1, 8, 0, 0],
    arr: [2, 2, 2, 6],
    ba: [2, 2, 4],
    offset: 110,
    refs: [1, 6, 1],
    member: [5, 3, 2, 1, 5, 3],
    decl: [6, 3, 3, 2, 2, 2, 2, 2],
    max_len: 12,
    budget: 70,
    ..Default::default()
  };
  let (p1, p2, p3) = (p.clone(), small(p.clone()), small(p.clone()));
  Check {
    id: "C09",
    rule: "every shape of up to four dimensions of at most four elements for every kind of array and element type, generated nested arrays, and changes to lengths, ranks, kinds and element types decided by the reference decoder; expected nesting computed from the row-major index of each element; non-trivial: an array with elements, or the changed message is specified",
    assumptions: vec![
      "single and jagged arrays have one dimension",
      "rectangular arrays with an inner dimension of length zero are excluded (known finding K5)",
    ],
    phases: vec![
      enumerate("all small shapes", 6 * 340 * 6, |cx| {
        let kind = (cx.idx % 6) as u8;
        let el = cx.idx / 6 % 6;
        let mut k = cx.idx as usize / 36;
        let mut rank = 1;
        // 4 + 16 + 64 + 256 shapes
        while k >= 4usize.pow(rank) {
          k -= 4usize.pow(rank);
          rank += 1;
        }
        let lens: Vec<usize> = (0..rank).map(|i| 1 + k / 4usize.pow(i) % 4).collect();
        if rank > 1 && kind % 3 != 2 {
          return Ok(());
        }
        shape(cx, kind, el, lens)
      }),
      phase("shapes", 60 * K, 2000 * K, |cx| {
        let kind = cx.t.below(6) as u8;
        let el = cx.t.below(6) as u64;
        let rank = if kind % 3 == 2 { 1 + cx.t.below(6) } else { 1 };
        let mut cap = 600;
        let mut lens: Vec<usize> = (0..rank)
          .map(|_| {
            let l = 1 + cx.t.below(cap.min(40));
            cap = (cap / l).max(1);
            l
          })
          .collect();
        if cx.t.chance(20) {
          lens[0] = 0;
        }
        shape(cx, kind, el, lens)
      }),
      phase("generated arrays", 400 * K, 10000 * K, roundtrip(p1, tag::ASO | tag::ASP | tag::ASS | tag::BA)),
      phase("changed arrays", 500 * K, 12000 * K, mutated(
        p2,
        |k| {
          matches!(
            k,
            SK::Len
              | SK::Rank
              | SK::DimLen
              | SK::LowerBound
              | SK::ArrType
              | SK::BinType
              | SK::PrimType
              | SK::ObjId
              | SK::RecType
          )
        },
        0,
      )),
      phase("changed elements", 300 * K, 8000 * K, mutated(p3, |k| matches!(k, SK::MemberRecType | SK::PrimVal(_)), 160)),
    ],
  }
}

fn shape(cx: &mut Cx, kind: u8, el: u64, lens: Vec<usize>) -> Res {
  let n: usize = lens.iter().product();
  let l32: Vec<i32> = lens.iter().map(|l| *l as i32).collect();
  let bounds: Vec<i32> =
    if kind >= 3 { (0..lens.len()).map(|i| [0, 5, -7, i32::MAX, i32::MIN, 1][(i + n) % 6]).collect() } else { vec![] };
  let (ty, info): (u8, Vec<u8>) = match el {
    0 => (0, vec![8]),
    1 => (1, vec![]),
    2 => (2, vec![]),
    3 => (3, s("E")),
    4 => (0, vec![13]),
    _ => (2, vec![]),
  };
  let mut b = binarr(1, kind, &l32, &bounds, ty, &info);
  let mut flat = vec![];
  for i in 0..n {
    let id = i as i32 + 2;
    match el {
      0 => {
        flat.push(MV::I32(i as i32 * 3 - 5));
        b.extend(int(i as i32 * 3 - 5));
      },
      1 => {
        let t = format!("{i}");
        b.extend(strobj(id, &t));
        flat.push(MV::Str(t));
      },
      2 => {
        b.extend(typed(P::U16, &MV::U16(i as u16)));
        flat.push(MV::U16(i as u16));
      },
      3 => {
        if i == 0 {
          b.extend(clst(id, "E", &[("i", 0, &[2])], None));
        } else {
          b.extend(cid(id, 2));
        }
        b.push(i as u8);
        flat.push(obj("E", None, vec![("i", MV::Byte(i as u8))]));
      },
      4 => {
        let v = MV::DateTime(i as i64);
        v.encode_prim(&mut b);
        flat.push(v);
      },
      _ => {
        b.extend(mref(id));
        flat.push(MV::Arr(vec![MV::Byte(i as u8)]));
      },
    }
  }
  if el == 5 {
    for i in 0..n {
      b.extend(primarr(i as i32 + 2, P::Byte, &[MV::Byte(i as u8)]));
    }
  }
  let m = message(1, &b);
  cx.msg(&m);
  cx.nontrivial = n > 0;
  let want = MV::Arr(shaped(&lens, &mut flat.into_iter()));
  accepted(&m, &MM::Value(want))?;
  // an element less
  if n > 0 && el != 5 {
    let mut l = l32.clone();
    l[0] += 1;
    let mut b2 = binarr(1, kind, &l, &bounds, ty, &info);
    b2.extend_from_slice(&b[binarr(1, kind, &l32, &bounds, ty, &info).len()..]);
    let m = message(1, &b2);
    cx.evals += 1;
    decide(cx, &m)?;
  }
  Ok(())
}

// --- C10 -----------------------------------------------------------------------------------------------------------

/// Nulls in records of any partition of a run.
fn put_nulls(t: &mut crate::tape::Tape, n: usize, out: &mut Vec<u8>) {
  let mut left = n;
  while left > 0 {
    let k = match t.below(4) {
      0 => 1,
      1 => left,
      2 => left.min(255),
      _ => 1 + t.below(left),
    };
    match t.below(3) {
      0 if k <= 255 => out.extend([13, k as u8]),
      1 if k <= 20 => out.extend(std::iter::repeat_n(10, k)),
      _ => {
        out.push(14);
        put_i32(out, k as i32);
      },
    }
    left -= k;
  }
}

fn c10() -> Check {
  let p = Profile {
    root: [2, 6, 0, 0],
    arr: [4, 0, 4, 4],
    run: 150,
    max_len: 20,
    strs: [3, 5, 1, 1],
    member: [2, 2, 6, 1, 3, 1],
    refs: [1, 5, 1],
    decl: [2, 4, 4, 3, 3, 2, 2, 2],
    ..Default::default()
  };
  let (p1, p2) = (p.clone(), small(p.clone()));
  Check {
    id: "C10",
    rule: "arrays of each kind and element type with nulls at any place, the same array encoded several times with different partitions of each run into the three null records; runs at the boundaries of the counts (255, 256, 65535, 65536), runs which are too long, zero or negative; non-trivial: a run of two or more nulls, or the changed message is specified",
    assumptions: vec!["runs up to 200000 nulls are tried"],
    phases: vec![
      phase("partitions", 100 * K, 3000 * K, |cx| {
        let n = if cx.t.chance(10) { cx.t.below(1200) } else { 1 + cx.t.below(40) };
        let density = *cx.t.of(&[128u8, 200, 250, 40]);
        let nulls: Vec<bool> = (0..n).map(|_| cx.t.chance(density)).collect();
        let kind = cx.t.below(6);
        let mut want = vec![];
        for (i, z) in nulls.iter().enumerate() {
          want.push(if *z { MV::Null } else { MV::Str(format!("{i}")) });
        }
        for _ in 0..3 {
          let mut b = match kind {
            0 => objarr(1, n as i32),
            1 => strarr(1, n as i32),
            2 => binarr(1, 0, &[n as i32], &[], 1, &[]),
            3 => binarr(1, 2, &[n as i32], &[], 2, &[]),
            4 => binarr(1, 3, &[n as i32], &[7], 1, &[]),
            _ => cat(&[&[21], &int(0x14), &[18], &s("m"), &[18], &s("t"), &objarr(1, n as i32)]),
          };
          let mut i = 0;
          while i < n {
            let r = nulls[i..].iter().take_while(|z| **z).count();
            if r > 0 {
              cx.nontrivial |= r > 1;
              put_nulls(&mut cx.t, r, &mut b);
              i += r;
            } else {
              b.extend(strobj(i as i32 + 2, &format!("{i}")));
              i += 1;
            }
          }
          let m = message(1, &b);
          cx.msg(&m);
          cx.evals += 1;
          let w = if kind == 5 {
            MM::Call { method: "m".into(), type_name: "t".into(), ctx: None, args: Some(want.clone()) }
          } else {
            MM::Value(MV::Arr(want.clone()))
          };
          accepted(&m, &w)?;
        }
        Ok(())
      }),
      enumerate("boundary runs", 15 * 5 * 6, |cx| {
        // an array of `len`, a run of `len + d`
        const LENS: [usize; 15] = [1, 2, 3, 127, 128, 254, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 150000];
        let len = LENS[cx.idx as usize % 15];
        let d = (cx.idx as usize / 15 % 5) as i64 - 2;
        let kind = cx.idx as usize / 75;
        let run = len as i64 + d;
        cx.nontrivial = true;
        let head = match kind {
          0 => objarr(1, len as i32),
          1 => strarr(1, len as i32),
          2 => binarr(1, 0, &[len as i32], &[], 1, &[]),
          3 => binarr(1, 2, &[len as i32], &[], 2, &[]),
          4 => binarr(1, 0, &[len as i32], &[], 3, &s("A")),
          _ => binarr(1, 1, &[len as i32], &[], 7, &[2]),
        };
        let mut recs: Vec<Vec<u8>> = vec![cat(&[&[14], &int(run as i32)])];
        if (0..256).contains(&run) {
          recs.push(vec![13, run as u8]);
        }
        for rec in recs {
          let m = message(1, &cat(&[&head, &rec]));
          cx.msg(&m);
          cx.evals += 1;
          if d == 0 {
            expect_ok(&m, &MM::Value(MV::Arr(vec![MV::Null; len])))?;
          } else {
            expect_err(&m, "a null run does not fit the array")?;
          }
          // the rest in single records
          if d < 0 && run > 0 {
            let m = message(1, &cat(&[&head, &rec, &vec![10; (-d) as usize]]));
            cx.evals += 1;
            expect_ok(&m, &MM::Value(MV::Arr(vec![MV::Null; len])))?;
          }
        }
        Ok(())
      }),
      enumerate("runs in place of class members", 256 * 4, |cx| {
        // a member is one null: a run of one is accepted, everything else is not
        let n = (cx.idx % 256) as i32;
        let head = match cx.idx / 256 {
          0 => cls(1, "A", &["a", "b"], None),
          1 => clst(1, "A", &[("a", 1, &[]), ("b", 2, &[])], None),
          2 => clst(1, "A", &[("a", 3, &s("B")), ("b", 7, &[2])], None),
          _ => cat(&[&cls(2, "A", &["a", "b"], None), &[10, 10], &cid(1, 2)]),
        };
        cx.nontrivial = true;
        for rec in [vec![13, n as u8], cat(&[&[14], &int(n)]), cat(&[&[14], &int(n << 8)])] {
          let one = rec == [13, 1] || rec == [14, 1, 0, 0, 0];
          for (m, both) in [
            (message(1, &cat(&[&head, &rec, &[10]])), false),
            (message(1, &cat(&[&head, &[10], &rec])), false),
            (message(1, &cat(&[&head, &rec])), true),
            (message(1, &cat(&[&head, &rec, &rec])), false),
          ] {
            cx.msg(&m);
            cx.evals += 1;
            if one && !both {
              expect_ok(&m, &MM::Value(obj("A", None, vec![("a", MV::Null), ("b", MV::Null)])))?;
            } else {
              expect_err(&m, "a null run in place of class members")?;
            }
          }
        }
        Ok(())
      }),
      phase("generated messages", 300 * K, 8000 * K, roundtrip(p1, tag::NULL_RUN)),
      phase("changed runs", 400 * K, 10000 * K, mutated(
        p2,
        |k| matches!(k, SK::Null256 | SK::NullMulti | SK::Len | SK::DimLen | SK::MemberRecType),
        0,
      )),
    ],
  }
}

// --- C11 -----------------------------------------------------------------------------------------------------------

fn c11() -> Check {
  let p = Profile {
    root: [6, 2, 0, 0],
    member: [2, 2, 1, 6, 4, 2],
    decl: [2, 1, 3, 2, 7, 1, 1, 1],
    lib: 220,
    extra_lib: 60,
    reuse: 60,
    refs: [6, 2, 1],
    budget: 60,
    ..Default::default()
  };
  let (p1, p2, p3) = (p.clone(), small(p.clone()), small(p.clone()));
  let pairs = near_pairs();
  Check {
    id: "C11",
    rule: "generated graphs of classes of several libraries, defined before their first use at the top level, before members, arrays and method records, used by any later record; changes to the library IDs, names and definitions decided by the reference decoder; non-trivial: has a class with a library, or the changed message is specified",
    assumptions: vec!["at most the number of libraries the grammar allows precede a record"],
    phases: vec![
      phase("libraries", 600 * K, 15000 * K, roundtrip(p1, tag::LIBCLASS)),
      phase("changed libraries", 600 * K, 15000 * K, mutated(p2, |k| matches!(k, SK::LibDef | SK::LibUse | SK::LibName), 0)),
      phase("changed structure", 200 * K, 5000 * K, mutated(p3, |k| k == SK::LibUse, 255)),
      enumerate("names which are nearly the same", pairs.len() as u64, move |cx| {
        // two libraries, used in the other order than they are defined, and by declared members
        let (a, b) = &pairs[cx.idx as usize];
        let m = message(1, &cat(&[
          &lib(7, a),
          &cls(2, "A", &[], Some(7)),
          &lib(6, b),
          &objarr(1, 5),
          &cls(3, "B", &[], Some(6)),
          &cls(4, "A", &[], Some(7)),
          &clst(5, "C", &[("a", 4, &cat(&[&s("A"), &int(7)])), ("b", 4, &cat(&[&s("B"), &int(6)]))], Some(6)),
          &cls(8, "A", &[], Some(7)),
          &cid(9, 3),
          &cid(10, 2),
          &cid(11, 3),
        ]));
        let (x, y) = (obj("A", Some(a), vec![]), obj("B", Some(b), vec![]));
        let want = MV::Arr(vec![
          y.clone(),
          x.clone(),
          obj("C", Some(b), vec![("a", x.clone()), ("b", y.clone())]),
          x,
          y,
        ]);
        cx.msg(&m);
        cx.nontrivial = true;
        accepted(&m, &MM::Value(want))
      }),
      phase("many libraries", 60 * K, 1000 * K, |cx| {
        // classes which use their libraries in another order than they are defined
        let t = &mut cx.t;
        let n = 1 + t.below(12);
        let ids: Vec<i32> = (0..n).map(|i| 100 + (i as i32) * 7 + t.below(7) as i32).collect();
        let mut b = vec![];
        for i in 0..n {
          b.extend(lib(ids[i], &format!("Lib{i}")));
          b.extend(cls(500 + i as i32, "D", &[], Some(ids[t.below(i + 1)])));
        }
        let m = 1 + t.below(12);
        let mut items = vec![];
        b.extend(objarr(1, m as i32));
        let dup = t.chance(40);
        for k in 0..m {
          let u = t.below(n);
          b.extend(cls(600 + k as i32, "C", &["i"], Some(ids[u])));
          b.extend([8, 2, k as u8]);
          items.push(obj("C", Some(&format!("Lib{u}")), vec![("i", MV::Byte(k as u8))]));
        }
        if dup {
          b.extend(lib(ids[t.below(n)], *t.of(&["Lib0", "Other"])));
          b.extend(objarr(9000, 0));
        }
        let m = message(1, &b);
        cx.msg(&m);
        cx.nontrivial = true;
        if dup { expect_err(&m, "a library ID is defined twice") } else { accepted(&m, &MM::Value(MV::Arr(items))) }
      }),
    ],
  }
}

// --- C12 -----------------------------------------------------------------------------------------------------------

/// The declared types tried, as binary type and additional information.
pub fn declared() -> Vec<(u8, Vec<u8>)> {
  let mut v = vec![];
  for p in PRIMS {
    v.push((0, vec![p as u8]));
  }
  v.push((1, vec![]));
  v.push((2, vec![]));
  v.push((3, s("S")));
  v.push((4, cat(&[&s("C"), &int(50)])));
  v.push((5, vec![]));
  v.push((6, vec![]));
  for p in [P::I32, P::Byte, P::Char] {
    v.push((7, vec![p as u8]));
  }
  v
}
/// What is put in the place of the member: the bytes there, and the records which follow the object.
pub fn supplied() -> Vec<(Vec<u8>, Vec<u8>)> {
  let mut v: Vec<(Vec<u8>, Vec<u8>)> = vec![];
  for p in PRIMS {
    let x = match p {
      P::Bool => MV::Bool(true),
      P::Byte => MV::Byte(12),
      P::Char => MV::Char('x'),
      P::Dec => MV::Dec("1.5".into()),
      P::Double => MV::Double(1.5f64.to_bits()),
      P::I16 => MV::I16(12),
      P::I32 => MV::I32(-12),
      P::I64 => MV::I64(12),
      P::SByte => MV::SByte(-1),
      P::Single => MV::Single(1.5f32.to_bits()),
      P::TimeSpan => MV::TimeSpan(5),
      P::DateTime => MV::DateTime(6),
      P::U16 => MV::U16(7),
      P::U32 => MV::U32(8),
      P::U64 => MV::U64(9),
    };
    let mut raw = vec![];
    x.encode_prim(&mut raw);
    v.push((raw, vec![]));
    v.push((typed(p, &x), vec![]));
  }
  v.push((vec![8, 17], vec![]));
  v.push((vec![8, 18, 1, b'x'], vec![]));
  v.push((vec![8, 4], vec![]));
  v.push((strobj(60, "text"), vec![]));
  v.push((vec![10], vec![]));
  v.push((vec![13, 1], vec![]));
  v.push((vec![14, 1, 0, 0, 0], vec![]));
  v.push((vec![13, 2], vec![]));
  v.push((vec![14, 2, 0, 0, 0], vec![]));
  v.push((vec![13, 0], vec![]));
  for name in ["S", "C", "X"] {
    for l in [None, Some(50), Some(51), Some(52)] {
      v.push((cat(&[&cls(60, name, &["k"], l), &[10]]), vec![]));
      v.push((cat(&[&clst(60, name, &[("k", 0, &[2])], l), &[9]]), vec![]));
      // by reference
      v.push((mref(60), cat(&[&cls(60, name, &["k"], l), &[10]])));
    }
  }
  // metadata of a system class S and of a class C of library 50
  v.push((cat(&[&cid(60, 40), &[10]]), vec![]));
  v.push((cat(&[&cid(60, 41), &[10]]), vec![]));
  v.push((mref(60), strobj(60, "later")));
  v.push((mref(60), cat(&[&objarr(60, 1), &[10]])));
  v.push((mref(60), cat(&[&strarr(60, 1), &[10]])));
  v.push((mref(60), primarr(60, P::I32, &[MV::I32(1)])));
  v.push((mref(60), primarr(60, P::Byte, &[MV::Byte(1)])));
  v.push((mref(60), cat(&[&binarr(60, 0, &[1], &[], 2, &[]), &[10]])));
  v.push((mref(42), vec![]));
  v.push((mref(43), vec![]));
  v.push((mref(70), vec![]));
  v.push((objarr(60, 0), vec![]));
  v.push((strarr(60, 0), vec![]));
  v.push((primarr(60, P::I32, &[]), vec![]));
  v.push((cat(&[&lib(55, "Extra"), &[10]]), vec![]));
  v.push((cat(&[&lib(55, "Extra"), &mref(42)]), vec![]));
  v.push((cat(&[&lib(55, "Extra"), &strobj(60, "text")]), vec![]));
  v.push((cat(&[&lib(55, "Extra"), &cls(60, "C", &[], Some(50))]), vec![]));
  v.push((cat(&[&lib(55, "L"), &cls(60, "C", &[], Some(55))]), vec![]));
  v.push((vec![11], vec![]));
  v.push((vec![], vec![]));
  v
}

fn c12() -> Check {
  let p = Profile {
    typed: 255,
    root: [6, 3, 0, 0],
    arr: [1, 0, 1, 6],
    decl: [3, 3, 3, 4, 4, 3, 3, 3],
    budget: 60,
    max_members: 8,
    reuse: 80,
    ..Default::default()
  };
  let (p1, p2, p3) = (p.clone(), small(p.clone()), small(p.clone()));
  const CONTAINERS: u64 = 6;
  let (nd, ns) = (declared().len() as u64, supplied().len() as u64);
  let (d, sup) = (declared(), supplied());
  let pairs = near_pairs();
  Check {
    id: "C12",
    rule: "every declared type (8 kinds, every primitive type) times more than 80 ways to fill the member (each record kind, right and wrong primitive, class, library, run of nulls, reference) times 6 containers (typed classes with and without library, reused metadata, binary arrays), decided by the reference decoder; generated typed messages; non-trivial: specified",
    assumptions: vec![
      "the class of an object behind a reference is not compared with the declared type (unspecified)",
      "an inline value in place of a declared object or string array is unspecified",
    ],
    phases: vec![
      enumerate("declared type by supplied record", nd * ns * CONTAINERS, move |cx| {
        let i = cx.idx;
        let (bt, info) = &d[(i % nd) as usize];
        let (inline, after) = &sup[(i / nd % ns) as usize];
        let c = i / nd / ns;
        // two libraries of different names, an object of each kind of metadata, two strings and arrays
        let pre = cat(&[
          &lib(50, "L"),
          &cls(40, "S", &["k"], None),
          &[10],
          &lib(51, "M"),
          &cls(41, "C", &["k"], Some(50)),
          &[10],
          &strobj(42, "early"),
          &objarr(43, 0),
        ]);
        let body = match c {
          0 => cat(&[&clst(1, "A", &[("a", *bt, info)], None), inline]),
          1 => cat(&[&clst(1, "A", &[("x", 0, &[2]), ("a", *bt, info), ("y", 0, &[2])], Some(51)), &[12], inline, &[12]]),
          2 => cat(&[&clst(2, "A", &[("a", *bt, info)], None), &filler(*bt, info), &cid(1, 2), inline]),
          3 => cat(&[&binarr(1, 0, &[1], &[], *bt, info), inline]),
          4 => cat(&[&binarr(1, 3, &[2], &[-1], *bt, info), inline, &filler(*bt, info)]),
          _ => cat(&[&binarr(1, 2, &[1, 2], &[], *bt, info), &filler(*bt, info), inline]),
        };
        let m = message(1, &cat(&[&pre, &body, after]));
        decide(cx, &m)
      }),
      enumerate("names which are nearly the declared one", pairs.len() as u64 * 10, move |cx| {
        let (a, b) = &pairs[(cx.idx / 10) as usize];
        let k = cx.idx % 10;
        let (a, b) = if k & 1 == 0 { (a, b) } else { (b, a) };
        // what is declared, and the record which is there
        let (bt, info, record) = match k / 2 {
          0 => (3, s(a), cls(60, b, &[], None)),
          1 => (4, cat(&[&s(a), &int(50)]), cls(60, b, &[], Some(50))),
          2 => (4, cat(&[&s("C"), &int(50)]), cls(60, "C", &[], Some(51))),
          3 => (4, cat(&[&s("C"), &int(51)]), cls(60, "C", &[], Some(50))),
          _ => (4, cat(&[&s("C"), &int(50)]), cid(60, 41)),
        };
        let pre = cat(&[&lib(50, a), &cls(40, "D", &[], Some(50)), &lib(51, b), &cls(41, "C", &[], Some(51))]);
        let body = match cx.idx / 10 % 3 {
          0 => clst(1, "A", &[("a", bt, &info)], None),
          1 => binarr(1, 0, &[1], &[], bt, &info),
          _ => cat(&[&clst(1, "A", &[("x", 0, &[2]), ("a", bt, &info)], Some(51)), &[12]]),
        };
        let m = message(1, &cat(&[&pre, &body, &record]));
        cx.msg(&m);
        cx.nontrivial = true;
        match decode(&m) {
          Verdict::Reject(_) => expect_err(&m, "an object of another class or library than declared"),
          v => Err(format!("harness: an object of another class decoded as {v:?}")),
        }
      }),
      phase("typed messages", 500 * K, 15000 * K, roundtrip(
        p1,
        tag::TYPED_CLASS_MEMBER | tag::TYPED_SYS_MEMBER | tag::TYPED_ARR_MEMBER | tag::PRIM_UNTYPED | tag::STR_MEMBER,
      )),
      phase("changed types", 500 * K, 15000 * K, mutated(
        p2,
        |k| matches!(k, SK::BinType | SK::PrimType | SK::TypeName | SK::MemberRecType | SK::RecType | SK::ClassName),
        0,
      )),
      phase("changed members", 200 * K, 5000 * K, mutated(p3, |k| matches!(k, SK::MemberRecType | SK::PrimVal(_)), 140)),
    ],
  }
}
/// A valid value of the declared type.
fn filler(bt: u8, info: &[u8]) -> Vec<u8> {
  if bt != 0 {
    return vec![10];
  }
  let mut o = vec![];
  match info[0] {
    1 | 2 | 10 => o.push(0),
    3 => o.push(b'f'),
    5 => o.extend([1, b'3']),
    7 | 14 => o.extend([0; 2]),
    8 | 11 | 15 => o.extend([0; 4]),
    _ => o.extend([0; 8]),
  }
  o
}

// --- C13, C14 ------------------------------------------------------------------------------------------------------

fn methods(is_return: bool) -> Profile {
  Profile {
    msg: if is_return { [0, 0, 1] } else { [0, 1, 0] },
    pool: 2,
    trailing: 2,
    budget: 30,
    args: [1, 1, 4, 4, 4],
    ..Default::default()
  }
}

fn c13() -> Check {
  let p = methods(false);
  let (p1, p2, p3) = (p.clone(), small(p.clone()), small(p.clone()));
  Check {
    id: "C13",
    rule: "generated method calls with every way to pass arguments and the call context, between other objects; changes to codes, flags, counts, values and the call array decided by the reference decoder; non-trivial: a method call, or the changed message is specified",
    assumptions: vec!["what the call array contains beyond the arguments is not visible to a user and not compared"],
    phases: vec![
      phase("method calls", 500 * K, 15000 * K, roundtrip(p1, tag::CALL)),
      phase("changed calls", 600 * K, 15000 * K, mutated(
        p2,
        |k| {
          matches!(
            k,
            SK::Code
              | SK::StrCode
              | SK::Flags
              | SK::ArgCount
              | SK::RootId
              | SK::ObjId
              | SK::RecType
              | SK::Len
              | SK::PrimVal(_)
              | SK::StrLen
              | SK::StrBytes
          )
        },
        30,
      )),
      phase("changed structure", 200 * K, 5000 * K, mutated(p3, |k| k == SK::RecType, 255)),
      phase("arguments", 100 * K, 3000 * K, |cx| arguments(cx, false)),
      phase("further flags", 100 * K, 3000 * K, idle_flags(methods(false))),
    ],
  }
}
fn c14() -> Check {
  let p = methods(true);
  let (p1, p2, p3) = (p.clone(), small(p.clone()), small(p.clone()));
  Check {
    id: "C14",
    rule: "generated method returns with every way to return a value, output arguments and the call context, between other objects; changes to codes, flags, counts, values and the call array decided by the reference decoder; non-trivial: a method return, or the changed message is specified",
    assumptions: vec!["a return value in the call array is excluded (known finding K4)"],
    phases: vec![
      phase("method returns", 500 * K, 15000 * K, roundtrip(p1, tag::RETURN)),
      phase("changed returns", 600 * K, 15000 * K, mutated(
        p2,
        |k| {
          matches!(
            k,
            SK::Code
              | SK::StrCode
              | SK::Flags
              | SK::ArgCount
              | SK::RootId
              | SK::ObjId
              | SK::RecType
              | SK::Len
              | SK::PrimVal(_)
              | SK::StrLen
              | SK::StrBytes
          )
        },
        30,
      )),
      phase("changed structure", 200 * K, 5000 * K, mutated(p3, |k| k == SK::RecType, 255)),
      phase("arguments", 100 * K, 3000 * K, |cx| arguments(cx, true)),
      phase("further flags", 100 * K, 3000 * K, idle_flags(methods(true))),
    ],
  }
}

/// Flags which the grammar has no use for in this record: such a message may be rejected, but if it is not, then what it
/// is parsed as is what was written.
fn idle_flags(p: Profile) -> impl Fn(&mut Cx) -> Res + Sync + Send + 'static {
  move |cx| {
    let c = generate(&mut cx.t, &p);
    cx.msg(&c.bytes);
    let Some(site) = c.sites.iter().find(|s| s.kind == SK::Flags) else { return Ok(()) };
    let at = site.off..site.off + 4;
    let f = u32::from_le_bytes(c.bytes[at.clone()].try_into().unwrap());
    let idle: &[u32] = match c.expected {
      MM::Call { .. } => &[0x100, 0x80, 0x8000, 0x200, 0x400, 0x800, 0x2000, 0x4000, 0x10000, 0x4000_0000, 0x8000_0000],
      _ => &[0x100, 0x80, 0x8000, 0x4000, 0x10000, 0x4000_0000, 0x8000_0000],
    };
    let mut g = f | *cx.t.of(idle);
    while cx.t.chance(90) {
      g |= *cx.t.of(idle);
    }
    let both = |a: u32, b: u32| g & a != 0 && g & b != 0;
    // what is contradictory is the subject of C15
    if (g & 0x1E00).count_ones() > 1 || both(0x1E00, 0x2080) || both(0x80, 0x2000) || both(0xF, 0x2000) {
      return Ok(());
    }
    let mut b = c.bytes.clone();
    b[at].copy_from_slice(&g.to_le_bytes());
    cx.msg(&b);
    match RemotingMessage::parse(&b) {
      Ok(m) => {
        cx.label("accepted with further flags");
        cx.nontrivial = true;
        cmp_message(&m, &c.expected).map_err(|e| format!("with the flags {g:#x} instead of {f:#x}: {e}"))
      },
      Err(_) => {
        cx.label("rejected with further flags");
        Ok(())
      },
    }
  }
}

/// The same arguments passed inline, as the call array and in the call array.
fn arguments(cx: &mut Cx, ret: bool) -> Res {
  let t = &mut cx.t;
  let n = if t.chance(10) { t.below(400) } else { t.below(10) };
  let mut vals = vec![];
  let (mut inline, mut members) = (vec![], vec![]);
  for i in 0..n {
    match t.below(8) {
      0 => {
        inline.push(17);
        members.push(10);
        vals.push(MV::Null);
      },
      1 => {
        let text = gen_string(t, 4);
        inline.push(18);
        inline.extend(s(&text));
        members.extend(strobj(100 + i as i32, &text));
        vals.push(MV::Str(text));
      },
      _ => {
        let p = *t.of(&PRIMS);
        let v = gen_prim(t, p);
        inline.push(p as u8);
        v.encode_prim(&mut inline);
        members.extend(typed(p, &v));
        vals.push(v);
      },
    }
  }
  let ctx = t.chance(100).then(|| gen_string(t, 0));
  let rv = (ret && t.chance(128)).then(|| {
    let p = *t.of(&PRIMS);
    (p, gen_prim(t, p))
  });
  let extra = t.below(3);
  for mode in 0..3 {
    let flags = [2, 4, 8][mode]
      | if ctx.is_some() { 0x20 } else { 0x10 }
      | if !ret {
        0
      } else if rv.is_some() {
        0x800
      } else {
        0x200
      };
    let mut b = vec![if ret { 22 } else { 21 }];
    b.extend(int(flags));
    if let Some((p, v)) = &rv {
      b.push(*p as u8);
      v.encode_prim(&mut b);
    }
    if !ret {
      b.extend(cat(&[&[18], &s("m"), &[18], &s("t")]));
    }
    if let Some(c) = &ctx {
      b.push(18);
      b.extend(s(c));
    }
    match mode {
      0 => {
        b.extend(int(n as i32));
        b.extend(&inline);
      },
      1 => {
        b.extend(objarr(1, n as i32));
        b.extend(&members);
      },
      _ => {
        b.extend(objarr(1, 1 + extra as i32));
        b.extend(mref(2));
        b.extend(vec![10; extra]);
        b.extend(objarr(2, n as i32));
        b.extend(&members);
      },
    }
    let m = message(1, &b);
    cx.msg(&m);
    cx.evals += 1;
    cx.nontrivial = true;
    let want = if ret {
      MM::Return { ret: rv.as_ref().map(|r| r.1.clone()), ctx: ctx.clone(), args: Some(vals.clone()) }
    } else {
      MM::Call { method: "m".into(), type_name: "t".into(), ctx: ctx.clone(), args: Some(vals.clone()) }
    };
    accepted(&m, &want)?;
    if mode > 0 {
      // the call array has to be the root object
      let m = message(3, &b);
      cx.evals += 1;
      expect_err(&m, "the call array is not the root object")?;
    }
  }
  Ok(())
}

// --- C15 -----------------------------------------------------------------------------------------------------------

fn c15() -> Check {
  Check {
    id: "C15",
    rule: "every combination of the 16 lower flag bits for method calls and method returns, with the contents the flags ask for, once complete and once without the call array; expected verdict computed from the categories of 2.2.2.6; combinations with undefined bits drawn at random are only required not to be accepted when they break a rule; non-trivial: the combination is specified",
    assumptions: vec![
      "flags of a return value in a call and of the signature or generic arguments in a return are unspecified unless they break a rule",
      "undefined bits are unspecified",
    ],
    phases: vec![
      enumerate("all flag combinations", 65536 * 2, |cx| {
        let f = (cx.idx & 0xffff) as u32;
        let is_return = cx.idx >> 16 == 1;
        flags(cx, f, is_return)
      }),
      phase("undefined bits", 50 * K, 1000 * K, |cx| {
        let f = cx.t.u32();
        let is_return = cx.t.chance(128);
        flags(cx, f, is_return)
      }),
    ],
  }
}

fn flags(cx: &mut Cx, f: u32, is_return: bool) -> Res {
  let mut b = vec![if is_return { 22 } else { 21 }];
  b.extend(int(f as i32));
  let mut ret = None;
  if is_return {
    if f & 0x800 != 0 {
      b.extend([2, 5]);
      ret = Some(MV::Byte(5));
    }
  } else {
    b.extend(cat(&[&[18], &s("m"), &[18], &s("t")]));
  }
  let ctx = (f & 0x20 != 0).then(|| {
    b.extend(cat(&[&[18], &s("c")]));
    "c".to_string()
  });
  let mut args = None;
  if f & 2 != 0 {
    b.extend(cat(&[&int(2), &[2, 6, 17]]));
    args = Some(vec![MV::Byte(6), MV::Null]);
  }
  let without = message(1, &b);
  let call_array = f & 0xB1CC != 0;
  if call_array {
    if f & 8 != 0 {
      b.extend(cat(&[&objarr(1, 3), &mref(2), &[10, 10], &objarr(2, 1), &[8, 2, 7]]));
      args = Some(vec![MV::Byte(7)]);
    } else {
      // as many items as no list of flags could suggest
      let n = (f.wrapping_mul(0x9E37_79B9) >> 30) as i32;
      b.extend(objarr(1, n));
      (0..n).for_each(|i| b.extend(if i % 2 == 0 { vec![8, 2, 8 + i as u8] } else { vec![10] }));
      if f & 4 != 0 {
        args = Some((0..n).map(|i| if i % 2 == 0 { MV::Byte(8 + i as u8) } else { MV::Null }).collect());
      }
    }
  }
  let m = message(1, &b);
  cx.msg(&m);
  let several = |mask: u32| (f & mask).count_ones() > 1;
  let both = |a: u32, b: u32| f & a != 0 && f & b != 0;
  let (a, c, r, sg, x) = (0xF, 0x70, 0x1E00, 0x80, 0x2000);
  let invalid = several(a) || several(c) || several(r) || both(a, x) || both(r, x) || both(r, sg) || both(x, sg);
  if invalid {
    cx.nontrivial = true;
    cx.label("contradictory flags");
    expect_err(&m, "contradictory flags")?;
    cx.evals += 1;
    return expect_err(&without, "contradictory flags");
  }
  let gray = f & !0xBFFF != 0
    || !is_return && f & (r | x) != 0
    || is_return && f & (sg | 0x8000) != 0
    || f & 0x1000 != 0;
  if gray {
    cx.label("unspecified (skipped)");
    return Ok(());
  }
  cx.nontrivial = true;
  cx.label("consistent flags");
  let want = if is_return {
    MM::Return { ret, ctx, args }
  } else {
    MM::Call { method: "m".into(), type_name: "t".into(), ctx, args }
  };
  accepted(&m, &want)?;
  if f & 0xC != 0 {
    cx.evals += 1;
    expect_err(&without, "the call array is missing")?;
  }
  Ok(())
}

// --- C16 -----------------------------------------------------------------------------------------------------------

fn c16() -> Check {
  let p = Profile { pool: 2, trailing: 1, ..Default::default() };
  let (p1, p2, p3) = (small(p.clone()), p.clone(), p.clone());
  Check {
    id: "C16",
    rule: "every ID, reference and count field of generated messages replaced by 0, -1, the smallest and largest integer, its neighbours, its negation and the other IDs of the message, decided by the reference decoder; boundary IDs in well-formed messages; non-trivial: the changed message is specified",
    assumptions: vec!["duplicate IDs of arrays and strings are unspecified"],
    phases: vec![
      phase("boundary values in every field", 15 * K, 500 * K, move |cx| {
        let c = generate(&mut cx.t, &p1);
        every_field(cx, &c)
      }),
      phase("changed fields", 500 * K, 15000 * K, mutated(p2, |k| mutate::ids(k) || mutate::counts(k), 0)),
      phase("unusual IDs", 200 * K, 5000 * K, roundtrip(p3, !0)),
    ],
  }
}

fn every_field(cx: &mut Cx, c: &Case) -> Res {
  let int_sites: Vec<&Site> =
    c.sites.iter().filter(|s| s.len == 4 && (mutate::ids(s.kind) || mutate::counts(s.kind))).collect();
  let others: Vec<i32> = int_sites
    .iter()
    .filter(|s| mutate::ids(s.kind))
    .map(|s| i32::from_le_bytes(c.bytes[s.off..s.off + 4].try_into().unwrap()))
    .collect();
  let mut m = c.bytes.clone();
  for s in int_sites.iter().take(60) {
    let old = i32::from_le_bytes(c.bytes[s.off..s.off + 4].try_into().unwrap());
    let mut vals =
      vec![0, -1, i32::MIN, i32::MAX, old.wrapping_add(1), old.wrapping_sub(1), old.wrapping_neg(), old | i32::MIN];
    if mutate::ids(s.kind) && !others.is_empty() {
      vals.push(*cx.t.of(&others));
      vals.push(*cx.t.of(&others));
    }
    for v in vals {
      if v == old {
        continue;
      }
      m[s.off..s.off + 4].copy_from_slice(&v.to_le_bytes());
      cx.evals += 1;
      decide(cx, &m)?;
    }
    m[s.off..s.off + 4].copy_from_slice(&old.to_le_bytes());
  }
  for s in c.sites.iter().filter(|s| s.kind == SK::Null256) {
    let old = m[s.off];
    for v in [0, 1, 2, 255, old.wrapping_add(1), old.wrapping_sub(1)] {
      m[s.off] = v;
      cx.evals += 1;
      decide(cx, &m)?;
    }
    m[s.off] = old;
  }
  Ok(())
}

// --- C23 -----------------------------------------------------------------------------------------------------------

fn error_text(bytes: &[u8]) -> Result<String, String> {
  match RemotingMessage::parse(bytes) {
    Ok(m) => Err(format!("a malformed message was accepted as {m:?}")),
    Err(e) => Ok(e.to_string()),
  }
}
pub const FAULTS: usize = 40;
/// A message with a single fault, and what the error has to say.
pub fn fault(t: &mut crate::tape::Tape, f: usize) -> (Vec<u8>, &'static str) {
  let neg = |t: &mut crate::tape::Tape| if t.chance(128) { -1 - (t.u32() & 0x7fff_fffe) as i32 } else { -1 };
  let nonpos = |t: &mut crate::tape::Tape| if t.chance(100) { 0 } else { -1 - (t.u32() & 0x7fff_fffe) as i32 };
  let text = gen_string(t, 2);
  let id = 2 + (t.u16() as i32);
  // well-formed records before the faulty one
  let mut pre = vec![];
  for i in 0..t.below(3) {
    match t.below(3) {
      0 => pre.extend(strobj(900000 + i as i32, &text)),
      1 => pre.extend(cat(&[&objarr(900000 + i as i32, 1), &[10]])),
      _ => pre.extend(cls(900000 + i as i32, &text, &[], None)),
    }
  }
  let msg = |b: &[u8]| message(1, &cat(&[&pre, b]));
  let bad_header = |r: i32, ma: i32, mi: i32| cat(&[&[0], &int(r), &int(-1), &int(ma), &int(mi), &strobj(1, "x"), &[11]]);
  let prim_array = |t: &[u8]| message(1, &cat(&[&pre, &[15], &int(1), &int(1), t]));
  let other = |t: &mut crate::tape::Tape, not: i32| {
    let v = t.u32() as i32;
    if v == not { v.wrapping_add(1) } else { v }
  };
  match f {
    0 => {
      // cut within a fixed-width field of a record
      let n = 1 + t.below(16);
      (header(1)[..n].to_vec(), "expected an INT32")
    },
    1 => {
      let mut m = msg(&strobj(1, &text));
      let n = 1 + t.below(5);
      m.extend((0..n).map(|_| t.u8()));
      (m, "unexpected trailing data")
    },
    2 => (bad_header(neg(t), 1, 0), "invalid root ID"),
    3 => (bad_header(1, other(t, 1), 0), "invalid major version"),
    4 => (bad_header(1, 1, other(t, 0)), "invalid minor version"),
    5 => (message(id, &cat(&[&pre, &strobj(1, &text)])), "missing root object"),
    6 => {
      let mut m = header(1);
      m[0] = 1 + t.below(255) as u8;
      (m, "expected a SerializedStreamHeader")
    },
    7 => (msg(&cat(&[&objarr(1, 2), &[13, 0], &[10, 10]])), "invalid NULL count"),
    8 => (msg(&cat(&[&objarr(1, 2), &[14], &int(nonpos(t)), &[10, 10]])), "invalid NULL count"),
    9 => (msg(&cat(&[&objarr(1, 2), &[13, 3 + t.below(200) as u8]])), "invalid NULL count"),
    10 => (msg(&cat(&[&strarr(1, 2), &[10, 14], &int(2 + t.u16() as i32)])), "invalid NULL count"),
    11 => (msg(&cat(&[&cls(1, "A", &["a", "b"], None), &[13, 2 + t.below(250) as u8, 10]])), "invalid NULL count"),
    12 => (msg(&strobj(nonpos(t), &text)), "invalid object ID"),
    13 => (msg(&objarr(nonpos(t), 0)), "invalid object ID"),
    14 => (msg(&strarr(nonpos(t), 0)), "invalid object ID"),
    15 => (msg(&primarr(nonpos(t), P::Byte, &[])), "invalid object ID"),
    16 => (msg(&binarr(nonpos(t), 0, &[0], &[], 1, &[])), "invalid object ID"),
    17 => (msg(&cat(&[&objarr(1, 1), &mref(nonpos(t))])), "invalid object ID"),
    18 => (msg(&cat(&[&cls(1, "A", &[], None), &cls(1, "B", &[], None)])), "duplicate object ID"),
    19 => (msg(&objarr(1, neg(t))), "invalid length"),
    20 => (msg(&binarr(1, 0, &[neg(t)], &[], 1, &[])), "invalid length"),
    21 => (msg(&cat(&[&[7], &int(1), &[0], &int(neg(t)), &[0; 8]])), "invalid length"),
    22 => (msg(&cat(&[&[15], &int(1), &int(neg(t)), &[2]])), "invalid length"),
    23 => (msg(&cat(&[&cls(1, "A", &[], None), &cid(2, 3)])), "missing metadata ID"),
    24 => (msg(&cat(&[&cls(1, "A", &[], None), &cid(2, 2)])), "invalid metadata ID"),
    25 => (msg(&cls(1, &text, &["a"], Some(id))), "missing library ID"),
    26 => (msg(&cat(&[&lib(nonpos(t), &text), &cls(1, "A", &[], None)])), "invalid library ID"),
    27 => (
      msg(&cat(&[&lib(id, "L"), &cls(3, "A", &[], Some(id)), &lib(id, "M"), &cls(1, "A", &[], Some(id))])),
      "duplicate library ID",
    ),
    28 => {
      let b = 2 + t.below(254) as u8;
      (prim_array(&[1, b]), "expected a BOOLEAN")
    },
    29 => {
      let bad = *t.of(&mutate::BAD_UTF8);
      (message(1, &cat(&[&pre, &[15], &int(1), &int(1), &[3], bad])), "expected a CHAR")
    },
    30 => {
      let mut e = vec![];
      put_str(&mut e, t.of(&["", "x", "1.2.3", "--1", "NaN", "1 2"]).as_bytes());
      (prim_array(&cat(&[&[5], &e])), "expected a Decimal")
    },
    31 => {
      let p = *t.of(&[0u8, 4, 19, 20, 200, 255]);
      (prim_array(&[p, 0]), "expected PrimitiveType")
    },
    32 => {
      let b = 8 + t.below(248) as u8;
      (msg(&binarr(1, 0, &[0], &[], b, &[])), "expected BinaryType")
    },
    33 => {
      let b = 6 + t.below(250) as u8;
      (msg(&binarr(1, b, &[0], &[], 1, &[])), "expected BinaryArrayType")
    },
    34 => {
      let f = *t.of(&[0x3, 0x6, 0x30, 0x600, 0x2001, 0x2200, 0x280, 0x2080, 0xC, 0x70, 0xA00]);
      (msg(&cat(&[&[21], &int(f), &[18], &s("m"), &[18], &s("t"), &[18], &s("c")])), "invalid MessageFlags")
    },
    35 => (
      message(id, &cat(&[&[21], &int(0x14), &[18], &s("m"), &[18], &s("t"), &objarr(1, 0)])),
      "invalid call array ID",
    ),
    36 => (
      message(1, &cat(&[&[21], &int(0x18), &[18], &s("m"), &[18], &s("t"), &objarr(1, 1), &[10]])),
      "invalid method arguments",
    ),
    37 => (message(1, &cat(&[&[21], &int(0x14), &[18], &s("m"), &[18], &s("t")])), "invalid method arguments"),
    38 => {
      let r = *t.of(&[8u8, 9, 10, 13, 14, 18, 19, 20, 23, 24, 100, 255]);
      (msg(&cat(&[&strobj(1, "x"), &[r]])), "expected a MessageEnd")
    },
    _ => {
      let (l, c) = (t.chance(128), t.chance(128));
      // a declared system class or class, and an inline object of another one
      let inline = if c { cls(3, "B", &[], l.then_some(50)) } else { cls(3, "X", &[], if l { None } else { Some(50) }) };
      let ty = if l { (3, s("B")) } else { (4, cat(&[&s("B"), &int(50)])) };
      (msg(&cat(&[&lib(50, "L"), &clst(1, "A", &[("a", ty.0, &ty.1)], None), &inline])), "unexpected class")
    },
  }
}

/// What the faults of `crate::faults` are.
const FAULT_LABELS: [&str; crate::faults::FAULTS] = [
  "invalid library ID in any record",
  "missing library in any record",
  "duplicate library before any class",
  "invalid object ID in any record",
  "duplicate object ID in any class",
  "missing metadata",
  "invalid metadata",
  "invalid length in any record",
  "unknown binary type",
  "unknown primitive type",
  "unknown array kind",
  "invalid primitive in any place",
  "primitive cut short in any place",
  "too many nulls in any place",
  "no nulls in any place",
  "another class than declared",
  "record cut short within a number",
  "record cut short before a code",
];

fn c23() -> Check {
  Check {
    id: "C23",
    rule: "messages with exactly one fault: 18 kinds in every record and field, in any surroundings; 40 specific ones after well-formed records; with random contents; the text of the error has to name the fault; non-trivial: all",
    assumptions: vec!["only faults at places where the crate names one cause are claimed"],
    phases: vec![
    phase("single faults in any surroundings", 400 * K, 8000 * K, |cx| {
      let f = cx.t.below(crate::faults::FAULTS);
      let fault = crate::faults::fault(&mut cx.t, f);
      let m = crate::faults::place(&mut cx.t, &fault);
      cx.msg(&m);
      cx.nontrivial = true;
      cx.label(FAULT_LABELS[f]);
      let got = error_text(&m)?;
      if got != fault.want {
        return Err(format!("fault {f}, {:?} {}: expected the error {:?}, got {got:?}", fault.kind, hex(&fault.bytes), fault.want));
      }
      Ok(())
    }),
    phase("single faults", 400 * K, 8000 * K, |cx| {
      let f = cx.t.below(FAULTS);
      let (m, want) = fault(&mut cx.t, f);
      cx.msg(&m);
      cx.nontrivial = true;
      cx.label(want);
      let got = error_text(&m)?;
      if got != want {
        return Err(format!("fault {f}: expected the error {want:?}, got {got:?}"));
      }
      Ok(())
    })],
  }
}

// --- C26, C27, C28 -------------------------------------------------------------------------------------------------

fn c26() -> Check {
  let p = Profile { msg: [1, 0, 0], root: [5, 5, 1, 0], budget: 40, ..Default::default() };
  let p2 = Profile { root: [3, 6, 0, 0], strs: [6, 2, 2, 2], run: 120, ..p.clone() };
  let go = |p: Profile| {
    move |cx: &mut Cx| -> Res {
      let c = generate(&mut cx.t, &p);
      let MM::Value(v) = &c.expected else { return Ok(()) };
      cx.nontrivial = matches!(v, MV::Obj(_) | MV::Arr(_));
      for _ in 0..3 {
        let m = crate::encode::encode(&mut cx.t, v);
        cx.msg(&m);
        cx.evals += 1;
        accepted(&m, &c.expected)?;
      }
      Ok(())
    }
  };
  Check {
    id: "C26",
    rule: "a generated value is encoded three times by a second, independent encoder with different IDs, record kinds, definition orders, metadata and string sharing, null runs and length widths; each encoding has to give the value; non-trivial: the value is an object or an array",
    assumptions: vec!["restricted to the reference orders of C08"],
    phases: vec![
      phase("graphs", 200 * K, 6000 * K, go(p)),
      phase("arrays", 200 * K, 6000 * K, go(p2)),
    ],
  }
}

fn c27() -> Check {
  let p = Profile::default();
  let (p1, p2, p3, p4) = (p.clone(), small(p.clone()), small(p.clone()), small(p.clone()));
  Check {
    id: "C27",
    rule: "messages of the generator with up to four changes of any kind, two messages spliced at record boundaries, soups of record fragments; the reference decoder decides whether the message is accepted and as what; non-trivial: specified by the reference decoder",
    assumptions: vec!["the cases listed as unspecified in DESIGN.md are skipped and counted"],
    phases: vec![
      phase("well-formed", 300 * K, 10000 * K, roundtrip(p1, !0)),
      phase("one change", 700 * K, 20000 * K, mutated(p2, mutate::any, 90)),
      phase("several changes", 500 * K, 15000 * K, move |cx| {
        let c = generate(&mut cx.t, &p3);
        let n = 2 + cx.t.below(3);
        let m = mutate::mutate_many(&mut cx.t, &c.bytes, &c.sites, n);
        decide(cx, &m)
      }),
      phase("splices", 300 * K, 8000 * K, move |cx| {
        let a = generate(&mut cx.t, &p4);
        let b = generate(&mut cx.t, &p4);
        let cut = |t: &mut crate::tape::Tape, c: &Case| {
          let r: Vec<usize> = c
            .sites
            .iter()
            .filter(|s| matches!(s.kind, SK::RecType | SK::MemberRecType | SK::End))
            .map(|s| s.off)
            .collect();
          *t.of(&r)
        };
        let (i, j) = (cut(&mut cx.t, &a), cut(&mut cx.t, &b));
        let m = [&a.bytes[..i], &b.bytes[j.max(17)..]].concat();
        decide(cx, &m)
      }),
      phase("soup", 700 * K, 20000 * K, |cx| {
        let m = mutate::soup(&mut cx.t);
        decide(cx, &m)
      }),
    ],
  }
}

/// A text which identifies the result, independent of the order of hash maps.
pub fn canonical(bytes: &[u8]) -> String {
  fn value(v: &nrbf::Value<'_>, o: &mut String) {
    use nrbf::Value::*;
    match v {
      Object(x) => {
        o.push_str(&format!("{:?}/{:?}{{", x.class, x.library));
        let mut k: Vec<_> = x.members.iter().collect();
        k.sort_by_key(|m| m.0);
        for (n, v) in k {
          o.push_str(&format!("{n:?}:"));
          value(v, o);
        }
        o.push('}');
      },
      Array(a) => {
        o.push('[');
        a.iter().for_each(|v| {
          value(v, o);
          o.push(',');
        });
        o.push(']');
      },
      Double(d) => o.push_str(&format!("D{:x}", d.to_bits())),
      Single(d) => o.push_str(&format!("F{:x}", d.to_bits())),
      DateTime(d) => o.push_str(&format!("T{}.{}", d.ticks(), kind_no(d.kind()))),
      TimeSpan(d) => o.push_str(&format!("S{}", d.value())),
      x => o.push_str(&format!("{x:?}")),
    }
  }
  let mut o = String::new();
  match RemotingMessage::parse(bytes) {
    Ok(RemotingMessage::Value(v)) => {
      o.push_str("value ");
      value(&v, &mut o);
    },
    Ok(RemotingMessage::MethodCall(c)) => {
      o.push_str(&format!("call {:?} {:?} {:?} {}", c.method_name, c.type_name, c.call_context, c.args.is_some()));
      c.args.iter().flatten().for_each(|v| value(v, &mut o));
    },
    Ok(RemotingMessage::MethodReturn(c)) => {
      o.push_str(&format!("return {:?} {} {}", c.call_context, c.return_value.is_some(), c.args.is_some()));
      c.return_value.iter().for_each(|v| value(v, &mut o));
      c.args.iter().flatten().for_each(|v| value(v, &mut o));
    },
    Err(e) => o.push_str(&format!("error {e}")),
  }
  o
}

/// A message which may be well-formed or not, but does not declare a lot of nulls.
pub fn some_message(t: &mut crate::tape::Tape, p: &Profile) -> Option<Vec<u8>> {
  let c = generate(t, p);
  let m = match t.below(4) {
    0 | 1 => c.bytes,
    2 => mutate::mutate_many(t, &c.bytes, &c.sites, 1 + p.pool % 3),
    _ => mutate::soup(t),
  };
  let v = decode(&m);
  (!too_big(&m, &v)).then_some(m)
}

/// A valid message, a prefix of it and a changed one, parsed thousands of times on a thread which has parsed nothing
/// before: something which is not given back adds up.
fn long_history(cx: &mut Cx, p: &Profile, rounds: usize) -> Res {
  let c = generate(&mut cx.t, p);
  let cut = c.bytes[..cx.t.below(c.bytes.len())].to_vec();
  let mut msgs = vec![c.bytes, cut];
  let other = if cx.t.chance(128) { some_message(&mut cx.t, p) } else { Some(nest(&mut cx.t, 60).0) };
  if let Some(m) = other {
    let v = decode(&m);
    if !too_big(&m, &v) {
      msgs.push(m);
    }
  }
  if cx.t.chance(128) {
    msgs.swap(0, 1);
  }
  cx.msg(&msgs[0]);
  cx.nontrivial = true;
  cx.evals = (rounds * msgs.len()) as u64;
  let block = 1 + cx.t.below(60);
  let run = || -> Res {
    let first: Vec<String> = msgs.iter().map(|m| canonical(m)).collect();
    let ok: Vec<bool> = msgs.iter().map(|m| RemotingMessage::parse(m).is_ok()).collect();
    for r in 0..rounds {
      // in blocks of the same message, in turn
      let i = r / block % msgs.len();
      for k in [i, r % msgs.len()] {
        if RemotingMessage::parse(&msgs[k]).is_ok() != ok[k] {
          return Err(format!("the same bytes gave {:?} first and {:?} in round {r}", first[k], canonical(&msgs[k])));
        }
      }
      if r % 61 == 0 || r + 1 == rounds {
        for (m, f) in msgs.iter().zip(&first) {
          let g = canonical(m);
          if g != *f {
            return Err(format!("the same bytes gave {f:?} first and {g:?} in round {r}"));
          }
        }
      }
    }
    Ok(())
  };
  std::thread::scope(|s| {
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, run).expect("thread");
    t.join().unwrap_or_else(|_| Err("panicked".into()))
  })
}

fn c28() -> Check {
  let p = Profile { budget: 20, ..Default::default() };
  let (p1, p2, p3, p4) = (p.clone(), small(p.clone()), small(p.clone()), small(p.clone()));
  Check {
    id: "C28",
    rule: "histories of up to 40 parses of up to 8 different messages (and of 3000 to 70000 parses of three messages on a new thread) in any order, the bytes placed again and again in the same buffer, earlier results kept or dropped, some parses on other threads; each result has to be the one of the first parse of these bytes; non-trivial: some message is parsed at least twice with another one in between",
    assumptions: vec!["results are compared by their contents, the bits of floating point values, and the text of errors"],
    phases: vec![
      phase("long histories", 400, 8 * K, move |cx| long_history(cx, &p3, 3000)),
      phase("very long histories", 8, 200, move |cx| long_history(cx, &p4, 70_000)),
      phase("histories", 20 * K, 600 * K, move |cx| {
        let n = 2 + cx.t.below(7);
        let mut msgs: Vec<Vec<u8>> = vec![];
        for i in 0..n {
          if i > 0 && cx.t.chance(90) {
            // a variant of the previous message: the same length and IDs, other contents
            let mut m: Vec<u8> = msgs[i - 1].clone();
            let at = cx.t.below(m.len().max(1));
            if let Some(b) = m.get_mut(at) {
              *b = cx.t.u8();
            }
            let v = decode(&m);
            if too_big(&m, &v) {
              m = msgs[i - 1].clone();
            }
            msgs.push(m);
          } else if let Some(m) = some_message(&mut cx.t, &p1) {
            msgs.push(m);
          } else {
            msgs.push(header(0));
          }
        }
        // what each message means, in a thread of its own which has parsed nothing before
        let fresh = cx.t.chance(10);
        let first: Vec<String> = if fresh {
          std::thread::scope(|s| {
            msgs.iter().map(|m| s.spawn(move || canonical(m)).join().unwrap_or_else(|_| "panic".into())).collect()
          })
        } else {
          msgs.iter().map(|m| canonical(m)).collect()
        };
        let cap = msgs.iter().map(|m| m.len()).max().unwrap_or(0);
        let mut buffer = vec![0u8; cap];
        let steps = 4 + cx.t.below(36);
        let mut seen = vec![0; n];
        let mut last = usize::MAX;
        for _ in 0..steps {
          let i = cx.t.below(n);
          let m = &msgs[i];
          cx.evals += 1;
          cx.bytes.clear();
          cx.bytes.extend_from_slice(m);
          let got = match cx.t.below(3) {
            0 => canonical(m),
            1 => {
              // in place of another message
              buffer[..m.len()].copy_from_slice(m);
              let g = canonical(&buffer[..m.len()]);
              if buffer[..m.len()] != m[..] {
                return Err("the input was changed".into());
              }
              g
            },
            _ => {
              let off = cx.t.below(cap - m.len() + 1);
              buffer[off..off + m.len()].copy_from_slice(m);
              canonical(&buffer[off..off + m.len()])
            },
          };
          if got != first[i] {
            return Err(format!("the same bytes gave {:?} first and {:?} later", first[i], got));
          }
          if seen[i] > 0 && last != i {
            cx.nontrivial = true;
          }
          seen[i] += 1;
          last = i;
          cx.key ^= crate::tape::fnv(m).rotate_left((cx.evals % 61) as u32);
        }
        Ok(())
      }),
      phase("threads", 1500, 40 * K, move |cx| {
        let msgs: Vec<Vec<u8>> = (0..4).filter_map(|_| some_message(&mut cx.t, &p2)).collect();
        let first: Vec<String> = msgs.iter().map(|m| canonical(m)).collect();
        let orders: Vec<Vec<usize>> = (0..4)
          .map(|_| (0..12).map(|_| cx.t.below(msgs.len().max(1))).collect())
          .collect();
        if msgs.is_empty() {
          return Ok(());
        }
        cx.nontrivial = true;
        cx.msg(&msgs[0]);
        let (msgs, first) = (&msgs, &first);
        let bad = std::thread::scope(|s| {
          let h: Vec<_> = orders
            .iter()
            .map(|o| {
              s.spawn(move || {
                o.iter().find_map(|i| {
                  let g = canonical(&msgs[*i]);
                  (g != first[*i]).then(|| format!("{:?} first and {:?} on another thread", first[*i], g))
                })
              })
            })
            .collect();
          h.into_iter().map(|h| h.join().unwrap_or(Some("panicked".into()))).collect::<Vec<_>>()
        });
        cx.evals += 48;
        match bad.into_iter().flatten().next() {
          Some(b) => Err(format!("the same bytes gave {b}")),
          None => Ok(()),
        }
      }),
    ],
  }
}

fn base_check(id: &str) -> Option<Check> {
  Some(match id {
    "C01" => c01(),
    "C02" => c02(),
    "C03" => c03(),
    "C04" => c04(),
    "C05" => c05(),
    "C06" => c06(),
    "C07" => c07(),
    "C08" => c08(),
    "C09" => c09(),
    "C10" => c10(),
    "C11" => c11(),
    "C12" => c12(),
    "C13" => c13(),
    "C14" => c14(),
    "C15" => c15(),
    "C16" => c16(),
    "C23" => c23(),
    "C26" => c26(),
    "C27" => c27(),
    "C28" => c28(),
    "C29" => crate::equal::check(),
    _ => {
      #[cfg(feature = "serde")]
      return crate::sdprops::check(id);
      #[cfg(not(feature = "serde"))]
      return None;
    },
  })
}

/// The check of a property, with the phases which several of them share.
pub fn check(id: &str) -> Option<Check> {
  let mut c = base_check(id)?;
  // so that each takes about as long on every change
  let factor = match c.id {
    "C03" | "C04" | "C10" | "C13" | "C14" => 3,
    "C12" | "C22" | "C27" => 2,
    "C15" | "C21" => 20,
    "C16" | "C17" | "C18" | "C25" => 4,
    "C19" | "C20" | "C24" => 8,
    "C23" => 15,
    _ => 1,
  };
  for p in &mut c.phases {
    if !p.exhaustive {
      p.quick *= factor;
      p.thorough = p.thorough.max(p.quick * 5);
    }
  }
  c.phases.extend(crate::scale::phase(c.id));
  Some(c)
}
