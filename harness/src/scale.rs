//! Families of messages which grow with a number, together with the value each denotes, computed directly: counts,
//! lengths and distances far beyond what the structured generator draws.

use crate::model::*;
use crate::props::nbuild::*;
use crate::run::{Cx, Phase, enumerate};

pub const SIZES: [usize; 40] = [
  0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023,
  1024, 1025, 4095, 4096, 4097, 10000, 16384, 20000,
];
/// Only for the families which are cheap.
pub const LARGE: [usize; 6] = [32767, 32768, 65535, 65536, 65537, 100003];

/// A primitive value which depends on the number.
pub fn nth_prim(p: P, i: usize) -> MV {
  let h = (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
  match p {
    P::Bool => MV::Bool(h >> 63 == 1),
    P::Byte => MV::Byte((h >> 40) as u8),
    P::Char => MV::Char(['a', '\u{c}', 'é', '\u{20ac}', '😀', '\0', '\u{ffff}', 'z'][(h >> 61) as usize]),
    P::Dec => MV::Dec(format!("{}{}.{:02}", if i % 3 == 1 { "-" } else { "" }, i + 1, i % 100)),
    P::Double => MV::Double(h),
    P::I16 => MV::I16((h >> 32) as i16),
    P::I32 => MV::I32((h >> 32) as i32),
    P::I64 => MV::I64(h as i64),
    P::SByte => MV::SByte((h >> 40) as i8),
    P::Single => MV::Single((h >> 16) as u32),
    P::TimeSpan => MV::TimeSpan(h as i64),
    P::DateTime => MV::DateTime((h >> 2) as i64 | (((i % 3) as i64) << 62)),
    P::U16 => MV::U16((h >> 32) as u16),
    P::U32 => MV::U32((h >> 32) as u32),
    P::U64 => MV::U64(h),
  }
}

/// A value as an element of an object array: its record and what it denotes.
fn nth_item(i: usize) -> (Vec<u8>, MV) {
  match i % 4 {
    0 => {
      let t = format!("s{i}");
      (strobj(1_000_000 + i as i32, &t), MV::Str(t))
    },
    1 => (vec![10], MV::Null),
    _ => {
      let p = PRIMS[(i / 4) % 15];
      let v = nth_prim(p, i);
      (typed(p, &v), v)
    },
  }
}

/// Numbers below n in a scattered order, each once.
fn scattered(n: usize) -> Vec<usize> {
  let mut v: Vec<usize> = (0..n).collect();
  let mut r = crate::tape::Rng(n as u64);
  for i in (1..n).rev() {
    v.swap(i, (r.next() % (i as u64 + 1)) as usize);
  }
  v
}

pub struct Family {
  pub name: &'static str,
  pub checks: &'static [&'static str],
  pub large: bool,
  pub make: fn(usize) -> Option<(Vec<u8>, MM)>,
}

fn value(body: &[u8], v: MV) -> Option<(Vec<u8>, MM)> {
  Some((message(1, body), MM::Value(v)))
}

fn prim_arr(p: P, n: usize) -> Option<(Vec<u8>, MM)> {
  let v: Vec<MV> = (0..n).map(|i| nth_prim(p, i)).collect();
  Some((prim_array_message(p, &v), MM::Value(MV::Arr(v))))
}

fn rectangle(lens: &[i32]) -> Option<(Vec<u8>, MM)> {
  if lens.contains(&0) {
    return None;
  }
  let total: i32 = lens.iter().product();
  let mut b = binarr(1, 2, lens, &[], 0, &[P::I32 as u8]);
  (0..total).for_each(|i| b.extend(int(i)));
  let mut level: Vec<MV> = (0..total).map(MV::I32).collect();
  for l in lens[1..].iter().rev() {
    let mut next = vec![];
    let mut it = level.into_iter().peekable();
    while it.peek().is_some() {
      next.push(MV::Arr(it.by_ref().take(*l as usize).collect()));
    }
    level = next;
  }
  value(&b, MV::Arr(level))
}

/// An array of n nulls between two others, written with runs of the given record.
fn null_array(n: usize, run: u8, chunk: usize) -> Option<(Vec<u8>, MM)> {
  let mut b = objarr(1, n as i32 + 2);
  b.extend(typed(P::I32, &MV::I32(1)));
  let mut left = n;
  while left > 0 {
    let k = left.min(chunk);
    b.push(run);
    match run {
      10 => (),
      13 => b.push(k as u8),
      _ => b.extend(int(k as i32)),
    }
    left -= k;
  }
  b.extend(typed(P::I32, &MV::I32(2)));
  let mut v = vec![MV::I32(1)];
  v.extend((0..n).map(|_| MV::Null));
  v.push(MV::I32(2));
  value(&b, MV::Arr(v))
}

fn call(ret: bool, n: usize, mode: usize) -> Option<(Vec<u8>, MM)> {
  let mut vals = vec![];
  let (mut inline, mut members) = (vec![], vec![]);
  for i in 0..n {
    let (m, v) = nth_item(i);
    members.extend(m);
    match &v {
      MV::Null => inline.push(17),
      MV::Str(t) => {
        inline.push(18);
        inline.extend(s(t));
      },
      v => {
        inline.push(crate::scale::code(v));
        v.encode_prim(&mut inline);
      },
    }
    vals.push(v);
  }
  let flags = [2, 4, 8][mode] | 0x10 | if ret { 0x200 } else { 0 };
  let mut b = vec![if ret { 22 } else { 21 }];
  b.extend(int(flags));
  if !ret {
    b.extend(cat(&[&[18], &s("m"), &[18], &s("t")]));
  }
  match mode {
    0 => {
      b.extend(int(n as i32));
      b.extend(&inline);
    },
    1 => {
      b.extend(objarr(1, n as i32));
      b.extend(&members);
    },
    _ => {
      b.extend(objarr(1, 1));
      b.extend(mref(2));
      b.extend(objarr(2, n as i32));
      b.extend(&members);
    },
  }
  let args = Some(vals);
  Some((
    message(1, &b),
    if ret {
      MM::Return { ret: None, ctx: None, args }
    } else {
      MM::Call { method: "m".into(), type_name: "t".into(), ctx: None, args }
    },
  ))
}

pub fn code(v: &MV) -> u8 {
  match v {
    MV::Bool(_) => 1,
    MV::Byte(_) => 2,
    MV::Char(_) => 3,
    MV::Dec(_) => 5,
    MV::Double(_) => 6,
    MV::I16(_) => 7,
    MV::I32(_) => 8,
    MV::I64(_) => 9,
    MV::SByte(_) => 10,
    MV::Single(_) => 11,
    MV::TimeSpan(_) => 12,
    MV::DateTime(_) => 13,
    MV::U16(_) => 14,
    MV::U32(_) => 15,
    MV::U64(_) => 16,
    _ => panic!("not a primitive"),
  }
}

macro_rules! fam {
  ($name:literal, $checks:expr, $large:literal, $make:expr) => {
    Family { name: $name, checks: &$checks, large: $large, make: $make }
  };
}

pub fn families() -> Vec<Family> {
  vec![
    fam!("strings in a string array", ["C05", "C09", "C27"], true, |n| {
      let mut b = strarr(1, n as i32);
      (0..n).for_each(|i| b.extend(strobj(i as i32 + 2, &format!("text {i}"))));
      value(&b, MV::Arr((0..n).map(|i| MV::Str(format!("text {i}"))).collect()))
    }),
    fam!("items of all kinds", ["C04", "C09", "C17"], true, |n| {
      let mut b = objarr(1, n as i32);
      let mut v = vec![];
      (0..n).for_each(|i| {
        let (m, x) = nth_item(i);
        b.extend(m);
        v.push(x);
      });
      value(&b, MV::Arr(v))
    }),
    fam!("a text", ["C05", "C17"], true, |n| value(&strobj(1, &"xé€😀".chars().cycle().take(n).collect::<String>()), {
      MV::Str("xé€😀".chars().cycle().take(n).collect())
    })),
    fam!("long names", ["C05", "C06", "C11"], true, |n| {
      let name = |c: char| c.to_string().repeat(n);
      let b = cat(&[
        &lib(9, &name('l')),
        &cls(1, &name('c'), &[&name('a'), &name('b')], Some(9)),
        &typed(P::I32, &MV::I32(1)),
        &[10],
      ]);
      if n == 0 {
        return None;
      }
      value(&b, obj(&name('c'), Some(&name('l')), vec![(&name('a'), MV::I32(1)), (&name('b'), MV::Null)]))
    }),
    fam!("strings before the array, in a scattered order", ["C08", "C27"], true, |n| {
      let mut b = vec![];
      (0..n).for_each(|i| b.extend(strobj(i as i32 + 2, &format!("t{i}"))));
      b.extend(objarr(1, n as i32));
      let o = scattered(n);
      o.iter().for_each(|i| b.extend(mref(*i as i32 + 2)));
      value(&b, MV::Arr(o.iter().map(|i| MV::Str(format!("t{i}"))).collect()))
    }),
    fam!("strings with scattered IDs", ["C08", "C27"], true, |n| {
      let id = |i: usize| ((i as u64 * 2_654_435_761) % 2_147_483_629) as i32 + 2;
      let mut b = vec![];
      (0..n).for_each(|i| b.extend(strobj(id(i), &format!("t{i}"))));
      b.extend(objarr(1, n as i32));
      let o = scattered(n);
      o.iter().for_each(|i| b.extend(mref(id(*i))));
      value(&b, MV::Arr(o.iter().map(|i| MV::Str(format!("t{i}"))).collect()))
    }),
    fam!("references to one string", ["C08"], true, |n| {
      let mut b = objarr(1, n as i32 + 1);
      b.extend(strobj(2, "once"));
      (0..n).for_each(|_| b.extend(mref(2)));
      value(&b, MV::Arr(vec![MV::Str("once".into()); n + 1]))
    }),
    fam!("references to two strings", ["C08"], true, |n| {
      let mut b = cat(&[&strobj(2, "even"), &strobj(3, "odd"), &objarr(1, n as i32)]);
      (0..n).for_each(|i| b.extend(mref(2 + (i % 2) as i32)));
      value(&b, MV::Arr((0..n).map(|i| MV::Str(["even", "odd"][i % 2].into())).collect()))
    }),
    fam!("objects before the array, in a scattered order", ["C08", "C27"], true, |n| {
      let mut b = vec![];
      let x = |i: usize| obj("A", None, vec![("v", MV::I32(i as i32))]);
      (0..n).for_each(|i| {
        b.extend(cls(i as i32 + 2, "A", &["v"], None));
        b.extend(typed(P::I32, &MV::I32(i as i32)));
      });
      b.extend(objarr(1, n as i32));
      let o = scattered(n);
      o.iter().for_each(|i| b.extend(mref(*i as i32 + 2)));
      value(&b, MV::Arr(o.iter().map(|i| x(*i)).collect()))
    }),
    fam!("objects after the array", ["C08", "C06"], true, |n| {
      let mut b = objarr(1, n as i32);
      (0..n).for_each(|i| b.extend(mref(i as i32 + 2)));
      (0..n).for_each(|i| {
        b.extend(cls(i as i32 + 2, "A", &["v"], None));
        b.extend(typed(P::I32, &MV::I32(i as i32)));
      });
      value(&b, MV::Arr((0..n).map(|i| obj("A", None, vec![("v", MV::I32(i as i32))])).collect()))
    }),
    fam!("objects before and after the root", ["C03", "C08"], true, |n| {
      let mut b = vec![];
      (0..n).for_each(|i| match i % 3 {
        0 => b.extend(strobj(i as i32 + 2, "before")),
        1 => b.extend(cat(&[&cls(i as i32 + 2, "A", &["v"], None), &[10]])),
        _ => b.extend(objarr(i as i32 + 2, 0)),
      });
      b.extend(cat(&[&cls(1, "Root", &["v"], None), &[10]]));
      (0..n).for_each(|i| match i % 3 {
        0 => b.extend(strobj((n + i) as i32 + 2, "after")),
        1 => b.extend(cat(&[&cls((n + i) as i32 + 2, "B", &["v"], None), &[10]])),
        _ => b.extend(cat(&[&strarr((n + i) as i32 + 2, 1), &[10]])),
      });
      value(&b, obj("Root", None, vec![("v", MV::Null)]))
    }),
    fam!("members without types", ["C06", "C17", "C18"], false, |n| {
      let names: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
      let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
      let mut b = cls(1, "A", &names, None);
      let mut m = vec![];
      for (i, name) in names.iter().enumerate() {
        let (r, v) = nth_item(i);
        b.extend(r);
        m.push((*name, v));
      }
      value(&b, obj("A", None, m))
    }),
    fam!("members which are null", ["C06", "C10", "C18", "C20"], false, |n| members_null(n, false)),
    fam!("members with types which are null", ["C06", "C10", "C12"], false, |n| members_null(n, true)),
    fam!("members which are references", ["C06", "C08", "C26"], false, |n| {
      let names: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
      let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
      let mut b = cls(1, "A", &names, None);
      let mut m = vec![];
      for (i, name) in names.iter().enumerate() {
        // every third one refers to the text before it
        let k = if i % 3 == 2 { i - 1 } else { i };
        b.extend(mref(k as i32 + 2));
        m.push((*name, if k % 3 == 0 { MV::Arr(vec![MV::I32(k as i32)]) } else { MV::Str(format!("t{k}")) }));
      }
      for i in (0..n).filter(|i| i % 3 != 2) {
        let id = i as i32 + 2;
        b.extend(if i % 3 == 0 { primarr(id, P::I32, &[MV::I32(i as i32)]) } else { strobj(id, &format!("t{i}")) });
      }
      value(&b, obj("A", None, m))
    }),
    fam!("members with types", ["C06", "C12", "C17", "C18"], false, |n| {
      let names: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
      let infos: Vec<[u8; 1]> = (0..n).map(|i| [PRIMS[i % 15] as u8]).collect();
      let mut types: Vec<(&str, u8, &[u8])> = vec![];
      let mut data = vec![];
      let mut m = vec![];
      for (i, name) in names.iter().enumerate() {
        match i % 5 {
          0 => {
            types.push((name, 1, &[]));
            let t = format!("t{i}");
            data.extend(strobj(i as i32 + 2, &t));
            m.push((name.as_str(), MV::Str(t)));
          },
          1 => {
            types.push((name, 2, &[]));
            let (r, v) = nth_item(i);
            data.extend(r);
            m.push((name.as_str(), v));
          },
          _ => {
            types.push((name, 0, &infos[i]));
            let v = nth_prim(PRIMS[i % 15], i);
            v.encode_prim(&mut data);
            m.push((name.as_str(), v));
          },
        }
      }
      value(&cat(&[&clst(1, "A", &types, None), &data]), obj("A", None, m))
    }),
    fam!("objects reusing one class", ["C07", "C06"], true, |n| {
      let mut b = objarr(1, n as i32 + 1);
      b.extend(cat(&[&clst(2, "A", &[("i", 0, &[8]), ("s", 1, &[])], None), &int(-1), &strobj(3, "first")]));
      let mut v = vec![obj("A", None, vec![("i", MV::I32(-1)), ("s", MV::Str("first".into()))])];
      (0..n).for_each(|i| {
        b.extend(cat(&[&cid(i as i32 + 4, 2), &int(i as i32), &[10]]));
        v.push(obj("A", None, vec![("i", MV::I32(i as i32)), ("s", MV::Null)]));
      });
      value(&b, MV::Arr(v))
    }),
    fam!("objects reusing the object before", ["C07"], true, |n| {
      let mut b = objarr(1, n as i32 + 1);
      b.extend(cat(&[&cls(2, "A", &["x"], None), &[10]]));
      let mut v = vec![obj("A", None, vec![("x", MV::Null)])];
      (0..n).for_each(|i| {
        // by the ID of the class; objects of reused metadata have no metadata of their own
        b.extend(cat(&[&cid(i as i32 + 3, 2), &typed(P::I32, &MV::I32(i as i32))]));
        v.push(obj("A", None, vec![("x", MV::I32(i as i32))]));
      });
      value(&b, MV::Arr(v))
    }),
    fam!("classes of one name, each reused in a scattered order", ["C07", "C27"], true, |n| {
      let mut b = objarr(1, 2 * n as i32);
      let mut v = vec![];
      let m: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
      (0..n).for_each(|i| {
        b.extend(cat(&[&cls(i as i32 + 2, "A", &[&m[i]], None), &[10]]));
        v.push(obj("A", None, vec![(&m[i], MV::Null)]));
      });
      scattered(n).into_iter().enumerate().for_each(|(k, i)| {
        b.extend(cat(&[&cid((n + k) as i32 + 2, i as i32 + 2), &typed(P::I32, &MV::I32(k as i32))]));
        v.push(obj("A", None, vec![(&m[i], MV::I32(k as i32))]));
      });
      value(&b, MV::Arr(v))
    }),
    fam!("classes with their libraries", ["C11", "C27"], true, |n| {
      let mut b = objarr(1, n as i32);
      let mut v = vec![];
      (0..n).for_each(|i| {
        let l = format!("L{i}");
        b.extend(cat(&[&lib(2 * i as i32 + 2, &l), &cls(2 * i as i32 + 3, "A", &[], Some(2 * i as i32 + 2))]));
        v.push(obj("A", Some(&l), vec![]));
      });
      value(&b, MV::Arr(v))
    }),
    fam!("libraries first, classes in a scattered order", ["C11", "C27"], true, |n| {
      let mut b = vec![];
      // a library precedes the object it belongs to, so each has an object
      (0..n).for_each(|i| {
        b.extend(cat(&[&lib(i as i32 + 2, &format!("L{i}")), &cls((n + i) as i32 + 2, "B", &[], Some(i as i32 + 2))]));
      });
      b.extend(objarr(1, n as i32));
      let o = scattered(n);
      let mut v = vec![];
      o.iter().enumerate().for_each(|(k, i)| {
        b.extend(cls((2 * n + k) as i32 + 2, "A", &[], Some(*i as i32 + 2)));
        v.push(obj("A", Some(&format!("L{i}")), vec![]));
      });
      value(&b, MV::Arr(v))
    }),
    fam!("classes of one library", ["C11"], true, |n| {
      let mut b = objarr(1, n as i32 + 1);
      b.extend(cat(&[&lib(2, "L"), &cls(3, "A", &[], Some(2))]));
      let mut v = vec![obj("A", Some("L"), vec![])];
      (0..n).for_each(|i| {
        let c = format!("C{i}");
        b.extend(cls(i as i32 + 4, &c, &[], Some(2)));
        v.push(obj(&c, Some("L"), vec![]));
      });
      value(&b, MV::Arr(v))
    }),
    fam!("Boolean array", ["C04", "C09"], true, |n| prim_arr(P::Bool, n)),
    fam!("Byte array", ["C04", "C09", "C17"], true, |n| prim_arr(P::Byte, n)),
    fam!("Char array", ["C04", "C09"], true, |n| prim_arr(P::Char, n)),
    fam!("Decimal array", ["C04", "C09", "C24"], false, |n| prim_arr(P::Dec, n)),
    fam!("Double array", ["C04", "C09"], true, |n| prim_arr(P::Double, n)),
    fam!("Int16 array", ["C04", "C09"], true, |n| prim_arr(P::I16, n)),
    fam!("Int32 array", ["C04", "C09", "C20", "C21"], true, |n| prim_arr(P::I32, n)),
    fam!("Int64 array", ["C04", "C09"], true, |n| prim_arr(P::I64, n)),
    fam!("SByte array", ["C04", "C09"], true, |n| prim_arr(P::SByte, n)),
    fam!("Single array", ["C04", "C09"], true, |n| prim_arr(P::Single, n)),
    fam!("TimeSpan array", ["C04", "C09"], true, |n| prim_arr(P::TimeSpan, n)),
    fam!("DateTime array", ["C04", "C09", "C24"], true, |n| prim_arr(P::DateTime, n)),
    fam!("UInt16 array", ["C04", "C09"], true, |n| prim_arr(P::U16, n)),
    fam!("UInt32 array", ["C04", "C09"], true, |n| prim_arr(P::U32, n)),
    fam!("UInt64 array", ["C04", "C09"], true, |n| prim_arr(P::U64, n)),
    fam!("rectangle n by 2", ["C09", "C26"], true, |n| rectangle(&[n as i32, 2])),
    fam!("rectangle 2 by n", ["C09", "C26"], true, |n| rectangle(&[2, n as i32])),
    fam!("rectangle n by 1 by 1", ["C09"], true, |n| rectangle(&[n as i32, 1, 1])),
    fam!("rectangle 1 by n by 2", ["C09"], true, |n| rectangle(&[1, n as i32, 2])),
    fam!("rectangle 3 by 2 by n", ["C09"], true, |n| rectangle(&[3, 2, n as i32])),
    fam!("square", ["C09"], false, |n| if n <= 129 { rectangle(&[n as i32, n as i32]) } else { None }),
    fam!("rank", ["C09", "C16"], false, |n| {
      if (2..=200).contains(&n) {
        let mut l = vec![1; n];
        l[n / 2] = 3;
        l[n - 1] = 2;
        rectangle(&l)
      } else {
        None
      }
    }),
    fam!("rectangle of nulls and strings", ["C09", "C10"], true, |n| {
      if n == 0 {
        return None;
      }
      let mut b = binarr(1, 2, &[n as i32, 3], &[], 1, &[]);
      let mut v = vec![];
      for i in 0..n {
        // the run goes on in the next row
        let t = format!("r{i}");
        b.extend(strobj(i as i32 + 2, &t));
        b.extend([13, 2]);
        v.push(MV::Arr(vec![MV::Str(t), MV::Null, MV::Null]));
      }
      value(&b, MV::Arr(v))
    }),
    fam!("rectangle in one run of nulls", ["C10"], true, |n| {
      if n == 0 {
        return None;
      }
      let b = cat(&[&binarr(1, 2, &[2, n as i32], &[], 2, &[]), &[14], &int(2 * n as i32)]);
      value(&b, MV::Arr(vec![MV::Arr(vec![MV::Null; n]); 2]))
    }),
    fam!("jagged array", ["C09", "C08"], true, |n| {
      let mut b = binarr(1, 1, &[n as i32], &[], 7, &[P::I32 as u8]);
      (0..n).for_each(|i| b.extend(mref(i as i32 + 2)));
      let mut v = vec![];
      (0..n).for_each(|i| {
        let items: Vec<MV> = (0..i % 4).map(|k| MV::I32((i * 4 + k) as i32)).collect();
        b.extend(primarr(i as i32 + 2, P::I32, &items));
        v.push(MV::Arr(items));
      });
      value(&b, MV::Arr(v))
    }),
    fam!("array with a lower bound", ["C09", "C16"], true, |n| {
      let mut b = binarr(1, 3, &[n as i32], &[-(n as i32) - 5], 0, &[P::I16 as u8]);
      let v: Vec<MV> = (0..n).map(|i| nth_prim(P::I16, i)).collect();
      v.iter().for_each(|x| x.encode_prim(&mut b));
      value(&b, MV::Arr(v))
    }),
    fam!("array of a class", ["C09", "C07", "C12"], true, |n| {
      let mut b = cat(&[&lib(100, "L"), &binarr(1, 0, &[n as i32], &[], 4, &cat(&[&s("A"), &int(100)]))]);
      let mut v = vec![];
      for i in 0..n {
        if i == 0 {
          b.extend(clst(101, "A", &[("x", 0, &[8])], Some(100)));
        } else {
          b.extend(cid(101 + i as i32, 101));
        }
        b.extend(int(i as i32 * 3));
        v.push(obj("A", Some("L"), vec![("x", MV::I32(i as i32 * 3))]));
      }
      value(&b, MV::Arr(v))
    }),
    fam!("single nulls", ["C10"], true, |n| null_array(n, 10, 1)),
    fam!("runs of one null", ["C10"], true, |n| null_array(n, 13, 1)),
    fam!("runs of 255 nulls", ["C10"], true, |n| null_array(n, 13, 255)),
    fam!("runs of 7 nulls", ["C10"], true, |n| null_array(n, 14, 7)),
    fam!("runs of 1000 nulls", ["C10"], true, |n| null_array(n, 14, 1000)),
    fam!("one run of nulls", ["C10"], true, |n| null_array(n, 14, usize::MAX)),
    fam!("string array of nulls", ["C10", "C20"], true, |n| {
      let mut b = strarr(1, n as i32 + 1);
      if n > 0 {
        b.push(14);
        b.extend(int(n as i32));
      }
      b.extend(strobj(2, "last"));
      let mut v = vec![MV::Null; n];
      v.push(MV::Str("last".into()));
      value(&b, MV::Arr(v))
    }),
    fam!("runs of growing lengths", ["C10"], false, |n| {
      if n > 1025 {
        return None;
      }
      let total: usize = (1..=n).map(|i| i + 1).sum();
      let mut b = objarr(1, total as i32);
      let mut v = vec![];
      for i in 1..=n {
        if i < 256 {
          b.extend([13, i as u8]);
        } else {
          b.push(14);
          b.extend(int(i as i32));
        }
        v.extend((0..i).map(|_| MV::Null));
        b.extend(typed(P::I32, &MV::I32(i as i32)));
        v.push(MV::I32(i as i32));
      }
      value(&b, MV::Arr(v))
    }),
    fam!("inline arguments", ["C13"], true, |n| call(false, n, 0)),
    fam!("arguments as the call array", ["C13"], true, |n| call(false, n, 1)),
    fam!("arguments in the call array", ["C13"], true, |n| call(false, n, 2)),
    fam!("inline arguments of a return", ["C14"], true, |n| call(true, n, 0)),
    fam!("return arguments as the call array", ["C14"], true, |n| call(true, n, 1)),
    fam!("return arguments in the call array", ["C14"], true, |n| call(true, n, 2)),
    fam!("objects after a method call", ["C13", "C03"], true, |n| {
      let mut b = cat(&[&[21], &int(0x14), &[18], &s("m"), &[18], &s("t"), &objarr(1, n as i32)]);
      (0..n).for_each(|i| b.extend(mref(i as i32 + 2)));
      (0..n).for_each(|i| b.extend(strobj(i as i32 + 2, &format!("a{i}"))));
      let args = (0..n).map(|i| MV::Str(format!("a{i}"))).collect();
      Some((message(1, &b), MM::Call { method: "m".into(), type_name: "t".into(), ctx: None, args: Some(args) }))
    }),
    fam!("list", ["C19", "C17"], true, |n| {
      let mut b = clst(
        1,
        "System.Collections.Generic.List`1[[System.Int32, mscorlib]]",
        &[("_items", 7, &[8]), ("_size", 0, &[8]), ("_version", 0, &[8])],
        None,
      );
      b.extend(cat(&[&mref(2), &int(n as i32), &int(3)]));
      let mut items: Vec<MV> = (0..n).map(|i| MV::I32(i as i32 * 7)).collect();
      items.extend((0..n / 2).map(|_| MV::I32(0)));
      b.extend(primarr(2, P::I32, &items));
      value(
        &b,
        obj(
          "System.Collections.Generic.List`1[[System.Int32, mscorlib]]",
          None,
          vec![("_items", MV::Arr(items)), ("_size", MV::I32(n as i32)), ("_version", MV::I32(3))],
        ),
      )
    }),
    fam!("boxed primitives", ["C19", "C17"], false, |n| {
      let mut b = objarr(1, n as i32);
      let mut v = vec![];
      for i in 0..n {
        b.extend(clst(i as i32 + 2, "System.Int32", &[("m_value", 0, &[8])], None));
        b.extend(int(i as i32));
        v.push(obj("System.Int32", None, vec![("m_value", MV::I32(i as i32))]));
      }
      value(&b, MV::Arr(v))
    }),
    // nesting, to levels which no stack has a problem with
    fam!("nested objects", ["C06", "C17", "C18", "C27"], false, |n| nested(n, |i, b| {
      b.extend(cls(i, "A", &["i", "a"], None));
      b.extend(typed(P::I32, &MV::I32(i)));
    })),
    fam!("nested objects of a library", ["C06", "C11", "C27"], false, |n| nested_lib(n)),
    fam!("nested objects of declared types", ["C06", "C12", "C27"], false, |n| nested(n, |i, b| {
      let a = if i as usize % 3 == 0 { (2, vec![]) } else { (3, s("A")) };
      b.extend(clst(i, "A", &[("i", 0, &[8]), ("a", a.0, &a.1)], None));
      b.extend(int(i));
    })),
    fam!("nested objects of reused metadata", ["C07", "C27"], false, |n| nested(n, |i, b| {
      if i <= 3 {
        b.extend(cls(i, "A", &["i", "a"], None));
      } else {
        b.extend(cid(i, 1 + i % 3));
      }
      b.extend(typed(P::I32, &MV::I32(i)));
    })),
    fam!("objects nested by reference", ["C08", "C27", "C20"], false, |n| {
      if n > DEEP {
        return None;
      }
      let mut b = vec![];
      for i in 1..=n as i32 {
        b.extend(cls(i, "A", &["a", "i"], None));
        b.extend(if i == n as i32 { vec![10] } else { mref(i + 1) });
        b.extend(typed(P::I32, &MV::I32(i)));
      }
      let mut v = MV::Null;
      for i in (1..=n as i32).rev() {
        v = obj("A", None, vec![("a", v), ("i", MV::I32(i))]);
      }
      if n == 0 { None } else { value(&b, v) }
    }),
    fam!("objects nested by earlier reference", ["C08", "C27"], false, |n| {
      if n == 0 {
        return None;
      }
      let mut b = vec![];
      for i in (1..=n.min(DEEP) as i32).rev() {
        b.extend(cls(i, "A", &["a", "i"], None));
        b.extend(if i == n.min(DEEP) as i32 { vec![10] } else { mref(i + 1) });
        b.extend(typed(P::I32, &MV::I32(i)));
      }
      let mut v = MV::Null;
      for i in (1..=n.min(DEEP) as i32).rev() {
        v = obj("A", None, vec![("a", v), ("i", MV::I32(i))]);
      }
      value(&b, v)
    }),
    fam!("nested arrays", ["C09", "C08", "C17", "C20", "C27"], false, |n| {
      if n > DEEP || n == 0 {
        return None;
      }
      let mut b = vec![];
      for i in 1..=n as i32 {
        let last = i == n as i32;
        match i % 3 {
          0 => b.extend(objarr(i, 1 + !last as i32)),
          1 => b.extend(binarr(i, 0, &[1 + !last as i32], &[], 2, &[])),
          _ => b.extend(binarr(i, 1, &[1 + !last as i32], &[], 5, &[])),
        }
        b.extend([10]);
        if !last {
          b.extend(mref(i + 1));
        }
      }
      let mut v = MV::Arr(vec![MV::Null]);
      for _ in 1..n {
        v = MV::Arr(vec![MV::Null, v]);
      }
      value(&b, v)
    }),
    fam!("dimensions of length one", ["C09", "C20", "C27"], false, |n| {
      if n > DEEP || n == 0 {
        return None;
      }
      let mut lens = vec![1; n];
      lens[n - 1] = 2;
      let mut v = MV::Arr(vec![MV::Byte(1), MV::Byte(2)]);
      for _ in 1..n {
        v = MV::Arr(vec![v]);
      }
      value(&cat(&[&binarr(1, 2, &lens, &[], 0, &[2]), &[1, 2]]), v)
    }),
  ]
}

/// The deepest nesting tried.
const DEEP: usize = 300;

/// Objects inside each other, with the number of the level.
fn nested(n: usize, start: impl Fn(i32, &mut Vec<u8>)) -> Option<(Vec<u8>, MM)> {
  if n == 0 || n > DEEP {
    return None;
  }
  let mut b = vec![];
  for i in 1..=n as i32 {
    start(i, &mut b);
  }
  b.push(10);
  let mut v = MV::Null;
  for i in (1..=n as i32).rev() {
    v = obj("A", None, vec![("i", MV::I32(i)), ("a", v)]);
  }
  value(&b, v)
}

/// An object with many members of which most are null.
fn members_null(n: usize, types: bool) -> Option<(Vec<u8>, MM)> {
  let names: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
  let mut m = vec![];
  let mut data = vec![];
  for (i, name) in names.iter().enumerate() {
    if i % 7 == 6 {
      data.extend(strobj(i as i32 + 2, &format!("t{i}")));
      m.push((name.as_str(), MV::Str(format!("t{i}"))));
    } else {
      data.extend(if i % 3 == 0 { vec![13, 1] } else { vec![10] });
      m.push((name.as_str(), MV::Null));
    }
  }
  let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
  let b = if types {
    let types: Vec<(&str, u8, &[u8])> = names.iter().enumerate().map(|(i, n)| (*n, 1 + i as u8 % 2, &[][..])).collect();
    clst(1, "A", &types, None)
  } else {
    cls(1, "A", &names, None)
  };
  value(&cat(&[&b, &data]), obj("A", None, m))
}

fn nested_lib(n: usize) -> Option<(Vec<u8>, MM)> {
  if n == 0 || n > DEEP {
    return None;
  }
  let mut b = vec![];
  for i in 1..=n as i32 {
    // a library of its own for every other level
    if i % 2 == 1 {
      b.extend(lib(100_000 + i, &format!("L{i}")));
    }
    b.extend(cls(i, "A", &["i", "a"], Some(100_000 + i - (i + 1) % 2)));
    b.extend(typed(P::I32, &MV::I32(i)));
  }
  b.push(10);
  let mut v = MV::Null;
  for i in (1..=n as i32).rev() {
    v = obj("A", Some(&format!("L{}", i - (i + 1) % 2)), vec![("i", MV::I32(i)), ("a", v)]);
  }
  value(&b, v)
}

/// What else has to hold for a message of a family, apart from being parsed as what it denotes.
fn also(id: &str, n: usize, bytes: &[u8], want: &MM) -> Result<(), String> {
  match (id, want) {
    ("C27", _) => match crate::refdec::decode(bytes) {
      crate::refdec::Verdict::Accept(m) if m == *want => Ok(()),
      v => {
        let v: String = format!("{v:?}").chars().take(200).collect();
        eprintln!("harness: family and reference decoder disagree for size {n}: {v}");
        Ok(())
      },
    },
    ("C26", MM::Value(v)) if n <= 2000 => {
      for k in 0..2 {
        let mut t = crate::tape::Tape::new(crate::tape::Rng(n as u64 * 2 + k).fill(2000));
        let b = crate::encode::encode(&mut t, v);
        expect_ok(&b, want)?;
      }
      Ok(())
    },
    #[cfg(feature = "serde")]
    (_, MM::Value(v)) => {
      use crate::sd::{Shape, compare};
      let any = || Box::new(Shape::Any);
      let shapes = match id {
        "C17" => vec![Shape::Any, Shape::Ignored],
        "C18" => vec![
          Shape::Map(any()),
          Shape::Struct(vec![("m0".into(), Shape::Any, true), (format!("m{}", n.saturating_sub(1).max(1)), Shape::Any, true)]),
        ],
        "C19" | "C24" => vec![Shape::Any, Shape::Seq(any())],
        "C20" => vec![
          Shape::Seq(any()),
          Shape::Option(Box::new(Shape::Seq(Box::new(Shape::Option(any()))))),
          Shape::Tuple(vec![Shape::Any; n]),
          Shape::Tuple(vec![Shape::Any; n + 1]),
          Shape::Tuple(vec![Shape::Any; n + 2]),
          Shape::Prefix(n / 2),
        ],
        "C21" => vec![Shape::Seq(Box::new(Shape::I64)), Shape::Seq(Box::new(Shape::U16))],
        _ => return Ok(()),
      };
      shapes.iter().try_for_each(|s| compare(s, v, bytes).map(|_| ()))
    },
    _ => Ok(()),
  }
}

/// The families of a property in all sizes, and in random ones.
pub fn phase(id: &'static str) -> Option<Phase> {
  let fams: Vec<Family> = families().into_iter().filter(|f| f.checks.contains(&id) || id == "C26").collect();
  if fams.is_empty() {
    return None;
  }
  const RANDOM: usize = 14;
  // around the numbers which the sources newly have
  let new: Vec<usize> = crate::dict::dict()
    .new_ints
    .iter()
    .filter(|n| (2..=200_000).contains(*n))
    .flat_map(|n| [*n as usize - 1, *n as usize, *n as usize + 1])
    .take(45)
    .collect();
  let per = SIZES.len() + LARGE.len() + RANDOM + new.len();
  Some(enumerate("families by size", (fams.len() * per) as u64, move |cx: &mut Cx| {
    let (f, k) = (&fams[cx.idx as usize % fams.len()], cx.idx as usize / fams.len());
    let n = if k < SIZES.len() {
      SIZES[k]
    } else if k < SIZES.len() + LARGE.len() {
      if !f.large {
        return Ok(());
      }
      LARGE[k - SIZES.len()]
    } else if k >= SIZES.len() + LARGE.len() + RANDOM {
      let n = new[k - (SIZES.len() + LARGE.len() + RANDOM)];
      if n > 20_000 && !f.large {
        return Ok(());
      }
      n
    } else {
      cx.t.u64() as usize % 3000
    };
    let Some((b, want)) = (f.make)(n) else { return Ok(()) };
    cx.bytes = b[..b.len().min(2000)].to_vec();
    cx.key = cx.idx;
    cx.nontrivial = true;
    expect_ok(&b, &want).and_then(|_| also(id, n, &b, &want)).map_err(|e| {
      let e: String = e.chars().take(600).collect();
      format!("{}, of size {n}: {e}", f.name)
    })
  }))
}
