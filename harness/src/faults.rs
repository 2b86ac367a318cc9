//! Single faults in every record and field, in every kind of surroundings (C23).
use crate::{
  generate::gen_string,
  model::{MV, P, PRIMS, put_str},
  mutate::BAD_UTF8,
  props::nbuild::*,
  tape::Tape,
};

/// What the faulty record is, which decides where it may stand.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
  /// A class or string: at the top level, as the target of a reference, or in place of a member or element.
  Inline,
  /// An array: at the top level or as the target of a reference.
  Array,
  /// Only in place of a member or element.
  Member,
  /// Only in place of a single member.
  Single,
}

pub struct Fault {
  /// Well-formed records which the fault needs.
  pub pre: Vec<u8>,
  pub kind: Kind,
  pub bytes: Vec<u8>,
  pub want: String,
  /// The message ends within the faulty record.
  pub cut: bool,
}

/// The ID of the faulty record, unless this is the fault.
const ID: i32 = 7;

fn words(p: P) -> &'static str {
  match p {
    P::Bool => "a BOOLEAN",
    P::Byte => "a BYTE",
    P::Char => "a CHAR",
    P::Dec => "a Decimal",
    P::Double => "a DOUBLE",
    P::I16 => "an INT16",
    P::I32 => "an INT32",
    P::I64 => "an INT64",
    P::SByte => "an INT8",
    P::Single => "a SINGLE",
    P::TimeSpan => "a TimeSpan",
    P::DateTime => "a DateTime",
    P::U16 => "a UINT16",
    P::U32 => "a UINT32",
    P::U64 => "a UINT64",
  }
}

/// A class with a typed member, with a library or without, and the type of the member within arrays.
fn typed_holder(t: &mut Tape, ty: u8, info: &[u8]) -> (Vec<u8>, Vec<u8>, Kind) {
  match t.below(4) {
    0 => (vec![], clst(ID, "A", &[("a", ty, info)], None), Kind::Inline),
    1 => (needs_library(), clst(ID, "A", &[("a", ty, info)], Some(50)), Kind::Inline),
    2 => (vec![], binarr(ID, 0, &[1], &[], ty, info), Kind::Array),
    _ => {
      let (kind, lens, bounds): (u8, &[i32], &[i32]) =
        *t.of(&[(1, &[1][..], &[][..]), (2, &[1, 1], &[]), (3, &[1], &[0]), (4, &[1], &[0]), (5, &[1, 1], &[0, 0])]);
      (vec![], binarr(ID, kind, lens, bounds, ty, info), Kind::Array)
    },
  }
}
/// A library may only stand before a class.
fn needs_library() -> Vec<u8> {
  cat(&[&lib(50, "L"), &cls(910, "X", &[], None)])
}

pub const FAULTS: usize = 18;
pub fn fault(t: &mut Tape, f: usize) -> Fault {
  let negative = |t: &mut Tape| match t.below(3) {
    0 => -1,
    1 => i32::MIN,
    _ => -1 - (t.u32() & 0x7fff_fffe) as i32,
  };
  let not_positive = |t: &mut Tape| if t.chance(100) { 0 } else { negative(t) };
  let fault = |pre: Vec<u8>, kind, bytes: Vec<u8>, want: &str| Fault { pre, kind, bytes, want: want.into(), cut: false };
  let unknown = 60 + t.u16() as i32;
  let text = gen_string(t, 2);
  match f {
    // library IDs
    0 => {
      let v = not_positive(t);
      let known = lib(50, "L");
      let (kind, bytes) = match t.below(7) {
        0 => (Kind::Inline, cat(&[&lib(v, &text), &cls(ID, "A", &[], None)])),
        1 => (Kind::Inline, cls(ID, &text, &[], Some(v))),
        2 => (Kind::Inline, clst(ID, &text, &[], Some(v))),
        3 => (Kind::Inline, cat(&[&known, &clst(ID, "A", &[(&text, 0, &[8])], Some(v)), &int(5)])),
        4 => (Kind::Inline, cat(&[&clst(ID, "A", &[("a", 4, &cat(&[&s(&text), &int(v)]))], None), &[10]])),
        5 => (Kind::Inline, cat(&[&known, &clst(ID, "A", &[("a", 4, &cat(&[&s(&text), &int(v)]))], Some(50)), &[10]])),
        _ => (Kind::Array, cat(&[&binarr(ID, 0, &[1], &[], 4, &cat(&[&s(&text), &int(v)])), &[10]])),
      };
      fault(vec![], kind, bytes, "invalid library ID")
    },
    1 => {
      let info = cat(&[&s(&text), &int(unknown)]);
      let (pre, kind, bytes) = match t.below(4) {
        0 => (vec![], Kind::Inline, cls(ID, &text, &[], Some(unknown))),
        1 => (vec![], Kind::Inline, clst(ID, &text, &[], Some(unknown))),
        _ => {
          let (pre, b, kind) = typed_holder(t, 4, &info);
          (pre, kind, cat(&[&b, &[10]]))
        },
      };
      fault(pre, kind, bytes, "missing library ID")
    },
    2 => {
      let second = cat(&[&lib(50, t.of(&["L", "M"])), &cls(ID, &text, &[], Some(50))]);
      fault(needs_library(), Kind::Inline, second, "duplicate library ID")
    },
    // object IDs
    3 => {
      let v = not_positive(t);
      let (kind, bytes) = match t.below(6) {
        0 => (Kind::Inline, strobj(v, &text)),
        1 => (Kind::Array, objarr(v, 0)),
        2 => (Kind::Array, strarr(v, 0)),
        3 => (Kind::Array, primarr(v, *t.of(&PRIMS), &[])),
        4 => {
          let kind = t.below(3) as u8;
          (Kind::Array, binarr(v, kind, if kind == 2 { &[0, 0][..] } else { &[0][..] }, &[], t.below(3) as u8 + 1, &[]))
        },
        _ => (Kind::Member, mref(v)),
      };
      // the type of a system class has a name
      let bytes = if bytes.first() == Some(&7) && bytes.last() == Some(&3) { cat(&[&bytes, &s(&text)]) } else { bytes };
      fault(vec![], kind, bytes, "invalid object ID")
    },
    4 => {
      let pre = cat(&[&lib(50, "L"), &cls(900, "B", &[], None), &cls(901, "B", &[], None)]);
      let bytes = match t.below(6) {
        0 => cls(900, &text, &[], None),
        1 => cls(900, &text, &[], Some(50)),
        2 => clst(900, &text, &[], None),
        3 => clst(900, &text, &[], Some(50)),
        4 => cid(900, 901),
        // a class and an object inside it
        _ => cat(&[&cls(ID, "A", &["a"], None), &cls(ID, &text, &[], None)]),
      };
      fault(pre, Kind::Inline, bytes, "duplicate object ID")
    },
    // metadata IDs
    5 => {
      let pre = cat(&[&cls(900, "B", &[], None), &strobj(901, &text), &objarr(902, 0)]);
      let meta = *t.of(&[901, 902, 903 + unknown, 904, ID + 1, i32::MAX]);
      fault(pre, Kind::Inline, cid(ID, meta), "missing metadata ID")
    },
    6 => fault(cls(900, "B", &[], None), Kind::Inline, cid(ID, ID), "invalid metadata ID"),
    // lengths
    7 => {
      let v = negative(t);
      let p = *t.of(&PRIMS);
      let bytes = match t.below(8) {
        0 => objarr(ID, v),
        1 => strarr(ID, v),
        2 => cat(&[&[15], &int(ID), &int(v), &[p as u8]]),
        3 => binarr(ID, 0, &[v], &[], 1, &[]),
        4 => binarr(ID, 1, &[v], &[], 2, &[]),
        5 => binarr(ID, 2, &if t.chance(128) { [v, 1] } else { [0, v] }, &[], 2, &[]),
        6 => binarr(ID, 3, &[v], &[0], 0, &[p as u8]),
        _ => cat(&[&[7], &int(ID), &[t.below(3) as u8], &int(v), &int(0), &int(0), &[1]]),
      };
      fault(vec![], Kind::Array, bytes, "invalid length")
    },
    // codes
    8 => {
      let code = 8 + t.below(248) as u8;
      let (pre, bytes, kind) = typed_holder(t, code, &[]);
      fault(pre, kind, bytes, "expected BinaryType")
    },
    9 => {
      let code = *t.of(&[0u8, 4, 19, 20, 127, 128, 255]);
      let (pre, bytes, kind) = match t.below(4) {
        0 => (vec![], cat(&[&[15], &int(ID), &int(0), &[code]]), Kind::Array),
        1 => (vec![], vec![8, code], Kind::Member),
        2 => typed_holder(t, 0, &[code]),
        // an array of primitives as a member or element
        _ => typed_holder(t, 7, &[code]),
      };
      fault(pre, kind, bytes, "expected PrimitiveType")
    },
    10 => {
      let code = 6 + t.below(250) as u8;
      fault(vec![], Kind::Array, binarr(ID, code, &[0], &[], 1 + t.below(2) as u8, &[]), "expected BinaryArrayType")
    },
    // primitives with an invalid value, or none
    11 | 12 => {
      let p = *t.of(&PRIMS);
      let invalid = f == 11;
      let (p, raw) = if invalid {
        match t.below(3) {
          0 => (P::Bool, vec![2 + t.below(254) as u8]),
          1 => (P::Char, t.of(&BAD_UTF8).to_vec()),
          _ => {
            let mut b = vec![];
            put_str(&mut b, t.of(&["", "x", "1.2.3", "--1", "NaN", "1 2", "1,5", " 1", "0x1"]).as_bytes());
            (P::Dec, b)
          },
        }
      } else {
        // a string which ends early is no primitive for sure, the name of its fault is not specified
        let p = if p == P::Dec { P::I32 } else { p };
        let mut b = vec![];
        if p == P::Char {
          b.extend(t.of(&["é", "€", "😀"]).as_bytes());
        } else {
          crate::generate::gen_prim(t, p).encode_prim(&mut b);
        }
        let n = t.below(b.len());
        b.truncate(n);
        (p, b)
      };
      let code = p as u8;
      let (pre, head, kind) = match t.below(4) {
        0 => (vec![], vec![8, code], Kind::Member),
        1 => (vec![], cat(&[&[15], &int(ID), &int(1), &[code]]), Kind::Array),
        _ => typed_holder(t, 0, &[code]),
      };
      let want = format!("expected {}", words(p));
      Fault { pre, kind, bytes: cat(&[&head, &raw]), want, cut: !invalid }
    },
    // numbers of nulls
    13 | 14 => {
      let len = 1 + t.below(5) as i32;
      let before = t.below(len as usize);
      let rest = len as usize - before;
      // too many, or none, or less
      let n = if f == 13 { rest as i32 + 1 + if t.chance(128) { 0 } else { t.below(240) as i32 } } else { not_positive(t) };
      let run = if (0..256).contains(&n) && t.chance(128) { vec![13, n as u8] } else { cat(&[&[14], &int(n)]) };
      let nulls = vec![10; before];
      let single = if f == 13 { vec![13, 2 + t.below(254) as u8] } else { vec![13, 0] };
      let single = match t.below(3) {
        0 => single,
        1 => cat(&[&[14], &int(if f == 13 { 2 + t.u16() as i32 } else { not_positive(t) })]),
        _ => cat(&[&[14], &int(if f == 13 { i32::MAX } else { i32::MIN })]),
      };
      let (pre, kind, bytes) = match t.below(7) {
        0 => (vec![], Kind::Array, cat(&[&objarr(ID, len), &nulls, &run])),
        1 => (vec![], Kind::Array, cat(&[&strarr(ID, len), &nulls, &run])),
        2 => (vec![], Kind::Array, cat(&[&binarr(ID, 0, &[len], &[], 1 + t.below(2) as u8, &[]), &nulls, &run])),
        3 => (vec![], Kind::Array, cat(&[&binarr(ID, 2, &[1, len], &[], 2, &[]), &nulls, &run])),
        4 => (vec![], Kind::Single, single),
        5 => {
          let (ty, info) = [(1, vec![]), (2, vec![]), (3, s(&text)), (5, vec![]), (6, vec![]), (7, vec![8])][t.below(6)].clone();
          (vec![], Kind::Inline, cat(&[&clst(ID, "A", &[("a", ty, &info)], None), &single]))
        },
        _ => {
          let info = cat(&[&s(&text), &int(50)]);
          (needs_library(), Kind::Inline, cat(&[&clst(ID, "A", &[("a", 4, &info)], Some(50)), &single]))
        },
      };
      fault(pre, kind, bytes, "invalid NULL count")
    },
    // classes other than the declared ones
    15 => {
      let pre = cat(&[&lib(50, "L"), &lib(51, "M")]);
      let pre = cat(&[&pre[..lib(50, "L").len()], &cls(910, "X", &[], None), &pre[lib(50, "L").len()..], &cls(911, "X", &[], None)]);
      let typed = t.chance(128);
      let inline = |name: &str, l: Option<i32>| if typed { clst(8, name, &[], l) } else { cls(8, name, &[], l) };
      let (ty, info, other) = match t.below(5) {
        0 => (3, s("B"), inline("B", Some(50))),
        1 => (3, s("B"), inline("C", None)),
        2 => (4, cat(&[&s("B"), &int(50)]), inline("B", None)),
        3 => (4, cat(&[&s("B"), &int(50)]), inline("B", Some(51))),
        _ => (4, cat(&[&s("B"), &int(50)]), inline("C", Some(50))),
      };
      let (_, holder, kind) = typed_holder(t, ty, &info);
      fault(pre, kind, cat(&[&holder, &other]), "unexpected class")
    },
    // records which end within their IDs, lengths and counts
    16 => {
      let (pre, kind, whole, from) = match t.below(8) {
        0 => (vec![], Kind::Inline, strobj(ID, ""), 1..5),
        1 => (vec![], Kind::Array, objarr(ID, 0), 1..9),
        2 => (vec![], Kind::Array, strarr(ID, 0), 1..9),
        3 => (vec![], Kind::Array, primarr(ID, *t.of(&PRIMS), &[]), 1..9),
        4 => (vec![], Kind::Array, binarr(ID, 0, &[0], &[], 1, &[]), 6..14),
        5 => (vec![], Kind::Member, mref(ID), 1..5),
        6 => (cls(900, "B", &[], None), Kind::Inline, cid(ID, 900), 1..9),
        _ => (vec![], Kind::Member, cat(&[&[14], &int(1)]), 1..5),
      };
      let n = from.start + t.below(from.len());
      Fault { pre, kind, bytes: whole[..n].to_vec(), want: "expected an INT32".into(), cut: true }
    },
    // records which end before a code
    _ => {
      let (bytes, want, kind) = match t.below(4) {
        0 => (binarr(ID, 0, &[0], &[], 1, &[])[..5].to_vec(), "expected BinaryArrayType", Kind::Array),
        1 => (binarr(ID, 0, &[0], &[], 1, &[])[..14].to_vec(), "expected BinaryType", Kind::Array),
        2 => (primarr(ID, P::Byte, &[])[..9].to_vec(), "expected PrimitiveType", Kind::Array),
        _ => (vec![8], "expected PrimitiveType", Kind::Member),
      };
      Fault { pre: vec![], kind, bytes, want: want.into(), cut: true }
    },
  }
}

/// Members or elements which are complete in themselves.
fn sibling(t: &mut Tape, id: &mut i32) -> Vec<u8> {
  *id += 1;
  match t.below(4) {
    0 => vec![10],
    1 => typed(P::I16, &MV::I16(t.u16() as i16)),
    2 => strobj(*id, &gen_string(t, 1)),
    _ => cls(*id, &gen_string(t, 1), &[], None),
  }
}

/// The whole message, with the faulty record in some surroundings.
pub fn place(t: &mut Tape, f: &Fault) -> Vec<u8> {
  let mut id = 920;
  let mut b = vec![];
  for _ in 0..t.below(3) {
    id += 1;
    match t.below(3) {
      0 => b.extend(strobj(id, &gen_string(t, 1))),
      1 => b.extend(cat(&[&objarr(id, 1), &[10]])),
      _ => b.extend(cls(id, &gen_string(t, 1), &[], None)),
    }
  }
  b.extend(&f.pre);
  let top = matches!(f.kind, Kind::Inline | Kind::Array);
  let deep = !top || f.kind == Kind::Inline && t.chance(150);
  let call = t.chance(40);
  if call {
    let ret = t.chance(128);
    b.extend(cat(&[&[if ret { 22 } else { 21 }], &int(if ret { 0x214 } else { 0x14 })]));
    // a method return has no names, here it returns nothing
    if !ret {
      b.extend(cat(&[&[18], &s("m"), &[18], &s("t")]));
    }
  }
  let mut root = 1;
  let mut after = 0;
  if deep {
    let levels = if call && f.kind == Kind::Single { 2 } else { 1 } + t.below(4);
    for i in 0..levels {
      let at = 2 + i as i32 * 100000;
      // an array only as the outermost, or after a reference
      let outermost = i == 0;
      let own = if outermost { 1 } else { at };
      let (before, following) = (t.below(3), t.below(3));
      after += following;
      let n = before + 1 + following;
      let names: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
      let array = f.kind != Kind::Single || i + 1 < levels;
      let kind = if call && outermost { 5 } else { t.below(if outermost && array { 7 } else { 4 }) };
      match kind {
        0 | 1 => b.extend(cls(own, "R", &names.iter().map(|n| &**n).collect::<Vec<_>>(), None)),
        2 | 3 => b.extend(clst(own, "R", &names.iter().map(|n| (&**n, 2, &[][..])).collect::<Vec<_>>(), None)),
        4 => b.extend(binarr(own, t.below(2) as u8, &[n as i32], &[], 2, &[])),
        5 => b.extend(objarr(own, n as i32)),
        // a reference, whose target comes next
        _ => b.extend(cat(&[&objarr(own, 1), &mref(50000), &objarr(50000, n as i32)])),
      }
      for _ in 0..before {
        b.extend(sibling(t, &mut id));
      }
    }
  } else if call {
    b.extend(cat(&[&objarr(1, 1), &mref(ID)]));
  } else {
    match t.below(5) {
      0 => root = ID,
      1 => b.extend(strobj(1, "x")),
      2 => b.extend(cat(&[&objarr(1, 1), &mref(ID)])),
      3 => b.extend(cat(&[&cls(1, "R", &["m"], None), &mref(ID)])),
      _ => b.extend(cat(&[&objarr(1, 2), &mref(2), &mref(ID), &cls(2, "R", &[], None)])),
    }
  }
  b.extend(&f.bytes);
  if !f.cut {
    for _ in 0..after {
      b.extend(sibling(t, &mut id));
    }
  }
  with_header(root, b, f.cut)
}

fn with_header(root: i32, body: Vec<u8>, cut: bool) -> Vec<u8> {
  let mut m = message(root, &body);
  if cut {
    m.pop();
  }
  m
}
