//! The checks of the properties which concern deserialization.

use crate::encode::encode;
use crate::errors::*;
use crate::generate::{Profile, gen_decimal, gen_int, gen_prim, gen_string, generate, near, near_pairs};
use crate::model::*;
use crate::mutate;
use crate::props::{accepted, label_tags, nbuild::*, some_message};
use crate::refdec::{Verdict, decode};
use crate::run::{Check, Cx, enumerate, phase};
use crate::sd::*;
use crate::tape::Tape;
use nrbf::{RemotingMessage, Value};
use serde::Deserialize;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};

type Res = Result<(), String>;
const K: u64 = 1000;

// --- values --------------------------------------------------------------------------------------------------------

const CLASSES: [&str; 32] = [
  "Customer",
  "Ns.Order",
  "System.Int32X",
  "System.Int",
  "system.Int32",
  "System.String",
  "System.Decimal",
  "System.DateTime",
  "System.Collections.Generic.Dictionary`2[[System.String],[System.Int32]]",
  "System.Collections.ArrayList",
  "Ns.List`1[[System.Int32]]",
  "System.Collections.Generic.Listing",
  "",
  "System.Object",
  "My.System.Collections.Generic.List`1",
  "System.Boolean.X",
  "System.Guid",
  "System.TimeSpan",
  "System.Void",
  "System.Nullable`1[[System.Int32]]",
  "System.Collections.Hashtable",
  "System.Collections.Generic.HashSet`1[[A]]",
  "System.Collections.Generic.KeyValuePair`2[[A],[B]]",
  "System.Collections.Generic.List",
  "System.Collections.Generic.List`2[[A],[B]]",
  " System.Int32",
  "System.Int32 ",
  "System.Int32[]",
  "System.Int32, mscorlib",
  "Int32",
  "SYSTEM.INT32",
  "\u{feff}System.Int32",
];
const NAMES: [&str; 24] = [
  "name", "age", "m_value", "_items", "_size", "_version", "", "größe", "value__", "<Id>k__BackingField", "a", "b",
  "Name", "_name", "name ", " name", "<name>k__BackingField", "Base+name", "m_name", "NAME", "items", "size", "a\0", "\u{feff}a",
];

pub struct Vals {
  pub boxes: u8,
  pub lists: u8,
  /// Chance of an incorrect box or list.
  pub broken: u8,
  pub budget: i32,
}

pub fn gen_box(t: &mut Tape, broken: u8) -> MV {
  let (name, p) = *t.of(&BOXES);
  let v = gen_prim(t, p);
  if t.chance(broken) {
    let members = match t.below(7) {
      0 => vec![],
      1 => vec![("m_value", v), ("b", MV::I32(1))],
      2 => vec![("value", v)],
      3 => vec![("m_value", MV::Null)],
      4 => vec![("m_value", MV::Arr(vec![v]))],
      5 => vec![("b", v), ("m_value", MV::Null)],
      _ => vec![("m_value", MV::Str("text".into()))],
    };
    return obj(name, None, members);
  }
  // a class of a library is never a box
  if t.chance(20) {
    return obj(name, Some("Lib"), vec![("m_value", v)]);
  }
  obj(name, None, vec![("m_value", v)])
}

fn list_name(t: &mut Tape) -> String {
  match t.below(5) {
    0 | 1 => format!("{LIST}`1[[System.String, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]"),
    2 => format!("{LIST}`1[[{}]]", gen_string(t, 0)),
    3 => format!("{LIST}`1"),
    _ => format!("{LIST}`1[[{LIST}`1[[System.Int32]]]]"),
  }
}

pub fn gen_list(t: &mut Tape, items: Vec<MV>, broken: u8) -> MV {
  let n = items.len() as i32;
  let size = if t.chance(160) { n } else { t.below(n as usize + 1) as i32 };
  let version = gen_int(t, 32) as i32;
  let name = list_name(t);
  let mut m =
    vec![("_items", MV::Arr(items)), ("_size", MV::I32(size)), ("_version", MV::I32(version))];
  if t.chance(broken) {
    match t.below(9) {
      0 => m[1].1 = MV::I32(n + 1),
      1 => m[1].1 = MV::I32(*t.of(&[-1, i32::MIN, i32::MAX, 1000])),
      2 => m[1].1 = MV::I64(size as i64),
      3 => m[0].1 = MV::Null,
      4 => m[0].1 = MV::Str("x".into()),
      5 => {
        let i = t.below(3);
        m.remove(i);
      },
      6 => m.push(("b", MV::Null)),
      7 => m[2].1 = MV::Null,
      _ => {
        let i = t.below(3);
        m[i].0 = "b";
      },
    }
    // make sure that a size is really beyond the end
    if let (MV::Arr(a), MV::I32(s)) = (&m[0].1, &m[1].1) {
      let _ = (a, s);
    }
  }
  let k = t.below(m.len().max(1));
  m.rotate_left(k);
  let lib = t.chance(16).then_some("Lib");
  obj(&name, lib, m)
}

pub fn gen_mv(t: &mut Tape, c: &mut Vals, depth: usize) -> MV {
  c.budget -= 1;
  if c.budget <= 0 || depth == 0 {
    return match t.below(4) {
      0 => MV::Null,
      1 => MV::Str(gen_string(t, 2)),
      _ => {
        let p = *t.of(&PRIMS);
        gen_prim(t, p)
      },
    };
  }
  match t.pick(&[4, 2, 2, 3, 3, c.boxes, c.lists]) {
    0 => {
      let p = *t.of(&PRIMS);
      gen_prim(t, p)
    },
    1 => MV::Str(gen_string(t, 2)),
    2 => MV::Null,
    3 => gen_array(t, c, depth - 1),
    4 => gen_object(t, c, depth - 1),
    5 => gen_box(t, c.broken),
    _ => {
      let MV::Arr(a) = gen_array(t, c, depth - 1) else { unreachable!() };
      gen_list(t, a, c.broken)
    },
  }
}

/// Mostly a few, sometimes many.
fn how_many(t: &mut Tape) -> usize {
  match t.below(24) {
    0 => t.below(12),
    1 => t.below(40),
    _ => t.below(6),
  }
}

fn gen_array(t: &mut Tape, c: &mut Vals, depth: usize) -> MV {
  let n = how_many(t);
  MV::Arr(match t.below(4) {
    // of one type
    0 => {
      let p = *t.of(&PRIMS);
      (0..n).map(|_| gen_prim(t, p)).collect()
    },
    1 => (0..n).map(|_| if t.chance(60) { MV::Null } else { MV::Str(gen_string(t, 0)) }).collect(),
    _ => (0..n).map(|_| gen_mv(t, c, depth)).collect(),
  })
}

fn gen_object(t: &mut Tape, c: &mut Vals, depth: usize) -> MV {
  let class = t.of(&CLASSES).to_string();
  let lib = t.chance(110).then(|| t.of(&["Lib", "Other, Version=1.0.0.0"]).to_string());
  let n = how_many(t);
  let mut members: Vec<(String, MV)> = vec![];
  for i in 0..n {
    let name = if n > 5 && t.chance(80) { format!("{}{i}", t.of(&["", "_", "m", "m_", "A"])) } else { t.of(&NAMES).to_string() };
    if members.iter().any(|m| m.0 == name) {
      continue;
    }
    let v = gen_mv(t, c, depth);
    members.push((name, v));
  }
  MV::Obj(MObj { class, lib, members })
}

/// A value which can be the root of a message.
pub fn gen_root(t: &mut Tape, c: &mut Vals) -> MV {
  let d = 1 + t.below(4);
  match t.pick(&[2, 2, 1, 1, c.boxes, c.lists]) {
    0 => gen_object(t, c, d),
    1 => gen_array(t, c, d),
    2 => MV::Str(gen_string(t, 4)),
    3 => MV::Null,
    4 => gen_box(t, c.broken),
    _ => {
      let MV::Arr(a) = gen_array(t, c, d) else { unreachable!() };
      gen_list(t, a, c.broken)
    },
  }
}

// --- target types --------------------------------------------------------------------------------------------------

const SCALARS: [Shape; 18] = [
  Shape::Any,
  Shape::String,
  Shape::I32,
  Shape::I64,
  Shape::BStr,
  Shape::Bool,
  Shape::Char,
  Shape::F64,
  Shape::F32,
  Shape::I8,
  Shape::I16,
  Shape::I128,
  Shape::U8,
  Shape::U16,
  Shape::U32,
  Shape::U64,
  Shape::U128,
  Shape::Unit,
];

fn scalar_for(t: &mut Tape, v: &MV) -> Shape {
  if t.chance(30) {
    return Shape::Any;
  }
  match v {
    MV::Bool(_) => Shape::Bool,
    MV::Byte(_) => t.of(&[Shape::U8, Shape::U16, Shape::I16, Shape::I32, Shape::U64]).clone(),
    MV::Char(_) => t.of(&[Shape::Char, Shape::String]).clone(),
    MV::Dec(_) => Shape::String,
    MV::Double(_) => Shape::F64,
    MV::Single(_) => t.of(&[Shape::F32, Shape::F64]).clone(),
    MV::I16(_) => t.of(&[Shape::I16, Shape::I32, Shape::I64]).clone(),
    MV::I32(_) => t.of(&[Shape::I32, Shape::I64, Shape::I128, Shape::U32, Shape::F64]).clone(),
    MV::I64(_) | MV::TimeSpan(_) | MV::DateTime(_) => t.of(&[Shape::I64, Shape::I128, Shape::I32]).clone(),
    MV::SByte(_) => t.of(&[Shape::I8, Shape::I16, Shape::U8]).clone(),
    MV::U16(_) => t.of(&[Shape::U16, Shape::U32, Shape::I32]).clone(),
    MV::U32(_) => t.of(&[Shape::U32, Shape::U64, Shape::I64]).clone(),
    MV::U64(_) => t.of(&[Shape::U64, Shape::U128, Shape::I64]).clone(),
    MV::Str(_) => t.of(&[Shape::BStr, Shape::String]).clone(),
    _ => Shape::Unit,
  }
}

/// One shape which fits all items, as far as there is one.
fn common(t: &mut Tape, items: &[MV], off: u8, depth: usize) -> Shape {
  let Some(first) = items.iter().find(|v| **v != MV::Null) else {
    return if t.chance(128) { Shape::Any } else { Shape::Option(Box::new(Shape::String)) };
  };
  let nulls = items.contains(&MV::Null);
  let s = if items.iter().all(|v| *v == MV::Null || std::mem::discriminant(v) == std::mem::discriminant(first)) {
    fit(t, first, off, depth)
  } else {
    Shape::Any
  };
  if nulls && s != Shape::Any && !t.chance(off) && !matches!(s, Shape::Option(_)) { Shape::Option(Box::new(s)) } else { s }
}

/// A target type for the value, which usually fits; `off` is the chance of each part not to.
pub fn fit(t: &mut Tape, v: &MV, off: u8, depth: usize) -> Shape {
  if t.chance(off) {
    return match t.below(8) {
      0 => Shape::Seq(Box::new(Shape::Any)),
      1 => Shape::Map(Box::new(Shape::Any)),
      2 => Shape::Tuple(vec![Shape::Any; t.below(4)]),
      3 => Shape::Option(Box::new(t.of(&SCALARS).clone())),
      4 => Shape::Struct(vec![("name".into(), Shape::Any, t.chance(128))]),
      5 => Shape::Ignored,
      _ => t.of(&SCALARS).clone(),
    };
  }
  if depth == 0 {
    return Shape::Any;
  }
  if *v == MV::Null {
    return match t.below(3) {
      0 => Shape::Unit,
      1 => Shape::Any,
      _ => Shape::Option(Box::new(t.of(&SCALARS).clone())),
    };
  }
  if t.chance(40) {
    return Shape::Option(Box::new(fit(t, v, off, depth - 1)));
  }
  let fields = |t: &mut Tape, m: &[(String, MV)]| {
    let mut f: Vec<(String, Shape, bool)> = vec![];
    let strict = t.chance(60);
    for (n, v) in m {
      // left out, so that it is ignored
      if t.chance(if strict { off } else { 50 }) {
        continue;
      }
      let s = fit(t, v, off, depth - 1);
      let opt = t.chance(60);
      f.push((n.clone(), s, opt));
    }
    if t.chance(50) {
      // one which is not there
      let n = t.of(&["zz", "nAme", "age "]).to_string();
      let s = t.of(&SCALARS).clone();
      let opt = !t.chance(off);
      f.push((n, s, opt));
    }
    if t.chance(100) {
      f.reverse();
    }
    if strict { Shape::Strict(f) } else { Shape::Struct(f) }
  };
  match (face(v), v) {
    (Face::Prim(p), MV::Obj(o)) => {
      if t.chance(60) {
        fields(t, &o.members)
      } else {
        scalar_for(t, p)
      }
    },
    (Face::Prim(p), _) => scalar_for(t, p),
    (Face::Seq(_), MV::Obj(o)) if t.chance(80) => fields(t, &o.members),
    (Face::Seq(a), _) => match t.below(6) {
      0 => Shape::Tuple(a.iter().map(|x| fit(t, x, off, depth - 1)).collect()),
      1 if a.is_empty() => Shape::Tuple(vec![]),
      1 => {
        let n = a.len() + t.below(3);
        Shape::Tuple(vec![Shape::Any; n - 1])
      },
      2 => Shape::Prefix((a.len() + t.below(3)).saturating_sub(1)),
      3 => Shape::Any,
      _ => Shape::Seq(Box::new(common(t, a, off, depth - 1))),
    },
    (Face::Map(m), _) => match t.below(5) {
      0 => Shape::Any,
      1 => {
        let vs: Vec<MV> = m.iter().map(|x| x.1.clone()).collect();
        Shape::Map(Box::new(common(t, &vs, off, depth - 1)))
      },
      _ => fields(t, m),
    },
    (Face::Err | Face::Gray, MV::Obj(o)) => {
      if t.chance(128) {
        fields(t, &o.members)
      } else {
        t.of(&[Shape::Any, Shape::I32, Shape::Seq(Box::new(Shape::Any)), Shape::Ignored, Shape::Map(Box::new(Shape::Any))]).clone()
      }
    },
    _ => Shape::Any,
  }
}

/// The message is well-formed beyond doubt: both the reference decoder and the crate get this value out of it.
fn sound(bytes: &[u8], v: &MV) -> bool {
  matches!(decode(bytes), Verdict::Accept(MM::Value(w)) if w == *v)
}

fn try_shape(cx: &mut Cx, s: &Shape, v: &MV, bytes: &[u8]) -> Res {
  match compare(s, v, bytes) {
    Ok(true) => {
      cx.label(match expect(s, v) {
        Pred::Ok(_) => "fits",
        _ => "does not fit",
      });
      Ok(())
    },
    Ok(false) => {
      cx.label("not claimed");
      Ok(())
    },
    Err(e) => {
      // a message which is not parsed as this value is the matter of other properties
      if sound(bytes, v) && accepted(bytes, &MM::Value(v.clone())).is_ok() { Err(e) } else { Ok(()) }
    },
  }
}

fn shaped(cx: &mut Cx, mut c: Vals, off: u8, only: fn(&Shape) -> bool) -> Res {
  let v = gen_root(&mut cx.t, &mut c);
  let b = encode(&mut cx.t, &v);
  cx.msg(&b);
  for _ in 0..3 {
    let s = fit(&mut cx.t, &v, off, 5);
    cx.evals += 1;
    cx.nontrivial |= only(&s);
    if cx.want_sample {
      cx.sample = Some(format!("{v:?} into {s:?}").chars().take(400).collect());
    }
    try_shape(cx, &s, &v, &b)?;
  }
  Ok(())
}

fn value_only() -> Profile {
  Profile { msg: [1, 0, 0], ..Default::default() }
}

// --- C17 -----------------------------------------------------------------------------------------------------------

fn c17() -> Check {
  let p = value_only();
  Check {
    id: "C17",
    rule: "messages of the structured generator and encodings of random values, deserialized into a target which takes anything and records it, from the bytes and from the parsed message; compared with the record computed from the value; non-trivial: the value is an array or object with contents",
    assumptions: vec!["a boxed primitive whose member has another primitive type, or a generic class named like a primitive type, is not claimed"],
    phases: vec![
      phase("generated messages", 250 * K, 8000 * K, move |cx| {
        let c = generate(&mut cx.t, &p);
        cx.msg(&c.bytes);
        label_tags(cx, c.tags);
        let MM::Value(v) = &c.expected else { return Ok(()) };
        cx.nontrivial = contents(v);
        try_shape(cx, &Shape::Any, v, &c.bytes)?;
        try_shape(cx, &Shape::Ignored, v, &c.bytes)
      }),
      phase("encoded values", 350 * K, 12000 * K, |cx| {
        let v = gen_root(&mut cx.t, &mut Vals { boxes: 1, lists: 1, broken: 20, budget: 30 });
        let b = encode(&mut cx.t, &v);
        cx.msg(&b);
        cx.nontrivial = contents(&v);
        try_shape(cx, &Shape::Any, &v, &b)?;
        let h = Shape::Hinted(cx.t.u8());
        try_shape(cx, &h, &v, &b)?;
        let s = Shape::Option(Box::new(if cx.t.chance(128) { Shape::Any } else { Shape::Hinted(cx.t.u8()) }));
        try_shape(cx, &s, &v, &b)?;
        try_shape(cx, &Shape::Ignored, &v, &b)
      }),
      // every primitive type in every place of a value
      enumerate("each primitive in each place", 15 * 64, |cx| {
        let p = PRIMS[(cx.idx % 15) as usize];
        let mut r = crate::tape::Rng(cx.idx);
        let mut t = Tape::new(r.fill(64));
        let x = gen_prim(&mut t, p);
        for v in [
          MV::Arr(vec![x.clone()]),
          MV::Arr(vec![x.clone(), MV::Null, x.clone()]),
          obj("C", None, vec![("a", x.clone())]),
          obj("C", Some("L"), vec![("a", x.clone()), ("b", MV::Arr(vec![x.clone(), x.clone()]))]),
          obj("C", None, vec![("a", obj("D", None, vec![("a", x.clone())]))]),
        ] {
          let b = encode(&mut t, &v);
          cx.msg(&b);
          cx.nontrivial = true;
          cx.evals += 1;
          try_shape(cx, &Shape::Any, &v, &b)?;
          for h in 0..HINTS {
            try_shape(cx, &Shape::Hinted(h as u8), &v, &b)?;
          }
        }
        Ok(())
      }),
    ],
  }
}

fn contents(v: &MV) -> bool {
  match v {
    MV::Arr(a) => !a.is_empty(),
    MV::Obj(o) => !o.members.is_empty(),
    _ => false,
  }
}

// --- C18 -----------------------------------------------------------------------------------------------------------

#[derive(Deserialize, Debug, PartialEq)]
struct Customer<'a> {
  #[serde(borrow)]
  name: &'a str,
  age: i32,
  #[serde(rename = "<Id>k__BackingField")]
  id: u64,
  tags: Vec<Option<&'a str>>,
  boss: Option<Box<Customer<'a>>>,
  #[serde(default)]
  rate: f64,
  pos: (i16, u8),
}
#[derive(Deserialize, Debug, PartialEq)]
#[serde(deny_unknown_fields)]
struct Exact {
  a: bool,
  b: Option<char>,
  c: String,
}
#[derive(Deserialize, Debug, PartialEq)]
struct Flat<'a> {
  a: i32,
  #[serde(flatten, borrow)]
  rest: BTreeMap<&'a str, u16>,
}
#[derive(Deserialize, Debug, PartialEq)]
struct Owner<'a> {
  #[serde(borrow)]
  all: Vec<Customer<'a>>,
  #[serde(borrow)]
  by_name: BTreeMap<&'a str, Customer<'a>>,
  #[serde(borrow)]
  text: Cow<'a, str>,
  grid: [[i32; 2]; 2],
}

fn short_string(t: &mut Tape) -> String {
  gen_string(t, 3)
}

/// An object in which the customer can be found again, and the customer's fields.
fn customer_mv(t: &mut Tape, depth: usize) -> MV {
  let mut m: Vec<(&str, MV)> = vec![
    ("name", MV::Str(short_string(t))),
    ("age", match t.below(3) {
      0 => MV::I32(gen_int(t, 32) as i32),
      1 => MV::I16(gen_int(t, 16) as i16),
      _ => MV::Byte(t.u8()),
    }),
    ("<Id>k__BackingField", match t.below(2) {
      0 => MV::U64(gen_int(t, 64)),
      _ => MV::U32(gen_int(t, 32) as u32),
    }),
  ];
  let n = t.below(4);
  let tags: Vec<MV> = (0..n).map(|_| if t.chance(60) { MV::Null } else { MV::Str(short_string(t)) }).collect();
  m.push(("tags", if t.chance(100) { gen_list_exact(t, tags) } else { MV::Arr(tags) }));
  if depth > 0 && t.chance(100) {
    m.push(("boss", customer_mv(t, depth - 1)));
  } else if t.chance(128) {
    m.push(("boss", MV::Null));
  }
  if t.chance(128) {
    m.push(("rate", MV::Double((gen_int(t, 32) as i32 as f64 / 16.0).to_bits())));
  }
  m.push(("pos", MV::Arr(vec![MV::I16(gen_int(t, 16) as i16), MV::Byte(t.u8())])));
  let k = t.below(m.len());
  m.rotate_left(k);
  // members nobody asks for
  if t.chance(100) {
    let v = gen_mv(t, &mut Vals { boxes: 1, lists: 1, broken: 128, budget: 5 }, 2);
    let at = t.below(m.len());
    m.insert(at, ("other", v));
  }
  let class = t.of(&CLASSES).to_string();
  obj(&class, t.chance(128).then_some("Lib"), m)
}

fn gen_list_exact(t: &mut Tape, mut items: Vec<MV>) -> MV {
  let n = items.len() as i32;
  let spare = t.below(4);
  items.extend((0..spare).map(|_| MV::Null));
  let name = list_name(t);
  obj(&name, None, vec![("_items", MV::Arr(items)), ("_size", MV::I32(n)), ("_version", MV::I32(7))])
}

fn items_of(v: &MV) -> &[MV] {
  match face(v) {
    Face::Seq(a) => a,
    _ => unreachable!(),
  }
}
fn int_of(v: &MV) -> i128 {
  match v {
    MV::I32(v) => *v as i128,
    MV::I16(v) => *v as i128,
    MV::Byte(v) => *v as i128,
    MV::U64(v) => *v as i128,
    MV::U32(v) => *v as i128,
    _ => unreachable!(),
  }
}
fn str_of(v: &MV) -> &str {
  match v {
    MV::Str(s) => s,
    _ => unreachable!(),
  }
}

/// The customer the object denotes.
fn customer(v: &MV) -> Customer<'_> {
  let MV::Obj(o) = v else { unreachable!() };
  let get = |n: &str| o.members.iter().find(|m| m.0 == n).map(|m| &m.1);
  let pos = items_of(get("pos").unwrap());
  Customer {
    name: str_of(get("name").unwrap()),
    age: int_of(get("age").unwrap()) as i32,
    id: int_of(get("<Id>k__BackingField").unwrap()) as u64,
    tags: items_of(get("tags").unwrap())
      .iter()
      .map(|v| if let MV::Str(s) = v { Some(s.as_str()) } else { None })
      .collect(),
    boss: match get("boss") {
      None | Some(MV::Null) => None,
      Some(b) => Some(Box::new(customer(b))),
    },
    rate: match get("rate") {
      Some(MV::Double(b)) => f64::from_bits(*b),
      _ => 0.0,
    },
    pos: (int_of(&pos[0]) as i16, int_of(&pos[1]) as u8),
  }
}

fn check_eq<T: std::fmt::Debug + PartialEq>(b: &[u8], v: &MV, got: Result<T, serde::de::value::Error>, want: T) -> Res {
  if !sound(b, v) {
    return Ok(());
  }
  match got {
    Ok(g) if g == want => Ok(()),
    g => Err(format!("expected {want:?}, got {g:?}")),
  }
}

fn derived(cx: &mut Cx) -> Res {
  let t = &mut cx.t;
  match t.below(5) {
    0 | 1 => {
      let v = customer_mv(t, 3);
      let b = encode(t, &v);
      cx.msg(&b);
      cx.nontrivial = true;
      cx.label("struct");
      check_eq(&b, &v, nrbf::from_slice::<Customer>(&b), customer(&v))?;
      // one of the required fields less
      let MV::Obj(mut o) = v else { unreachable!() };
      let gone = *cx.t.of(&["name", "age", "<Id>k__BackingField", "tags", "pos"]);
      o.members.retain(|m| m.0 != gone);
      let v = MV::Obj(o);
      let b = encode(&mut cx.t, &v);
      if sound(&b, &v) && nrbf::from_slice::<Customer>(&b).is_ok() {
        cx.msg(&b);
        return Err(format!("a struct without its field {gone} was accepted"));
      }
      Ok(())
    },
    2 => {
      let mut m = vec![("a", MV::Bool(t.chance(128))), ("c", MV::Str(short_string(t)))];
      let mut want = Exact {
        a: m[0].1 == MV::Bool(true),
        b: None,
        c: str_of(&m[1].1).to_string(),
      };
      match t.below(3) {
        0 => (),
        1 => m.push(("b", MV::Null)),
        _ => {
          let c = gen_prim(t, P::Char);
          if let MV::Char(c) = c {
            want.b = Some(c);
          }
          m.push(("b", c));
        },
      }
      let extra = t.chance(60);
      if extra {
        m.push(("d", MV::Null));
      }
      let k = t.below(m.len());
      m.rotate_left(k);
      let v = obj("E", t.chance(128).then_some("Lib"), m);
      let b = encode(t, &v);
      cx.msg(&b);
      cx.nontrivial = true;
      cx.label("struct which denies other members");
      if extra {
        if sound(&b, &v) && nrbf::from_slice::<Exact>(&b).is_ok() {
          return Err("a member which the target type denies was not reported to it".into());
        }
        return Ok(());
      }
      check_eq(&b, &v, nrbf::from_slice::<Exact>(&b), want)
    },
    3 => {
      let mut m = vec![("a", MV::I32(gen_int(t, 32) as i32))];
      let mut want = Flat { a: int_of(&m[0].1) as i32, rest: BTreeMap::new() };
      for n in ["b", "", "größe", "_size"] {
        if t.chance(128) {
          let x = gen_int(t, 16) as u16;
          m.push((n, MV::U16(x)));
          want.rest.insert(n, x);
        }
      }
      let k = t.below(m.len());
      m.rotate_left(k);
      let v = obj("E", t.chance(128).then_some("Lib"), m);
      let b = encode(t, &v);
      cx.msg(&b);
      cx.nontrivial = true;
      cx.label("flattened map");
      check_eq(&b, &v, nrbf::from_slice::<Flat>(&b), want)
    },
    _ => {
      let n = t.below(4);
      let all: Vec<MV> = (0..n).map(|_| customer_mv(t, 1)).collect();
      let mut by: Vec<(&str, MV)> = vec![];
      for n in ["x", "größe", ""] {
        if t.chance(128) {
          by.push((n, customer_mv(t, 0)));
        }
      }
      let list = t.chance(128);
      let text = short_string(t);
      let g: Vec<i32> = (0..4).map(|_| gen_int(t, 32) as i32).collect();
      let v = obj("Owner", Some("Lib"), vec![
        ("all", if list { gen_list_exact(t, all) } else { MV::Arr(all) }),
        ("by_name", obj("Index", Some("Lib"), by)),
        ("text", MV::Str(text)),
        ("grid", MV::Arr(g.chunks(2).map(|c| MV::Arr(c.iter().map(|x| MV::I32(*x)).collect())).collect())),
      ]);
      let b = encode(t, &v);
      cx.msg(&b);
      cx.nontrivial = true;
      cx.label("nested structs");
      let MV::Obj(o) = &v else { unreachable!() };
      let MV::Obj(by) = &o.members[1].1 else { unreachable!() };
      let want = Owner {
        all: items_of(&o.members[0].1).iter().map(customer).collect(),
        by_name: by.members.iter().map(|m| (m.0.as_str(), customer(&m.1))).collect(),
        text: Cow::Borrowed(str_of(&o.members[2].1)),
        grid: [[g[0], g[1]], [g[2], g[3]]],
      };
      check_eq(&b, &v, nrbf::from_slice::<Owner>(&b), want)
    },
  }
}

fn c18() -> Check {
  let pairs = near_pairs();
  Check {
    id: "C18",
    rule: "random values with random struct and map target types which fit, nearly fit or do not fit (fields left out, missing, in another order, of another type), and derived types whose expected value is computed from the value; non-trivial: the target type is a struct or map",
    assumptions: vec!["serde's own Deserialize implementations and derive macros behave as documented"],
    phases: vec![
      phase("random target types", 250 * K, 8000 * K, |cx| {
        shaped(cx, Vals { boxes: 1, lists: 1, broken: 20, budget: 25 }, 12, |s| {
          matches!(s, Shape::Struct(_) | Shape::Strict(_) | Shape::Map(_))
        })
      }),
      phase("objects", 250 * K, 8000 * K, |cx| {
        let mut c = Vals { boxes: 1, lists: 1, broken: 60, budget: 25 };
        let v = gen_object(&mut cx.t, &mut c, 3);
        let b = encode(&mut cx.t, &v);
        cx.msg(&b);
        cx.nontrivial = contents(&v);
        for _ in 0..3 {
          let s = fit(&mut cx.t, &v, 8, 5);
          cx.evals += 1;
          try_shape(cx, &s, &v, &b)?;
        }
        Ok(())
      }),
      phase("derived types", 150 * K, 5000 * K, derived),
      enumerate("names which are nearly the same", pairs.len() as u64 * 4, move |cx| {
        let (a, b) = &pairs[(cx.idx / 4) as usize];
        let (a, b) = if cx.idx & 1 == 0 { (a, b) } else { (b, a) };
        let mut m = vec![(b.as_str(), MV::I32(2))];
        if cx.idx & 2 == 0 {
          m.push((a.as_str(), MV::I32(1)));
        }
        let v = obj("Customer", *cx.t.of(&[None, Some("Lib")]), m);
        let b1 = encode(&mut cx.t, &v);
        cx.msg(&b1);
        cx.nontrivial = true;
        cx.evals += 4;
        let f = |n: &str, opt| (n.to_string(), Shape::I32, opt);
        for s in [
          Shape::Struct(vec![f(a, false)]),
          Shape::Struct(vec![f(a, false), f(b, false)]),
          Shape::Strict(vec![f(a, true)]),
          Shape::Map(Box::new(Shape::I32)),
        ] {
          try_shape(cx, &s, &v, &b1)?;
        }
        Ok(())
      }),
    ],
  }
}

// --- C19 -----------------------------------------------------------------------------------------------------------

/// Ways to put a value into a message, with a target type for what is around it.
fn context(t: &mut Tape, v: MV, s: Shape) -> (MV, Shape) {
  match t.below(6) {
    0 => (v, s),
    1 => (MV::Arr(vec![v]), Shape::Seq(Box::new(s))),
    2 => (obj("C", None, vec![("a", v), ("b", MV::I32(1))]), Shape::Struct(vec![("a".into(), s, false)])),
    3 => (obj("C", Some("L"), vec![("a", v)]), Shape::Map(Box::new(s))),
    4 => (gen_list_exact(t, vec![v]), Shape::Seq(Box::new(s))),
    _ => (MV::Arr(vec![MV::Null, v]), Shape::Tuple(vec![Shape::Unit, s])),
  }
}

fn c19() -> Check {
  let specials: Vec<(usize, String)> = BOXES
    .iter()
    .map(|b| b.0)
    .chain([LIST, "System.Collections.Generic.List`1[[System.Int32]]"])
    .enumerate()
    .flat_map(|(i, n)| near(n).into_iter().map(move |m| (i, m)))
    .collect();
  Check {
    id: "C19",
    rule: "boxed primitives of all twelve types and lists with any size and capacity, correct and defective, alone, in arrays, members and lists, with and without library, into fitting and unfitting target types; non-trivial: the value contains a box or a list",
    assumptions: vec!["a box whose member has another primitive type, or a generic class named like a primitive type, is not claimed"],
    phases: vec![
      phase("boxed primitives", 250 * K, 8000 * K, |cx| {
        let v = gen_box(&mut cx.t, 70);
        let s = match cx.t.below(4) {
          0 => Shape::Any,
          1 => cx.t.of(&SCALARS).clone(),
          _ => fit(&mut cx.t, &v, 10, 3),
        };
        let (v, s) = context(&mut cx.t, v, s);
        let b = encode(&mut cx.t, &v);
        cx.msg(&b);
        cx.nontrivial = true;
        try_shape(cx, &s, &v, &b)
      }),
      phase("lists", 250 * K, 8000 * K, |cx| {
        let MV::Arr(a) = gen_array(&mut cx.t, &mut Vals { boxes: 2, lists: 1, broken: 10, budget: 10 }, 2) else {
          unreachable!()
        };
        let v = gen_list(&mut cx.t, a, 90);
        let s = match cx.t.below(4) {
          0 => Shape::Any,
          1 => Shape::Struct(vec![
            ("_items".into(), Shape::Any, false),
            ("_size".into(), Shape::Any, false),
            ("_version".into(), Shape::Any, true),
          ]),
          _ => fit(&mut cx.t, &v, 10, 4),
        };
        let (v, s) = context(&mut cx.t, v, s);
        let b = encode(&mut cx.t, &v);
        cx.msg(&b);
        cx.nontrivial = true;
        try_shape(cx, &s, &v, &b)
      }),
      enumerate("classes which are nearly a box or list", specials.len() as u64, move |cx| {
        let (i, name) = &specials[cx.idx as usize];
        let members = match BOXES.get(*i) {
          Some((_, p)) => vec![("m_value", gen_prim(&mut cx.t, *p))],
          None => vec![
            ("_items", MV::Arr(vec![MV::I32(5), MV::I32(6)])),
            ("_size", MV::I32(1)),
            ("_version", MV::I32(0)),
          ],
        };
        let v = obj(name, None, members);
        let b = encode(&mut cx.t, &v);
        cx.msg(&b);
        cx.nontrivial = true;
        cx.evals += 4;
        for s in [
          Shape::Any,
          Shape::I64,
          Shape::Seq(Box::new(Shape::Any)),
          Shape::Map(Box::new(Shape::Any)),
          Shape::Struct(vec![("m_value".into(), Shape::Any, false)]),
        ] {
          try_shape(cx, &s, &v, &b)?;
        }
        Ok(())
      }),
      // every size for every capacity up to 12
      enumerate("sizes and capacities", 13 * 17, |cx| {
        let cap = (cx.idx / 17) as usize;
        let size = (cx.idx % 17) as i32 - 2;
        let items: Vec<MV> = (0..cap).map(|i| MV::I32(i as i32)).collect();
        let v = obj(&format!("{LIST}`1[[System.Int32]]"), None, vec![
          ("_items", MV::Arr(items)), ("_size", MV::I32(size)), ("_version", MV::I32(0)),
        ]);
        for round in 0..6u8 {
          let mut t = Tape::new(vec![round.wrapping_mul(85); 64]);
          let b = encode(&mut t, &v);
          cx.msg(&b);
          cx.nontrivial = true;
          cx.evals += 4;
          for s in [
            Shape::Any,
            Shape::Seq(Box::new(Shape::I32)),
            Shape::Tuple(vec![Shape::I64; size.max(0) as usize]),
            Shape::Tuple(vec![Shape::Any; cap]),
            Shape::Prefix(size.max(1) as usize - 1),
          ] {
            try_shape(cx, &s, &v, &b)?;
          }
        }
        Ok(())
      }),
      // names which are nearly one of the special names
      enumerate("similar names", 13 * 8, |cx| {
        let (name, x) = match cx.idx / 8 {
          12 => (LIST, MV::I32(5)),
          i => {
            let (n, p) = BOXES[i as usize];
            (n, gen_prim(&mut Tape::new(vec![77; 8]), p))
          },
        };
        let near = match cx.idx % 8 {
          0 => format!("{name}s"),
          1 => format!(" {name}"),
          2 => name.to_lowercase(),
          3 => name[..name.len() - 1].to_string(),
          4 => format!("{name}[]"),
          5 => format!("My.{name}"),
          6 => name.trim_start_matches("System.").to_string(),
          _ => format!("{name},mscorlib"),
        };
        let members = match cx.idx / 8 {
          12 => vec![("_items", MV::Arr(vec![x])), ("_size", MV::I32(1)), ("_version", MV::I32(0))],
          _ => vec![("m_value", x)],
        };
        for v in [obj(&near, None, members.clone()), obj(name, Some("mscorlib"), members)] {
          let b = encode(&mut cx.t, &v);
          cx.msg(&b);
          cx.nontrivial = true;
          cx.evals += 1;
          try_shape(cx, &Shape::Any, &v, &b)?;
          try_shape(cx, &Shape::Map(Box::new(Shape::Any)), &v, &b)?;
        }
        Ok(())
      }),
    ],
  }
}

// --- C20 -----------------------------------------------------------------------------------------------------------

fn c20() -> Check {
  Check {
    id: "C20",
    rule: "arrays, lists, nulls and other values into options, units, sequences, tuples of every length and visitors which stop early; non-trivial: the target is an option, or a tuple or partial sequence",
    assumptions: vec![],
    phases: vec![
      // every number of items against every number asked for
      enumerate("lengths", 16 * 16 * 2, |cx| {
        let (n, k, list) = ((cx.idx % 16) as usize, (cx.idx / 16 % 16) as usize, cx.idx / 256 == 1);
        for kind in 0..3 {
          let items: Vec<MV> = (0..n)
            .map(|i| match kind {
              0 => MV::I32(i as i32),
              1 => MV::Null,
              _ => MV::Str(format!("s{i}")),
            })
            .collect();
          let v = if list { gen_list_exact(&mut cx.t, items) } else { MV::Arr(items) };
          let el = [Shape::I32, Shape::Unit, Shape::BStr][kind].clone();
          for s in [
            Shape::Tuple(vec![el.clone(); k]),
            Shape::Prefix(k),
            Shape::Option(Box::new(Shape::Tuple(vec![el.clone(); k]))),
            Shape::Tuple(vec![Shape::Option(Box::new(el.clone())); k]),
          ] {
            for (v, s) in [
              (v.clone(), s.clone()),
              (MV::Arr(vec![v.clone()]), Shape::Seq(Box::new(s.clone()))),
              (obj("C", Some("L"), vec![("a", v.clone())]), Shape::Struct(vec![("a".into(), s.clone(), false)])),
            ] {
              let b = encode(&mut cx.t, &v);
              cx.msg(&b);
              cx.nontrivial = true;
              cx.evals += 1;
              try_shape(cx, &s, &v, &b)?;
              // the error tells both numbers
              if let Shape::Prefix(_) = s
                && n > k
              {
                let e = from_slice(&s, &b).err().unwrap_or_default();
                let numbers: Vec<usize> =
                  e.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect();
                if !numbers.contains(&n) || !numbers.contains(&k) {
                  return Err(format!("{n} items for a target which takes {k}, the error is {e:?}"));
                }
              }
            }
          }
        }
        Ok(())
      }),
      phase("options", 250 * K, 8000 * K, |cx| {
        let v = if cx.t.chance(90) {
          MV::Null
        } else {
          gen_mv(&mut cx.t, &mut Vals { boxes: 2, lists: 2, broken: 10, budget: 6 }, 2)
        };
        let mut s = fit(&mut cx.t, &v, 30, 3);
        for _ in 0..1 + cx.t.below(2) {
          s = Shape::Option(Box::new(s));
        }
        let (v, s) = if prim_of(&v).is_some() {
          (MV::Arr(vec![v]), Shape::Seq(Box::new(s)))
        } else {
          context(&mut cx.t, v, s)
        };
        let b = encode(&mut cx.t, &v);
        cx.msg(&b);
        cx.nontrivial = true;
        if cx.want_sample {
          cx.sample = Some(format!("{v:?} into {s:?}").chars().take(400).collect());
        }
        try_shape(cx, &s, &v, &b)
      }),
      phase("sequences", 250 * K, 8000 * K, |cx| {
        let MV::Arr(a) = gen_array(&mut cx.t, &mut Vals { boxes: 1, lists: 1, broken: 10, budget: 12 }, 2) else {
          unreachable!()
        };
        let v = if cx.t.chance(100) { gen_list(&mut cx.t, a, 20) } else { MV::Arr(a) };
        let s = fit(&mut cx.t, &v, 10, 4);
        cx.nontrivial = matches!(s, Shape::Tuple(_) | Shape::Prefix(_) | Shape::Option(_));
        let (v, s) = context(&mut cx.t, v, s);
        let b = encode(&mut cx.t, &v);
        cx.msg(&b);
        try_shape(cx, &s, &v, &b)
      }),
    ],
  }
}

// --- C21 -----------------------------------------------------------------------------------------------------------

/// Tries a target type on every item of a sequence.
struct TryEach<'s>(&'s Shape);
impl<'de> serde::de::DeserializeSeed<'de> for TryEach<'_> {
  type Value = Vec<Option<Out>>;
  fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
    struct Item<'s>(&'s Shape);
    impl<'de> serde::de::DeserializeSeed<'de> for Item<'_> {
      type Value = Option<Out>;
      fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<Option<Out>, D::Error> {
        Ok(self.0.deserialize(d).ok())
      }
    }
    impl<'de> serde::de::Visitor<'de> for TryEach<'_> {
      type Value = Vec<Option<Out>>;
      fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("a sequence")
      }
      fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(Item(self.0))? {
          v.push(x);
        }
        Ok(v)
      }
    }
    d.deserialize_seq(self)
  }
}

fn each(cx: &mut Cx, items: &[MV], bytes: &[u8], s: &Shape) -> Res {
  use serde::de::DeserializeSeed;
  let m = RemotingMessage::parse(bytes).map_err(|e| format!("a well-formed message was rejected: {e}"))?;
  let got = TryEach(s).deserialize(m).map_err(|e| format!("a sequence was rejected: {e}"))?;
  if got.len() != items.len() {
    return Err(format!("{} items were seen of {}", got.len(), items.len()));
  }
  cx.evals += items.len() as u64;
  for (g, v) in got.iter().zip(items) {
    let bad = match (expect(s, v), g) {
      (Pred::Gray, _) => false,
      (Pred::Ok(w), Some(g)) => w != *g,
      (Pred::Err, None) => false,
      _ => true,
    };
    if bad {
      return Err(format!("{v:?} into {s:?} gives {g:?}, expected {:?}", expect(s, v)));
    }
  }
  Ok(())
}

fn c21() -> Check {
  const TARGETS: [Shape; 13] = [
    Shape::I8, Shape::I16, Shape::I32, Shape::I64, Shape::I128, Shape::U8, Shape::U16, Shape::U32, Shape::U64,
    Shape::U128, Shape::F32, Shape::F64, Shape::Bool,
  ];
  Check {
    id: "C21",
    rule: "all values of the 8- and 16-bit types and Boolean, and the edges and random values of the wider ones and of floating point, time span and date-time, into every numeric type: the same number, or an error if there is none; non-trivial: a conversion to another type",
    assumptions: vec!["conversions of large integers or NaN to floating point, and of doubles to singles, are rounded by serde and not claimed"],
    phases: vec![
      enumerate("all small values", 5 * 13, |cx| {
        let s = &TARGETS[(cx.idx % 13) as usize];
        let (p, items): (P, Vec<MV>) = match cx.idx / 13 {
          0 => (P::Byte, (0..=255).map(MV::Byte).collect()),
          1 => (P::SByte, (-128..=127).map(MV::SByte).collect()),
          2 => (P::I16, (i16::MIN..=i16::MAX).map(MV::I16).collect()),
          3 => (P::U16, (0..=u16::MAX).map(MV::U16).collect()),
          _ => (P::Bool, vec![MV::Bool(false), MV::Bool(true)]),
        };
        let b = prim_array_message(p, &items);
        cx.key = cx.idx;
        cx.nontrivial = true;
        cx.sample = Some(format!("all {} values of {p:?} into {s:?}", items.len()));
        each(cx, &items, &b, s)
      }),
      enumerate("edges", 10 * 13, |cx| {
        let s = &TARGETS[(cx.idx % 13) as usize];
        let p = [P::I32, P::U32, P::I64, P::U64, P::TimeSpan, P::DateTime, P::Single, P::Double, P::Char, P::Dec][(cx.idx / 13) as usize];
        let mut items = vec![];
        for k in 0..64u32 {
          for d in [-2i128, -1, 0, 1, 2] {
            for sign in [1, -1] {
              let x = sign * ((1i128 << k) + d);
              items.push(match p {
                P::I32 => i32::try_from(x).ok().map(MV::I32),
                P::U32 => u32::try_from(x).ok().map(MV::U32),
                P::I64 => i64::try_from(x).ok().map(MV::I64),
                P::U64 => u64::try_from(x).ok().map(MV::U64),
                P::TimeSpan => i64::try_from(x).ok().map(MV::TimeSpan),
                P::DateTime => i64::try_from(x).ok().map(MV::DateTime),
                P::Single => Some(MV::Single((x as f32).to_bits())),
                P::Double => Some(MV::Double((x as f64).to_bits())),
                P::Char => u32::try_from(x).ok().and_then(char::from_u32).map(MV::Char),
                _ => Some(MV::Dec(x.to_string())),
              });
            }
          }
        }
        let items: Vec<MV> = items.into_iter().flatten().filter(|v| *v != MV::Dec("0".into())).collect();
        let b = prim_array_message(p, &items);
        cx.key = cx.idx;
        cx.nontrivial = true;
        cx.sample = Some(format!("{} values of {p:?} into {s:?}", items.len()));
        each(cx, &items, &b, s)
      }),
      phase("random values", 60 * K, 2000 * K, |cx| {
        let s = cx.t.of(&TARGETS).clone();
        let n = 1 + cx.t.below(16);
        // of mixed types, or boxed, or of one type
        let kind = cx.t.below(3);
        let p0 = *cx.t.of(&PRIMS);
        let items: Vec<MV> = (0..n)
          .map(|_| {
            let p = if kind == 0 { p0 } else { *cx.t.of(&PRIMS) };
            let v = gen_prim(&mut cx.t, p);
            match BOXES.iter().find(|b| b.1 == p) {
              Some((name, _)) if kind == 2 => obj(name, None, vec![("m_value", v)]),
              _ => v,
            }
          })
          .collect();
        let v = MV::Arr(items);
        let b = encode(&mut cx.t, &v);
        cx.msg(&b);
        if !sound(&b, &v) {
          return Ok(());
        }
        cx.nontrivial = true;
        let MV::Arr(items) = v else { unreachable!() };
        each(cx, &items, &b, &s)
      }),
    ],
  }
}

// --- C22 -----------------------------------------------------------------------------------------------------------

fn c22() -> Check {
  let p = Profile { msg: [0, 1, 1], ..Default::default() };
  let p1 = Profile { budget: 20, ..Default::default() };
  Check {
    id: "C22",
    rule: "method calls and returns into random target types, directly and from the parsed message: always an error which says what it is; mutated and random messages: deserializing fails if parsing does, with the text of that error; non-trivial: a method message, or a rejected message",
    assumptions: vec![],
    phases: vec![
      phase("method messages", 250 * K, 8000 * K, move |cx| {
        let c = generate(&mut cx.t, &p);
        cx.msg(&c.bytes);
        let (v, what) = match &c.expected {
          MM::Call { args, .. } => (args.clone(), "method call"),
          MM::Return { ret, args, .. } => (ret.clone().map(|r| vec![r]).or(args.clone()), "method return"),
          MM::Value(_) => return Ok(()),
        };
        cx.label(what);
        let v = v.and_then(|v| v.into_iter().next()).unwrap_or(MV::Null);
        for i in 0..3 {
          let s = match i {
            0 => fit(&mut cx.t, &v, 60, 4),
            1 => fit(&mut cx.t, &MV::Arr(vec![v.clone()]), 30, 4),
            _ => cx
              .t
              .of(&[
                Shape::Any,
                Shape::Ignored,
                Shape::Option(Box::new(Shape::Any)),
                Shape::Struct(vec![]),
                Shape::Unit,
                Shape::Map(Box::new(Shape::Any)),
                Shape::Struct(vec![("args".into(), Shape::Any, true), ("method_name".into(), Shape::Any, true)]),
                Shape::Tuple(vec![]),
                Shape::Hinted(cx.idx as u8),
                Shape::Hinted((cx.idx >> 8) as u8),
              ])
              .clone(),
          };
          let Ok(m) = RemotingMessage::parse(&c.bytes) else { return accepted(&c.bytes, &c.expected) };
          if matches!(m, RemotingMessage::Value(_)) {
            return accepted(&c.bytes, &c.expected);
          }
          cx.nontrivial = true;
          cx.evals += 1;
          for r in [from_slice(&s, &c.bytes), from_message(&s, &c.bytes)] {
            match r {
              Ok(o) => return Err(format!("a {what} was deserialized into {s:?} as {o:?}")),
              Err(e) if !e.contains(what) => {
                return Err(format!("the error for a {what} does not say so: {e}"));
              },
              Err(_) => (),
            }
          }
        }
        let z = cx.t.below(ZOO.len());
        match ZOO[z](&c.bytes) {
          Ok(()) => Err(format!("a {what} was deserialized into type {z} of the zoo")),
          Err(e) if !e.contains(what) => Err(format!("the error for a {what} does not say so: {e}")),
          Err(_) => Ok(()),
        }
      }),
      phase("parse errors", 400 * K, 12000 * K, move |cx| {
        let Some(m) = some_message(&mut cx.t, &p1) else { return Ok(()) };
        cx.msg(&m);
        let Err(e) = RemotingMessage::parse(&m) else {
          cx.label("well-formed");
          return Ok(());
        };
        let e = e.to_string();
        cx.nontrivial = true;
        let s = match cx.t.below(4) {
          0 => Shape::Any,
          1 => Shape::Ignored,
          2 => Shape::Option(Box::new(Shape::Any)),
          _ => cx.t.of(&SCALARS).clone(),
        };
        match from_slice(&s, &m) {
          Ok(o) => Err(format!("a message which cannot be parsed was deserialized as {o:?}")),
          Err(x) if !x.contains(&e) => Err(format!("the error {x:?} does not contain that of the parser: {e:?}")),
          Err(_) => {
            let z = cx.t.below(ZOO.len());
            match ZOO[z](&m) {
              Ok(()) => Err(format!("a message which cannot be parsed was deserialized into type {z} of the zoo")),
              Err(x) if !x.contains(&e) => Err(format!("the error {x:?} does not contain that of the parser: {e:?}")),
              Err(_) => Ok(()),
            }
          },
        }
      }),
    ],
  }
}

// --- C24 -----------------------------------------------------------------------------------------------------------

fn stamp(cx: &mut Cx, raw: i64) -> Res {
  let b = prim_array_message(P::DateTime, &[MV::DateTime(raw)]);
  cx.msg(&b);
  cx.nontrivial = true;
  let m = RemotingMessage::parse(&b).map_err(|e| format!("a well-formed message was rejected: {e}"))?;
  let RemotingMessage::Value(Value::Array(a)) = &m else { return Err("not an array".into()) };
  let [Value::DateTime(d)] = a.as_slice() else { return Err("not a date-time".into()) };
  let ticks = (raw as u64 & 0x3FFF_FFFF_FFFF_FFFF) as i64;
  if d.ticks() != ticks {
    return Err(format!("date-time {raw:#x}: {} ticks, expected {ticks}", d.ticks()));
  }
  let kind = (raw as u64 >> 62) as u8;
  if kind_no(d.kind()) != kind % 3 {
    return Err(format!("date-time {raw:#x}: kind {}, expected {}", kind_no(d.kind()), kind % 3));
  }
  let v: Vec<i64> = nrbf::from_slice(&b).map_err(|e| e.to_string())?;
  if v != [raw] {
    return Err(format!("date-time {raw:#x} is deserialized as {v:x?}"));
  }
  Ok(())
}

fn span(cx: &mut Cx, raw: i64) -> Res {
  let b = prim_array_message(P::TimeSpan, &[MV::TimeSpan(raw)]);
  cx.msg(&b);
  cx.nontrivial = true;
  let m = RemotingMessage::parse(&b).map_err(|e| format!("a well-formed message was rejected: {e}"))?;
  let RemotingMessage::Value(Value::Array(a)) = &m else { return Err("not an array".into()) };
  let [Value::TimeSpan(d)] = a.as_slice() else { return Err("not a time span".into()) };
  if d.value() != raw {
    return Err(format!("time span {raw}: value {}", d.value()));
  }
  let v: Vec<i64> = nrbf::from_slice(&b).map_err(|e| e.to_string())?;
  if v != [raw] {
    return Err(format!("time span {raw} is deserialized as {v:?}"));
  }
  Ok(())
}

fn decimal(cx: &mut Cx, text: &str) -> Res {
  let b = prim_array_message(P::Dec, &[MV::Dec(text.into())]);
  cx.msg(&b);
  cx.nontrivial = true;
  let v: Vec<String> = nrbf::from_slice(&b).map_err(|e| format!("decimal {text}: {e}"))?;
  if v != [text] {
    return Err(format!("decimal {text} is deserialized as {v:?}"));
  }
  Ok(())
}

/// Decimals are equal exactly if their numbers are.
fn decimals_differ(cx: &mut Cx) -> Res {
  let a = gen_decimal(&mut cx.t);
  let mut b = gen_decimal(&mut cx.t);
  if cx.t.chance(128) {
    // the last digit is another one
    b = a.clone();
    let l = b.pop().unwrap();
    b.push(if l == '9' { '8' } else { '9' });
  }
  let m = prim_array_message(P::Dec, &[MV::Dec(a.clone()), MV::Dec(b.clone())]);
  cx.msg(&m);
  cx.nontrivial = true;
  let norm = |s: &str| {
    let t = if s.contains('.') { s.trim_end_matches('0').trim_end_matches('.') } else { s };
    t.to_string()
  };
  match RemotingMessage::parse(&m) {
    Ok(RemotingMessage::Value(Value::Array(v))) if v.len() == 2 => {
      let same = norm(&a) == norm(&b);
      if (v[0] == v[1]) != same {
        return Err(format!("decimals {a} and {b} compare as {}", v[0] == v[1]));
      }
      Ok(())
    },
    r => Err(format!("decimals {a} and {b} give {r:?}")),
  }
}

fn c24() -> Check {
  Check {
    id: "C24",
    rule: "date-times with every bit alone and in pairs, around every power of two, the limits of the calendar and random ones, with each kind; time spans alike; decimals of every number of digits and every scale; compared through the accessors and through serde with the raw number or text; non-trivial: all",
    assumptions: vec!["only decimals in the form written by .NET are claimed"],
    phases: vec![
      enumerate("date-times by bits", 64 * 64, |cx| {
        let (i, j) = (cx.idx / 64, cx.idx % 64);
        let x = (1u64 << i) | (1 << j);
        cx.evals = 2;
        stamp(cx, x as i64)?;
        stamp(cx, !x as i64)
      }),
      enumerate("time spans by bits", 64 * 64, |cx| {
        let (i, j) = (cx.idx / 64, cx.idx % 64);
        let x = (1u64 << i) | (1 << j);
        cx.evals = 2;
        span(cx, x as i64)?;
        span(cx, !x as i64)
      }),
      enumerate("limits", 4 * 16, |cx| {
        let kind = cx.idx / 16;
        let t = [
          0i64, 1, 3155378975999999999, 3155378976000000000, 621355968000000000, 12, 0x3FFF_FFFF_FFFF_FFFF,
          0x3FFF_FFFF_FFFF_FFFE, 0x2000_0000_0000_0000, 864000000000, 10000000, -1, -2, i64::MIN, i64::MAX, 255,
        ][(cx.idx % 16) as usize];
        cx.evals = 2;
        stamp(cx, ((t as u64 & 0x3FFF_FFFF_FFFF_FFFF) | kind << 62) as i64)?;
        span(cx, t)
      }),
      phase("random date-times and time spans", 200 * K, 6000 * K, |cx| {
        let x = gen_int(&mut cx.t, 64) as i64;
        cx.evals = 2;
        stamp(cx, x)?;
        span(cx, x)
      }),
      // every number of digits, every scale, smallest and largest digits
      enumerate("decimals by digits and scale", 28 * 29 * 4, |cx| {
        let n = (cx.idx % 28 + 1) as usize;
        let scale = (cx.idx / 28 % 29) as usize;
        if scale > n {
          return Ok(());
        }
        let digits: String = match cx.idx / (28 * 29) {
          0 => "9".repeat(n),
          1 => format!("1{}", "0".repeat(n - 1)),
          2 => (0..n).map(|i| (b'1' + (i % 9) as u8) as char).collect(),
          _ => format!("{}1", "0".repeat(n - 1)),
        };
        let (i, f) = digits.split_at(n - scale);
        let i = i.trim_start_matches('0');
        let mut s = if i.is_empty() { "0".to_string() } else { i.to_string() };
        if !f.is_empty() {
          s.push('.');
          s.push_str(f);
        }
        cx.evals = 2;
        decimal(cx, &s)?;
        decimal(cx, &format!("-{s}"))
      }),
      enumerate("largest decimals", 29 * 2, |cx| {
        let max = "79228162514264337593543950335";
        let scale = (cx.idx / 2) as usize;
        let (i, f) = max.split_at(29 - scale);
        let mut s = String::new();
        if cx.idx % 2 == 1 {
          s.push('-');
        }
        s.push_str(i);
        if !f.is_empty() {
          s.push('.');
          s.push_str(f);
        }
        decimal(cx, &s)
      }),
      phase("random decimals", 150 * K, 4000 * K, |cx| {
        let s = gen_decimal(&mut cx.t);
        decimal(cx, &s)
      }),
      phase("equality of decimals", 100 * K, 3000 * K, decimals_differ),
      phase("texts which are no decimals", 100 * K, 3000 * K, |cx| {
        let text = crate::props::decimal_like(&mut cx.t);
        let not = !text.chars().any(|c| c.is_ascii_digit()) || text.chars().any(|c| !"+-._".contains(c) && !c.is_ascii_digit() && !"eE".contains(c));
        let b = prim_array_message(P::Dec, &[MV::Dec(text.clone())]);
        cx.msg(&b);
        cx.nontrivial = not;
        match RemotingMessage::parse(&b) {
          Ok(m) if not => Err(format!("the text {text:?} was accepted as a decimal: {m:?}")),
          _ => Ok(()),
        }
      }),
    ],
  }
}

// --- C25 -----------------------------------------------------------------------------------------------------------

/// A process with the crate built without serde, which answers with the canonical text of what it parses.
struct Server {
  child: std::process::Child,
  to: std::process::ChildStdin,
  from: std::io::BufReader<std::process::ChildStdout>,
}
impl Server {
  fn start() -> Self {
    use std::process::{Command, Stdio};
    let exe = std::env::var("NRBF_NOSERDE_BIN").expect("NRBF_NOSERDE_BIN");
    let mut child = Command::new(exe)
      .arg("canonical-server")
      .stdin(Stdio::piped())
      .stdout(Stdio::piped())
      .stderr(Stdio::null())
      .spawn()
      .expect("the build without serde");
    let to = child.stdin.take().unwrap();
    let from = std::io::BufReader::new(child.stdout.take().unwrap());
    Self { child, to, from }
  }
  fn ask(&mut self, b: &[u8]) -> std::io::Result<String> {
    use std::io::{Read, Write};
    let mut m = (b.len() as u32).to_le_bytes().to_vec();
    m.extend_from_slice(b);
    self.to.write_all(&m)?;
    self.to.flush()?;
    let mut l = [0; 4];
    self.from.read_exact(&mut l)?;
    let mut s = vec![0; u32::from_le_bytes(l) as usize];
    self.from.read_exact(&mut s)?;
    Ok(String::from_utf8_lossy(&s).into_owned())
  }
}
impl Drop for Server {
  fn drop(&mut self) {
    let _ = self.child.kill();
    let _ = self.child.wait();
  }
}
thread_local! {
  static SERVER: std::cell::RefCell<Option<Server>> = const { std::cell::RefCell::new(None) };
}

fn both(cx: &mut Cx, b: &[u8]) -> Res {
  cx.msg(b);
  cx.nontrivial = true;
  let here = crate::props::canonical(b);
  cx.label(if here.starts_with("error") { "rejected" } else { "parsed" });
  let there = SERVER.with(|s| {
    let mut s = s.borrow_mut();
    let r = s.get_or_insert_with(Server::start).ask(b);
    if r.is_err() {
      *s = None;
    }
    r
  });
  match there {
    Ok(t) if t == here => Ok(()),
    Ok(t) => Err(format!("with serde: {here}; without: {t}")),
    Err(e) => Err(format!("with serde: {here}; without: no answer ({e})")),
  }
}

fn c25() -> Check {
  let p = Profile::default();
  let p1 = Profile { budget: 20, ..Default::default() };
  Check {
    id: "C25",
    rule: "generated, mutated and random messages, parsed by a build with the serde feature and by a process with a build without it; the results or the error texts have to be the same; non-trivial: all",
    assumptions: vec!["both builds are made from the current tree"],
    phases: vec![
      phase("generated messages", 100 * K, 3000 * K, move |cx| {
        let c = generate(&mut cx.t, &p);
        both(cx, &c.bytes)
      }),
      phase("mutated messages", 150 * K, 5000 * K, move |cx| {
        match some_message(&mut cx.t, &p1) {
          Some(m) => both(cx, &m),
          None => Ok(()),
        }
      }),
      phase("encoded values", 60 * K, 2000 * K, |cx| {
        let v = gen_root(&mut cx.t, &mut Vals { boxes: 2, lists: 2, broken: 20, budget: 30 });
        let b = encode(&mut cx.t, &v);
        both(cx, &b)
      }),
      phase("texts of decimals", 60 * K, 2000 * K, |cx| {
        // also texts which denote no decimal or one with more digits than fit
        let n = cx.t.below(40);
        let odd = cx.t.below(3);
        let text: String = (0..n)
          .map(|_| match cx.t.below(20 + 200 * (2 - odd)) {
            0 | 1 => '.',
            2 => '-',
            3 => 'e',
            4 => '+',
            5 => '_',
            6 => ' ',
            7 => 'E',
            8 => *cx.t.of(&crate::generate::CHARS),
            d => (b'0' + (d % 10) as u8) as char,
          })
          .collect();
        let mut b = vec![];
        match cx.t.below(3) {
          0 => b.extend(prim_array_message(P::Dec, &[MV::Dec(text)])),
          1 => b.extend(message(1, &cat(&[&objarr(1, 1), &typed(P::Dec, &MV::Dec(text))]))),
          _ => b.extend(message(0, &cat(&[&[22], &int(0x811), &[P::Dec as u8], &s(&text)]))),
        }
        both(cx, &b)
      }),
    ],
  }
}

// --- C30 -----------------------------------------------------------------------------------------------------------

fn fault(t: &mut Tape) -> Fault {
  let text = match t.below(6) {
    0 => String::new(),
    1 => "x".repeat(1 + t.below(300)),
    2 => "parsing error: unexpected end of input".into(),
    _ => gen_string(t, 1),
  };
  Fault { kind: t.below(FAULTS), text }
}

fn trapped(cx: &mut Cx, v: &MV, b: &[u8], ways: &[Way], at: usize, n: usize, from_slice: bool) -> Res {
  cx.evals += 1;
  let f = fault(&mut cx.t);
  let t = Trap::new(ways.to_vec(), at, f.clone());
  let got = trap(&t, b, from_slice);
  let want = if at < n { Err(f.report()) } else { Ok(()) };
  let count = n.min(at + 1);
  if got == want && t.n.get() == count {
    return Ok(());
  }
  if !sound(b, v) || accepted(b, &MM::Value(v.clone())).is_err() {
    return Ok(());
  }
  Err(format!(
    "a target which fails with {f:?} at step {at} of {n} (asking {ways:?}, {}) gives {} after {} steps; expected {} after {count}",
    if from_slice { "from the bytes" } else { "from the message" },
    text(&got),
    t.n.get(),
    text(&want),
  ))
}

fn some_ways(t: &mut Tape) -> Vec<Way> {
  (0..t.below(6)).map(|_| *t.of(&WAYS)).collect()
}

fn reported(cx: &mut Cx, s: &Shape, v: &MV, b: &[u8]) -> Res {
  if *s == Shape::Ignored {
    return Ok(());
  }
  cx.evals += 1;
  let Some(want) = reports(s, v) else {
    cx.label("not claimed");
    return Ok(());
  };
  let fits = |got: &Result<Out, String>| match (&want, got) {
    (Ok(x), Ok(y)) => x == y,
    (Err(all), Err(e)) => all.iter().any(|x| x == e || x.contains(FREE)),
    _ => false,
  };
  if let Err(all) = &want {
    cx.nontrivial = true;
    cx.label(if all.iter().any(|x| x.contains(FREE)) { "text of the crate" } else { "text of the target" });
  } else {
    cx.label("fits");
  }
  for (got, how) in [(from_slice(s, b), "from the bytes"), (from_message(s, b), "from the message")] {
    if !fits(&got) {
      if !sound(b, v) || accepted(b, &MM::Value(v.clone())).is_err() {
        return Ok(());
      }
      return Err(format!("target {s:?} {how}: expected {}, got {}", text(&want), text(&got)));
    }
  }
  Ok(())
}

fn c30() -> Check {
  Check {
    id: "C30",
    rule: "encodings of random values into targets which fail at a chosen step (being asked, taking a value, a key, the end of a sequence or map) with one of nine kinds of errors, from the bytes and from the parsed message, and into target types which do not fit; the text of the error is that of the target, or that which a deserializer of our own gives over the value; non-trivial: something failed",
    assumptions: vec![
      "the text of an error which is the crate's own (a malformed box or list, items which the target left) is not claimed",
      "if members which come in any order give different errors, any of them is taken",
    ],
    phases: vec![
      phase("failing targets", 250 * K, 8000 * K, |cx| {
        let v = gen_root(&mut cx.t, &mut Vals { boxes: 1, lists: 2, broken: 0, budget: 30 });
        let b = encode(&mut cx.t, &v);
        cx.msg(&b);
        let ways = some_ways(&mut cx.t);
        let Some(n) = steps(&v, &ways, 0) else {
          cx.label("not claimed");
          return Ok(());
        };
        cx.nontrivial = true;
        for _ in 0..3 {
          let at = cx.t.below(n + 1);
          let from_slice = cx.t.chance(128);
          trapped(cx, &v, &b, &ways, at, n, from_slice)?;
        }
        Ok(())
      }),
      phase("each step", 12 * K, 400 * K, |cx| {
        let v = gen_root(&mut cx.t, &mut Vals { boxes: 1, lists: 2, broken: 0, budget: 20 });
        let b = encode(&mut cx.t, &v);
        cx.msg(&b);
        let ways = some_ways(&mut cx.t);
        let Some(n) = steps(&v, &ways, 0) else {
          cx.label("not claimed");
          return Ok(());
        };
        cx.nontrivial = true;
        for at in 0..=n.min(120) {
          let from_slice = at % 2 == 0;
          trapped(cx, &v, &b, &ways, at, n, from_slice)?;
        }
        Ok(())
      }),
      phase("targets which do not fit", 250 * K, 8000 * K, |cx| {
        let v = gen_root(&mut cx.t, &mut Vals { boxes: 1, lists: 1, broken: 10, budget: 24 });
        let b = encode(&mut cx.t, &v);
        cx.msg(&b);
        for _ in 0..2 {
          let off = *cx.t.of(&[30, 60, 120]);
          let s = fit(&mut cx.t, &v, off, 5);
          if cx.want_sample {
            cx.sample = Some(format!("{v:?} into {s:?}").chars().take(400).collect());
          }
          reported(cx, &s, &v, &b)?;
        }
        Ok(())
      }),
    ],
  }
}

pub fn check(id: &str) -> Option<Check> {
  let _ = (mutate::any as fn(_) -> _, HashMap::<u8, u8>::new());
  Some(match id {
    "C17" => c17(),
    "C18" => c18(),
    "C19" => c19(),
    "C20" => c20(),
    "C21" => c21(),
    "C22" => c22(),
    "C24" => c24(),
    "C25" => c25(),
    "C30" => c30(),
    _ => return None,
  })
}
