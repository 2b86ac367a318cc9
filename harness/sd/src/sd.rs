//! The serde side: what a target type sees of a value, as a model which is independent of the crate under test.
//!
//! A `Shape` describes a target type. `Shape` drives a real `Deserialize` call through the public API and records what
//! comes out of it; `expect` computes what has to come out from the value the message denotes.

use crate::model::*;
use nrbf::RemotingMessage;
use serde::Deserialize;
use serde::de::{self, DeserializeSeed, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor};
use std::{cell::RefCell, collections::BTreeMap, collections::HashMap, fmt};

#[derive(Debug, Clone, PartialEq)]
pub enum Out {
  Bool(bool),
  I8(i8),
  I16(i16),
  I32(i32),
  I64(i64),
  I128(i128),
  U8(u8),
  U16(u16),
  U32(u32),
  U64(u64),
  U128(u128),
  F32(u32),
  F64(u64),
  Char(char),
  /// Text, and whether it was borrowed from the message.
  Str(String, bool),
  Unit,
  None,
  Some(Box<Out>),
  Seq(Vec<Out>),
  /// Sorted by key.
  Map(Vec<(String, Out)>),
  /// Not looked at.
  Skipped,
  /// A field which was not there.
  Missing,
  Other(&'static str),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Shape {
  Any,
  /// Anything as well, but asks for something in particular (see `hinted`).
  Hinted(u8),
  Ignored,
  Unit,
  Bool,
  I8,
  I16,
  I32,
  I64,
  I128,
  U8,
  U16,
  U32,
  U64,
  U128,
  F32,
  F64,
  Char,
  String,
  BStr,
  Option(Box<Shape>),
  Seq(Box<Shape>),
  /// Takes exactly these items.
  Tuple(Vec<Shape>),
  Map(Box<Shape>),
  /// Name, shape, may be missing. Other members are skipped.
  Struct(Vec<(String, Shape, bool)>),
  /// Like `Struct`, but other members are an error.
  Strict(Vec<(String, Shape, bool)>),
  /// A number of items, then the rest ignored by the visitor, which has to be an error if there is a rest.
  Prefix(usize),
}

struct AnyVisitor {
  /// What to ask for in nested values.
  nested: Shape,
  /// Whether nested values are recorded too.
  items: bool,
}

impl<'de> Visitor<'de> for AnyVisitor {
  type Value = Out;
  fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str("anything")
  }
  fn visit_bool<E>(self, v: bool) -> Result<Out, E> {
    Ok(Out::Bool(v))
  }
  fn visit_i8<E>(self, v: i8) -> Result<Out, E> {
    Ok(Out::I8(v))
  }
  fn visit_i16<E>(self, v: i16) -> Result<Out, E> {
    Ok(Out::I16(v))
  }
  fn visit_i32<E>(self, v: i32) -> Result<Out, E> {
    Ok(Out::I32(v))
  }
  fn visit_i64<E>(self, v: i64) -> Result<Out, E> {
    Ok(Out::I64(v))
  }
  fn visit_i128<E>(self, v: i128) -> Result<Out, E> {
    Ok(Out::I128(v))
  }
  fn visit_u8<E>(self, v: u8) -> Result<Out, E> {
    Ok(Out::U8(v))
  }
  fn visit_u16<E>(self, v: u16) -> Result<Out, E> {
    Ok(Out::U16(v))
  }
  fn visit_u32<E>(self, v: u32) -> Result<Out, E> {
    Ok(Out::U32(v))
  }
  fn visit_u64<E>(self, v: u64) -> Result<Out, E> {
    Ok(Out::U64(v))
  }
  fn visit_u128<E>(self, v: u128) -> Result<Out, E> {
    Ok(Out::U128(v))
  }
  fn visit_f32<E>(self, v: f32) -> Result<Out, E> {
    Ok(Out::F32(v.to_bits()))
  }
  fn visit_f64<E>(self, v: f64) -> Result<Out, E> {
    Ok(Out::F64(v.to_bits()))
  }
  fn visit_char<E>(self, v: char) -> Result<Out, E> {
    Ok(Out::Char(v))
  }
  fn visit_str<E>(self, v: &str) -> Result<Out, E> {
    Ok(Out::Str(v.into(), false))
  }
  fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Out, E> {
    Ok(Out::Str(v.into(), true))
  }
  fn visit_string<E>(self, v: String) -> Result<Out, E> {
    Ok(Out::Str(v, false))
  }
  fn visit_bytes<E>(self, _: &[u8]) -> Result<Out, E> {
    Ok(Out::Other("bytes"))
  }
  fn visit_none<E>(self) -> Result<Out, E> {
    Ok(Out::None)
  }
  fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Out, D::Error> {
    Ok(Out::Some(Box::new(self.nested.deserialize(d)?)))
  }
  fn visit_unit<E>(self) -> Result<Out, E> {
    Ok(Out::Unit)
  }
  fn visit_newtype_struct<D: Deserializer<'de>>(self, _: D) -> Result<Out, D::Error> {
    Ok(Out::Other("newtype"))
  }
  fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
    let mut v = vec![];
    if self.items {
      let hint = a.size_hint();
      while let Some(x) = a.next_element_seed(&self.nested)? {
        v.push(x);
      }
      return seq(a, hint, v);
    }
    Ok(Out::Seq(v))
  }
  fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
    let mut v = vec![];
    if self.items {
      let hint = a.size_hint();
      while let Some(k) = a.next_key_seed(&Shape::Any)? {
        let k = match k {
          Out::Str(s, true) => s,
          // keys of maps can be borrowed, too
          k => return Ok(Out::Other(Box::leak(format!("key {k:?}").into_boxed_str()))),
        };
        v.push((k, a.next_value_seed(&self.nested)?));
      }
      if hint.is_some_and(|n| n != v.len()) {
        return Ok(Out::Other("wrong size hint of a map"));
      }
    }
    Ok(map(v))
  }
  fn visit_enum<A: de::EnumAccess<'de>>(self, _: A) -> Result<Out, A::Error> {
    Ok(Out::Other("enum"))
  }
}

fn map(mut v: Vec<(String, Out)>) -> Out {
  v.sort_by(|a, b| a.0.cmp(&b.0));
  Out::Map(v)
}

/// A sequence which was read to its end: a size hint has to be the number of its items, and no item comes after the end.
fn seq<'de, A: SeqAccess<'de>>(mut a: A, hint: Option<usize>, v: Vec<Out>) -> Result<Out, A::Error> {
  if hint.is_some_and(|n| n != v.len()) {
    return Ok(Out::Other("wrong size hint of a sequence"));
  }
  if a.next_element_seed(&Shape::Any)?.is_some() {
    return Ok(Out::Other("an item after the end of a sequence"));
  }
  Ok(Out::Seq(v))
}

struct SeqVisitor<'s>(&'s Shape);
impl<'de> Visitor<'de> for SeqVisitor<'_> {
  type Value = Out;
  fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str("a sequence")
  }
  fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
    let mut v = vec![];
    let hint = a.size_hint();
    while let Some(x) = a.next_element_seed(self.0)? {
      v.push(x);
    }
    seq(a, hint, v)
  }
}

struct TupleVisitor<'s>(&'s [Shape]);
impl<'de> Visitor<'de> for TupleVisitor<'_> {
  type Value = Out;
  fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "a tuple of {} items", self.0.len())
  }
  fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
    let mut v = vec![];
    for (i, s) in self.0.iter().enumerate() {
      match a.next_element_seed(s)? {
        Some(x) => v.push(x),
        None => return Err(de::Error::invalid_length(i, &self)),
      }
    }
    Ok(Out::Seq(v))
  }
}

struct PrefixVisitor(usize);
impl<'de> Visitor<'de> for PrefixVisitor {
  type Value = Out;
  fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str("a sequence")
  }
  fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
    let mut v = vec![];
    for _ in 0..self.0 {
      match a.next_element_seed(&Shape::Any)? {
        Some(x) => v.push(x),
        None => break,
      }
    }
    Ok(Out::Seq(v))
  }
}

struct MapVisitor<'s>(&'s Shape);
impl<'de> Visitor<'de> for MapVisitor<'_> {
  type Value = Out;
  fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str("a map")
  }
  fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
    let mut v = vec![];
    while let Some(k) = a.next_key::<String>()? {
      v.push((k, a.next_value_seed(self.0)?));
    }
    Ok(map(v))
  }
}

struct StructVisitor<'s>(&'s [(String, Shape, bool)], bool);

/// The name of a field, the way a derived `Deserialize` looks at it.
struct FieldName;
impl<'de> DeserializeSeed<'de> for FieldName {
  type Value = String;
  fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
    struct V;
    impl Visitor<'_> for V {
      type Value = String;
      fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("field identifier")
      }
      fn visit_str<E>(self, v: &str) -> Result<String, E> {
        Ok(v.into())
      }
    }
    d.deserialize_identifier(V)
  }
}

impl<'de> Visitor<'de> for StructVisitor<'_> {
  type Value = Out;
  fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str("a struct")
  }
  fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
    let mut got: Vec<(String, Out)> = vec![];
    while let Some(k) = a.next_key_seed(FieldName)? {
      match self.0.iter().find(|f| f.0 == k) {
        Some(f) => {
          if got.iter().any(|g| g.0 == k) {
            return Err(de::Error::custom(format!("duplicate field {k}")));
          }
          let v = a.next_value_seed(&f.1)?;
          got.push((k, v));
        },
        None if self.1 => return Err(de::Error::custom(format!("unknown field {k}"))),
        None => {
          let IgnoredAny = a.next_value()?;
        },
      }
    }
    for f in self.0 {
      if !got.iter().any(|g| g.0 == f.0) {
        if f.2 {
          got.push((f.0.clone(), Out::Missing));
        } else {
          return Err(de::Error::custom(format!("missing field {}", f.0)));
        }
      }
    }
    Ok(map(got))
  }
}

/// The names are only looked at during the call.
fn with_fields<T>(f: &[(String, Shape, bool)], g: impl FnOnce(&'static [&'static str]) -> T) -> T {
  let names: Vec<&str> = f.iter().map(|f| f.0.as_str()).collect();
  let s: &'static [&'static str] = unsafe { std::mem::transmute(names.as_slice()) };
  g(s)
}

pub const HINTS: usize = 21;
/// A self-describing format shows a value as it is, whatever is asked for; the exceptions (options, structs, enums, newtypes,
/// bytes, tuples, which state a length) are not here.
fn hinted<'de, D: Deserializer<'de>>(h: u8, d: D) -> Result<Out, D::Error> {
  let v = AnyVisitor { nested: Shape::Hinted((h as usize * 5 + 7) as u8), items: true };
  match h as usize % HINTS {
    0 => d.deserialize_bool(v),
    1 => d.deserialize_i8(v),
    2 => d.deserialize_i16(v),
    3 => d.deserialize_i32(v),
    4 => d.deserialize_i64(v),
    5 => d.deserialize_i128(v),
    6 => d.deserialize_u8(v),
    7 => d.deserialize_u16(v),
    8 => d.deserialize_u32(v),
    9 => d.deserialize_u64(v),
    10 => d.deserialize_u128(v),
    11 => d.deserialize_f32(v),
    12 => d.deserialize_f64(v),
    13 => d.deserialize_char(v),
    14 => d.deserialize_str(v),
    15 => d.deserialize_string(v),
    16 => d.deserialize_unit(v),
    17 => d.deserialize_unit_struct("U", v),
    18 => d.deserialize_seq(v),
    19 => d.deserialize_map(v),
    _ => d.deserialize_identifier(v),
  }
}

impl<'de> DeserializeSeed<'de> for &Shape {
  type Value = Out;
  fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Out, D::Error> {
    Ok(match self {
      Shape::Any => d.deserialize_any(AnyVisitor { nested: Shape::Any, items: true })?,
      Shape::Hinted(h) => hinted(*h, d)?,
      Shape::Ignored => {
        let IgnoredAny = IgnoredAny::deserialize(d)?;
        Out::Skipped
      },
      Shape::Unit => {
        <()>::deserialize(d)?;
        Out::Unit
      },
      Shape::Bool => Out::Bool(bool::deserialize(d)?),
      Shape::I8 => Out::I8(i8::deserialize(d)?),
      Shape::I16 => Out::I16(i16::deserialize(d)?),
      Shape::I32 => Out::I32(i32::deserialize(d)?),
      Shape::I64 => Out::I64(i64::deserialize(d)?),
      Shape::I128 => Out::I128(i128::deserialize(d)?),
      Shape::U8 => Out::U8(u8::deserialize(d)?),
      Shape::U16 => Out::U16(u16::deserialize(d)?),
      Shape::U32 => Out::U32(u32::deserialize(d)?),
      Shape::U64 => Out::U64(u64::deserialize(d)?),
      Shape::U128 => Out::U128(u128::deserialize(d)?),
      Shape::F32 => Out::F32(f32::deserialize(d)?.to_bits()),
      Shape::F64 => Out::F64(f64::deserialize(d)?.to_bits()),
      Shape::Char => Out::Char(char::deserialize(d)?),
      Shape::String => Out::Str(String::deserialize(d)?, false),
      Shape::BStr => Out::Str(<&str>::deserialize(d)?.into(), true),
      Shape::Option(s) => {
        struct V<'s>(&'s Shape);
        impl<'de> Visitor<'de> for V<'_> {
          type Value = Out;
          fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("option")
          }
          fn visit_unit<E>(self) -> Result<Out, E> {
            Ok(Out::None)
          }
          fn visit_none<E>(self) -> Result<Out, E> {
            Ok(Out::None)
          }
          fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Out, D::Error> {
            Ok(Out::Some(Box::new(self.0.deserialize(d)?)))
          }
        }
        d.deserialize_option(V(s))?
      },
      Shape::Seq(s) => d.deserialize_seq(SeqVisitor(s))?,
      Shape::Tuple(s) => d.deserialize_tuple(s.len(), TupleVisitor(s))?,
      Shape::Map(s) => d.deserialize_map(MapVisitor(s))?,
      Shape::Struct(f) => with_fields(f, |n| d.deserialize_struct("T", n, StructVisitor(f, false)))?,
      Shape::Strict(f) => with_fields(f, |n| d.deserialize_struct("T", n, StructVisitor(f, true)))?,
      Shape::Prefix(n) => d.deserialize_seq(PrefixVisitor(*n))?,
    })
  }
}

thread_local! {
  static SHAPE: RefCell<Option<Shape>> = const { RefCell::new(None) };
}
struct Root(Out);
impl<'de> Deserialize<'de> for Root {
  fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let s = SHAPE.with(|s| s.borrow().clone()).expect("shape");
    Ok(Root((&s).deserialize(d)?))
  }
}

/// The shape through `from_slice`.
pub fn from_slice(s: &Shape, bytes: &[u8]) -> Result<Out, String> {
  SHAPE.with(|x| *x.borrow_mut() = Some(s.clone()));
  nrbf::from_slice::<Root>(bytes).map(|r| r.0).map_err(|e| e.to_string())
}
/// The shape through a parsed message.
pub fn from_message(s: &Shape, bytes: &[u8]) -> Result<Out, String> {
  let m = RemotingMessage::parse(bytes).map_err(|e| format!("parsing error: {e}"))?;
  s.deserialize(m).map_err(|e| e.to_string())
}

// --- the model -----------------------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
pub enum Pred {
  Ok(Out),
  Err,
  /// Nothing is claimed.
  Gray,
}

/// What kind of value a consumer meets which asks for nothing in particular.
pub enum Face<'a> {
  Prim(&'a MV),
  Seq(&'a [MV]),
  Map(&'a [(String, MV)]),
  Null,
  Err,
  Gray,
}

pub const BOXES: [(&str, P); 12] = [
  ("System.Int32", P::I32),
  ("System.Boolean", P::Bool),
  ("System.Byte", P::Byte),
  ("System.SByte", P::SByte),
  ("System.Char", P::Char),
  ("System.Double", P::Double),
  ("System.Single", P::Single),
  ("System.Int16", P::I16),
  ("System.UInt16", P::U16),
  ("System.UInt32", P::U32),
  ("System.Int64", P::I64),
  ("System.UInt64", P::U64),
];
pub const LIST: &str = "System.Collections.Generic.List";

pub fn face(v: &MV) -> Face<'_> {
  match v {
    MV::Null => Face::Null,
    MV::Arr(a) => Face::Seq(a),
    MV::Obj(o) => {
      if o.lib.is_some() {
        return Face::Map(&o.members);
      }
      let base = o.class.split('`').next().unwrap();
      if let Some((_, p)) = BOXES.iter().find(|b| b.0 == base) {
        if base != o.class {
          // a generic class of the name of a primitive type does not exist
          return Face::Gray;
        }
        if o.members.len() != 1 || o.members[0].0 != "m_value" {
          return Face::Err;
        }
        let m = &o.members[0].1;
        return match prim_of(m) {
          Some(q) if q == *p => Face::Prim(m),
          // numbers of another type may be converted
          Some(_) => Face::Gray,
          None => match m {
            MV::Str(s) if *p == P::Char && s.chars().count() == 1 => Face::Gray,
            MV::Obj(_) => Face::Gray,
            _ => Face::Err,
          },
        };
      }
      if base == LIST {
        let get = |n: &str| o.members.iter().find(|m| m.0 == n).map(|m| &m.1);
        return match (o.members.len(), get("_items"), get("_size"), get("_version")) {
          (3, Some(MV::Arr(a)), Some(MV::I32(n)), Some(MV::I32(_))) if *n >= 0 && *n as usize <= a.len() => {
            Face::Seq(&a[..*n as usize])
          },
          _ => Face::Err,
        };
      }
      Face::Map(&o.members)
    },
    v => Face::Prim(v),
  }
}

pub fn prim_out(v: &MV) -> Out {
  match v {
    MV::Bool(v) => Out::Bool(*v),
    MV::Byte(v) => Out::U8(*v),
    MV::Char(v) => Out::Char(*v),
    MV::Dec(v) => Out::Str(v.clone(), false),
    MV::Double(v) => Out::F64(*v),
    MV::I16(v) => Out::I16(*v),
    MV::I32(v) => Out::I32(*v),
    MV::I64(v) | MV::TimeSpan(v) | MV::DateTime(v) => Out::I64(*v),
    MV::SByte(v) => Out::I8(*v),
    MV::Single(v) => Out::F32(*v),
    MV::U16(v) => Out::U16(*v),
    MV::U32(v) => Out::U32(*v),
    MV::U64(v) => Out::U64(*v),
    MV::Str(v) => Out::Str(v.clone(), true),
    _ => unreachable!(),
  }
}

fn int(v: &MV) -> Option<i128> {
  Some(match v {
    MV::Byte(v) => *v as i128,
    MV::I16(v) => *v as i128,
    MV::I32(v) => *v as i128,
    MV::I64(v) | MV::TimeSpan(v) | MV::DateTime(v) => *v as i128,
    MV::SByte(v) => *v as i128,
    MV::U16(v) => *v as i128,
    MV::U32(v) => *v as i128,
    MV::U64(v) => *v as i128,
    _ => return None,
  })
}

fn all(items: impl Iterator<Item = Pred>) -> Result<Vec<Out>, Pred> {
  let mut gray = false;
  let mut v = vec![];
  for p in items {
    match p {
      Pred::Ok(o) => v.push(o),
      Pred::Err => return Err(Pred::Err),
      Pred::Gray => gray = true,
    }
  }
  if gray { Err(Pred::Gray) } else { Ok(v) }
}

fn named(m: &[(String, MV)], s: &Shape) -> Pred {
  match all(m.iter().map(|x| expect(s, &x.1))) {
    Ok(v) => Pred::Ok(map(m.iter().map(|x| x.0.clone()).zip(v).collect())),
    Err(p) => p,
  }
}

fn num<T: TryFrom<i128>>(v: &MV, f: fn(T) -> Out) -> Pred {
  match face(v) {
    Face::Gray => Pred::Gray,
    Face::Prim(p) => match int(p).and_then(|i| T::try_from(i).ok()) {
      Some(x) => Pred::Ok(f(x)),
      None => Pred::Err,
    },
    _ => Pred::Err,
  }
}

pub fn expect(s: &Shape, v: &MV) -> Pred {
  let seq = |f: &dyn Fn(&[MV]) -> Pred| match face(v) {
    Face::Seq(a) => f(a),
    Face::Gray => Pred::Gray,
    _ => Pred::Err,
  };
  let prim = |f: &dyn Fn(&MV) -> Pred| match face(v) {
    Face::Prim(p) => f(p),
    Face::Gray => Pred::Gray,
    _ => Pred::Err,
  };
  match s {
    Shape::Hinted(_) => expect(&Shape::Any, v),
    Shape::Any => match face(v) {
      Face::Prim(p) => Pred::Ok(prim_out(p)),
      Face::Null => Pred::Ok(Out::Unit),
      Face::Err => Pred::Err,
      Face::Gray => Pred::Gray,
      Face::Seq(a) => match all(a.iter().map(|x| expect(s, x))) {
        Ok(v) => Pred::Ok(Out::Seq(v)),
        Err(p) => p,
      },
      Face::Map(m) => named(m, s),
    },
    Shape::Ignored => Pred::Ok(Out::Skipped),
    Shape::Unit => match face(v) {
      Face::Null => Pred::Ok(Out::Unit),
      Face::Gray => Pred::Gray,
      _ => Pred::Err,
    },
    Shape::Bool => prim(&|p| if let MV::Bool(b) = p { Pred::Ok(Out::Bool(*b)) } else { Pred::Err }),
    Shape::I8 => num(v, Out::I8),
    Shape::I16 => num(v, Out::I16),
    Shape::I32 => num(v, Out::I32),
    Shape::I64 => num(v, Out::I64),
    Shape::I128 => num(v, Out::I128),
    Shape::U8 => num(v, Out::U8),
    Shape::U16 => num(v, Out::U16),
    Shape::U32 => num(v, Out::U32),
    Shape::U64 => num(v, Out::U64),
    Shape::U128 => num(v, Out::U128),
    Shape::F64 => prim(&|p| match p {
      MV::Double(b) => Pred::Ok(Out::F64(*b)),
      // a signalling NaN does not survive a conversion
      MV::Single(b) if f32::from_bits(*b).is_nan() => Pred::Gray,
      MV::Single(b) => Pred::Ok(Out::F64((f32::from_bits(*b) as f64).to_bits())),
      p => match int(p) {
        Some(i) if i.unsigned_abs() <= 1 << 53 => Pred::Ok(Out::F64((i as f64).to_bits())),
        Some(_) => Pred::Gray,
        None => Pred::Err,
      },
    }),
    Shape::F32 => prim(&|p| match p {
      MV::Single(b) => Pred::Ok(Out::F32(*b)),
      MV::Double(b) if f64::from_bits(*b).is_nan() => Pred::Gray,
      MV::Double(b) if (f64::from_bits(*b) as f32) as f64 == f64::from_bits(*b) => {
        Pred::Ok(Out::F32((f64::from_bits(*b) as f32).to_bits()))
      },
      MV::Double(_) => Pred::Gray,
      p => match int(p) {
        Some(i) if i.unsigned_abs() <= 1 << 24 => Pred::Ok(Out::F32((i as f32).to_bits())),
        Some(_) => Pred::Gray,
        None => Pred::Err,
      },
    }),
    Shape::Char => prim(&|p| match p {
      MV::Char(c) => Pred::Ok(Out::Char(*c)),
      MV::Str(s) | MV::Dec(s) if s.chars().count() == 1 => Pred::Ok(Out::Char(s.chars().next().unwrap())),
      _ => Pred::Err,
    }),
    Shape::String => prim(&|p| match p {
      MV::Str(s) | MV::Dec(s) => Pred::Ok(Out::Str(s.clone(), false)),
      MV::Char(c) => Pred::Ok(Out::Str(c.to_string(), false)),
      _ => Pred::Err,
    }),
    Shape::BStr => prim(&|p| match p {
      MV::Str(s) => Pred::Ok(Out::Str(s.clone(), true)),
      // whether these can be borrowed is not claimed
      MV::Dec(_) | MV::Char(_) => Pred::Gray,
      _ => Pred::Err,
    }),
    Shape::Option(s) => match v {
      MV::Null => Pred::Ok(Out::None),
      _ => match expect(s, v) {
        Pred::Ok(o) => Pred::Ok(Out::Some(Box::new(o))),
        p => p,
      },
    },
    Shape::Seq(s) => seq(&|a| match all(a.iter().map(|x| expect(s, x))) {
      Ok(v) => Pred::Ok(Out::Seq(v)),
      Err(p) => p,
    }),
    Shape::Tuple(s) => seq(&|a| {
      if a.len() != s.len() {
        return Pred::Err;
      }
      match all(a.iter().zip(s).map(|(x, s)| expect(s, x))) {
        Ok(v) => Pred::Ok(Out::Seq(v)),
        Err(p) => p,
      }
    }),
    Shape::Prefix(n) => seq(&|a| {
      if a.len() > *n {
        return Pred::Err;
      }
      match all(a.iter().map(|x| expect(&Shape::Any, x))) {
        Ok(v) => Pred::Ok(Out::Seq(v)),
        Err(p) => p,
      }
    }),
    Shape::Map(s) => match face(v) {
      Face::Map(m) => named(m, s),
      Face::Gray => Pred::Gray,
      _ => Pred::Err,
    },
    Shape::Struct(f) | Shape::Strict(f) => match v {
      MV::Obj(o) => {
        let known = |n: &str| f.iter().any(|f| f.0 == n);
        if matches!(s, Shape::Strict(_)) && o.members.iter().any(|m| !known(&m.0)) {
          return Pred::Err;
        }
        let r = all(f.iter().map(|(n, s, opt)| match o.members.iter().find(|m| m.0 == *n) {
          Some(m) => expect(s, &m.1),
          None if *opt => Pred::Ok(Out::Missing),
          None => Pred::Err,
        }));
        match r {
          Ok(v) => Pred::Ok(map(f.iter().map(|x| x.0.clone()).zip(v).collect())),
          Err(p) => p,
        }
      },
      _ => Pred::Err,
    },
  }
}

/// Both ways to a value have to give what the model says.
pub fn compare(s: &Shape, v: &MV, bytes: &[u8]) -> Result<bool, String> {
  let mut p = expect(s, v);
  if *s == Shape::Ignored && matches!(face(v), Face::Err | Face::Gray) {
    // ignoring a whole message may still look at its root
    p = Pred::Gray;
  }
  let a = from_slice(s, bytes);
  let b = from_message(s, bytes);
  if a.is_ok() != b.is_ok() || (a.is_ok() && a != b) {
    return Err(format!("deserializing from the bytes gives {a:?}, from the parsed message {b:?} (target {s:?})"));
  }
  match (p, a) {
    (Pred::Gray, _) => Ok(false),
    (Pred::Err, Err(_)) => Ok(true),
    (Pred::Ok(x), Ok(y)) if x == y => Ok(true),
    (p, a) => Err(format!("target {s:?}: expected {}, got {}", text(&p), text(&a))),
  }
}
pub fn text(x: &impl fmt::Debug) -> String {
  let s = format!("{x:?}");
  if s.len() > 400 { format!("{}…", s.chars().take(400).collect::<String>()) } else { s }
}

// --- a zoo of target types -----------------------------------------------------------------------------------------

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Zoo<'a> {
  #[serde(borrow)]
  a: Option<&'a str>,
  #[serde(default)]
  b: i32,
  c: Option<Box<Zoo<'a>>>,
  #[serde(flatten)]
  rest: HashMap<String, AnyT>,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct ListT<T> {
  _items: Vec<T>,
  _size: i32,
  _version: i32,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Newtype(i32);
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct UnitS;
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct TupleS(AnyT, AnyT);
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
enum EnumT {
  A,
  B(i32),
  C { a: i32 },
}
#[derive(Deserialize, Debug)]
#[serde(untagged)]
#[allow(dead_code)]
enum Untagged {
  N(i64),
  S(String),
  L(Vec<AnyT>),
  M(HashMap<String, AnyT>),
}

/// Anything, recorded.
#[derive(Debug)]
#[allow(dead_code)]
pub struct AnyT(pub Out);
impl<'de> Deserialize<'de> for AnyT {
  fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    Ok(AnyT(Shape::Any.deserialize(d)?))
  }
}

type Try = fn(&[u8]) -> Result<(), String>;
pub const ZOO: [Try; 41] = [
  |b| nrbf::from_slice::<AnyT>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<IgnoredAny>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<()>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<bool>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<i8>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<i16>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<i32>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<i64>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<i128>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<u8>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<u16>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<u32>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<u64>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<u128>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<f32>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<f64>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<char>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<String>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<&str>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<&[u8]>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<Box<str>>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<std::borrow::Cow<'_, str>>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<Option<AnyT>>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<Option<i32>>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<Vec<AnyT>>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<Vec<u8>>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<Vec<Option<String>>>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<Vec<Vec<AnyT>>>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<HashMap<String, AnyT>>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<BTreeMap<&str, Option<AnyT>>>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<(AnyT, AnyT)>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<[AnyT; 3]>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<Zoo<'_>>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<ListT<AnyT>>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<Newtype>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<UnitS>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<TupleS>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<EnumT>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<Untagged>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<std::marker::PhantomData<i32>>(b).map(drop).map_err(|e| e.to_string()),
  |b| nrbf::from_slice::<std::time::Duration>(b).map(drop).map_err(|e| e.to_string()),
];

/// Deserializes into some of the types, chosen by the bytes.
pub fn zoo(bytes: &[u8]) {
  let h = fnv(bytes) as usize;
  _ = ZOO[0](bytes);
  for i in 0..3 {
    _ = ZOO[(h >> (i * 9)) % ZOO.len()](bytes);
  }
}
