//! What target types report: targets which fail at a certain step, and a deserializer of our own over the model of a value
//! whose errors are those of serde for what the value is.

use crate::model::*;
use crate::sd::{Face, Out, Shape, face, prim_out};
use nrbf::RemotingMessage;
use serde::de::value::{BorrowedStrDeserializer, Error};
use serde::de::{self, DeserializeSeed, Deserializer, Error as _, MapAccess, SeqAccess, Unexpected, Visitor};
use serde::{Deserialize, forward_to_deserialize_any};
use std::{cell::Cell, cell::RefCell, fmt, rc::Rc};

// --- targets which fail --------------------------------------------------------------------------------------------

/// How a target fails, and with which text.
#[derive(Debug, Clone)]
pub struct Fault {
  pub kind: usize,
  pub text: String,
}
pub const FAULTS: usize = 9;

impl Fault {
  fn error<E: de::Error>(&self) -> E {
    struct Exp<'a>(&'a str);
    impl de::Expected for Exp<'_> {
      fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0)
      }
    }
    let x = self.text.as_str();
    match self.kind % FAULTS {
      0 => E::custom(x),
      1 => E::invalid_type(Unexpected::Str(x), &"something else"),
      2 => E::invalid_value(Unexpected::Other(x), &Exp(x)),
      3 => E::invalid_length(x.len(), &Exp(x)),
      4 => E::unknown_variant(x, &["A", "B"]),
      5 => E::unknown_field(x, &["a", "b", "c"]),
      6 => E::missing_field("the field"),
      7 => E::duplicate_field("the field"),
      _ => E::custom(format_args!("{x:?}")),
    }
  }
  /// The text the caller has to get.
  pub fn report(&self) -> String {
    self.error::<Error>().to_string()
  }
}

/// How a value is asked for, at each depth.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Way {
  Any,
  Seq,
  Map,
  Option,
  Struct,
  Int,
  Str,
}
pub const WAYS: [Way; 7] = [Way::Any, Way::Option, Way::Struct, Way::Seq, Way::Map, Way::Int, Way::Str];

#[derive(Clone)]
pub struct Trap {
  pub ways: Rc<Vec<Way>>,
  pub depth: usize,
  /// Steps so far.
  pub n: Rc<Cell<usize>>,
  /// The step which fails.
  pub at: usize,
  pub fault: Rc<Fault>,
}

impl Trap {
  pub fn new(ways: Vec<Way>, at: usize, fault: Fault) -> Self {
    Self { ways: Rc::new(ways), depth: 0, n: Rc::new(Cell::new(0)), at, fault: Rc::new(fault) }
  }
  fn step<E: de::Error>(&self) -> Result<(), E> {
    let n = self.n.get();
    self.n.set(n + 1);
    if n == self.at { Err(self.fault.error()) } else { Ok(()) }
  }
  fn inner(&self) -> Self {
    Self { depth: self.depth + 1, ..self.clone() }
  }
}

fn way(ways: &[Way], depth: usize) -> Way {
  ways.get(depth).copied().unwrap_or(Way::Any)
}

/// The number of steps of a trap which does not fail; nothing, if nothing is claimed about the value.
pub fn steps(v: &MV, ways: &[Way], depth: usize) -> Option<usize> {
  let w = way(ways, depth);
  let body = |members: bool| -> Option<usize> {
    let map = |m: &[(String, MV)]| -> Option<usize> {
      let mut n = 2;
      for x in m {
        n += 1 + steps(&x.1, ways, depth + 1)?;
      }
      Some(n)
    };
    match (face(v), v) {
      (_, MV::Obj(o)) if members => map(&o.members),
      (Face::Prim(_) | Face::Null, _) => Some(1),
      (Face::Seq(a), _) => {
        let mut n = 2;
        for x in a {
          n += steps(x, ways, depth + 1)?;
        }
        Some(n)
      },
      (Face::Map(m), _) => map(m),
      (Face::Err | Face::Gray, _) => None,
    }
  };
  Some(match (w, v) {
    (Way::Option, MV::Null) => 2,
    (Way::Option, _) => 2 + body(false)?,
    (Way::Struct, _) => 1 + body(true)?,
    _ => 1 + body(false)?,
  })
}

impl<'de> DeserializeSeed<'de> for Trap {
  type Value = ();
  fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
    self.step()?;
    match way(&self.ways, self.depth) {
      Way::Any => d.deserialize_any(self),
      Way::Seq => d.deserialize_seq(self),
      Way::Map => d.deserialize_map(self),
      Way::Option => d.deserialize_option(self),
      Way::Struct => d.deserialize_struct("Trap", &["a", "b"], self),
      Way::Int => d.deserialize_i32(self),
      Way::Str => d.deserialize_str(self),
    }
  }
}

macro_rules! visits {
  ($($name:ident $ty:ty,)*) => { $(fn $name<E: de::Error>(self, _: $ty) -> Result<(), E> { self.step() })* };
}

impl<'de> Visitor<'de> for Trap {
  type Value = ();
  fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str("anything")
  }
  visits! {
    visit_bool bool, visit_i8 i8, visit_i16 i16, visit_i32 i32, visit_i64 i64, visit_u8 u8, visit_u16 u16, visit_u32 u32,
    visit_u64 u64, visit_f32 f32, visit_f64 f64, visit_char char, visit_str &str,
  }
  fn visit_none<E: de::Error>(self) -> Result<(), E> {
    self.step()
  }
  fn visit_unit<E: de::Error>(self) -> Result<(), E> {
    self.step()
  }
  fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
    self.step()?;
    d.deserialize_any(self)
  }
  fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
    self.step()?;
    while let Some(()) = a.next_element_seed(self.inner())? {}
    self.step()
  }
  fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
    self.step()?;
    while let Some(()) = a.next_key_seed(Key(&self))? {
      a.next_value_seed(self.inner())?;
    }
    self.step()
  }
}

struct Key<'t>(&'t Trap);
impl<'de> DeserializeSeed<'de> for Key<'_> {
  type Value = ();
  fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
    d.deserialize_identifier(self)
  }
}
impl Visitor<'_> for Key<'_> {
  type Value = ();
  fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str("a name")
  }
  fn visit_str<E: de::Error>(self, _: &str) -> Result<(), E> {
    self.0.step()
  }
}

thread_local! {
  static TRAP: RefCell<Option<Trap>> = const { RefCell::new(None) };
}
struct Trapped;
impl<'de> Deserialize<'de> for Trapped {
  fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let t = TRAP.with(|t| t.borrow().clone()).expect("trap");
    t.deserialize(d).map(|()| Trapped)
  }
}

/// The trap set for the value of the message, from the bytes or from the parsed message.
pub fn trap(t: &Trap, bytes: &[u8], from_slice: bool) -> Result<(), String> {
  if from_slice {
    TRAP.with(|x| *x.borrow_mut() = Some(t.clone()));
    nrbf::from_slice::<Trapped>(bytes).map(drop).map_err(|e| e.to_string())
  } else {
    let m = RemotingMessage::parse(bytes).map_err(|e| format!("parsing error: {e}"))?;
    t.clone().deserialize(m).map_err(|e| e.to_string())
  }
}

// --- a deserializer of our own -------------------------------------------------------------------------------------

/// Stands for an error whose text is up to the crate.
pub const FREE: &str = "\u{1}any text";

/// A value; the members on the path come first in their objects.
#[derive(Clone, Copy)]
pub struct Ref<'de, 'p> {
  pub v: &'de MV,
  pub path: Option<&'p [usize]>,
  pub gray: &'p Cell<bool>,
}

impl<'de, 'p> Ref<'de, 'p> {
  fn child(&self, i: usize, v: &'de MV) -> Self {
    let path = match self.path {
      Some([first, rest @ ..]) if *first == i => Some(rest),
      _ => None,
    };
    Ref { v, path, gray: self.gray }
  }
  fn items(self, a: &'de [MV]) -> Items<'de, 'p> {
    Items { all: a.iter().enumerate().map(|(i, v)| self.child(i, v)).collect::<Vec<_>>().into_iter() }
  }
  fn members(self, m: &'de [(String, MV)]) -> Members<'de, 'p> {
    let mut all: Vec<_> = m.iter().enumerate().map(|(i, x)| (x.0.as_str(), self.child(i, &x.1))).collect();
    if let Some([first, ..]) = self.path
      && *first < all.len()
    {
      let x = all.remove(*first);
      all.insert(0, x);
    }
    Members { all: all.into_iter(), value: None }
  }
}

struct Items<'de, 'p> {
  all: std::vec::IntoIter<Ref<'de, 'p>>,
}
impl<'de> SeqAccess<'de> for Items<'de, '_> {
  type Error = Error;
  fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
    self.all.next().map(|v| seed.deserialize(v)).transpose()
  }
}
struct Members<'de, 'p> {
  all: std::vec::IntoIter<(&'de str, Ref<'de, 'p>)>,
  value: Option<Ref<'de, 'p>>,
}
impl<'de> MapAccess<'de> for Members<'de, '_> {
  type Error = Error;
  fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
    match self.all.next() {
      Some((k, v)) => {
        self.value = Some(v);
        seed.deserialize(BorrowedStrDeserializer::new(k)).map(Some)
      },
      None => Ok(None),
    }
  }
  fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
    seed.deserialize(self.value.take().expect("a value"))
  }
}

impl<'de> Deserializer<'de> for Ref<'de, '_> {
  type Error = Error;

  fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
    match face(self.v) {
      Face::Null => visitor.visit_unit(),
      Face::Seq(a) => {
        let mut items = self.items(a);
        let v = visitor.visit_seq(&mut items)?;
        if items.all.len() > 0 { Err(Error::custom(FREE)) } else { Ok(v) }
      },
      Face::Map(m) => visitor.visit_map(self.members(m)),
      Face::Err => Err(Error::custom(FREE)),
      Face::Gray => {
        self.gray.set(true);
        Err(Error::custom(FREE))
      },
      Face::Prim(p) => match prim_out(p) {
        Out::Bool(v) => visitor.visit_bool(v),
        Out::I8(v) => visitor.visit_i8(v),
        Out::I16(v) => visitor.visit_i16(v),
        Out::I32(v) => visitor.visit_i32(v),
        Out::I64(v) => visitor.visit_i64(v),
        Out::U8(v) => visitor.visit_u8(v),
        Out::U16(v) => visitor.visit_u16(v),
        Out::U32(v) => visitor.visit_u32(v),
        Out::U64(v) => visitor.visit_u64(v),
        Out::F32(v) => visitor.visit_f32(f32::from_bits(v)),
        Out::F64(v) => visitor.visit_f64(f64::from_bits(v)),
        Out::Char(v) => visitor.visit_char(v),
        Out::Str(..) => match p {
          MV::Str(s) => visitor.visit_borrowed_str(s),
          MV::Dec(s) => visitor.visit_str(s),
          _ => unreachable!(),
        },
        _ => unreachable!(),
      },
    }
  }
  fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
    if *self.v == MV::Null { visitor.visit_none() } else { visitor.visit_some(self) }
  }
  fn deserialize_struct<V: Visitor<'de>>(
    self,
    _: &'static str,
    _: &'static [&'static str],
    visitor: V,
  ) -> Result<V::Value, Error> {
    match self.v {
      MV::Obj(o) => visitor.visit_map(self.members(&o.members)),
      _ => self.deserialize_any(visitor),
    }
  }
  fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
    visitor.visit_unit()
  }
  forward_to_deserialize_any! {
    bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct newtype_struct seq tuple
    tuple_struct map enum identifier
  }
}

/// The paths of all values inside, each by its indices.
fn paths(v: &MV, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
  out.push(at.clone());
  let mut go = |i: usize, v: &MV| {
    at.push(i);
    paths(v, at, out);
    at.pop();
  };
  match v {
    MV::Arr(a) => a.iter().enumerate().for_each(|(i, v)| go(i, v)),
    MV::Obj(o) => {
      if let (Face::Seq(a), _) = (face(v), 0) {
        // a list is reached as a sequence or by its members
        a.iter().enumerate().for_each(|(i, v)| go(i, v));
      }
      o.members.iter().enumerate().for_each(|(i, m)| go(i, &m.1))
    },
    _ => (),
  }
}

/// What the shape has to give for the value: the result, or the texts of which the error has to have one, as members come
/// in any order. Nothing, if nothing is claimed.
pub fn reports(s: &Shape, v: &MV) -> Option<Result<Out, Vec<String>>> {
  let gray = Cell::new(false);
  let once = |path: Option<&[usize]>| s.deserialize(Ref { v, path, gray: &gray }).map_err(|e| e.to_string());
  let first = once(None);
  if gray.get() {
    return None;
  }
  let e = match first {
    Ok(o) => return Some(Ok(o)),
    Err(e) => e,
  };
  let mut all = vec![];
  paths(v, &mut vec![], &mut all);
  if all.len() > 400 {
    return None;
  }
  let mut texts = vec![e];
  for p in &all {
    match once(Some(p)) {
      Err(e) if !texts.contains(&e) => texts.push(e),
      Err(_) => (),
      // no order of members makes it fit
      Ok(_) => return None,
    }
  }
  if gray.get() { None } else { Some(Err(texts)) }
}
