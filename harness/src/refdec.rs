//! Reference decoder: decides for arbitrary bytes whether they are a well-formed message, and what it denotes.
//!
//! It is written against the record grammar of MS-NRBF 2.7 and the record layouts of 2.1 to 2.6, as a plain recursive
//! descent without backtracking, and shares no code with the crate under test. Where the specification leaves a case
//! open, or where the crate has a recorded limitation (see DESIGN.md), the verdict is `Unspecified` and nothing is
//! claimed about the crate.

use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
  Accept(MM),
  Reject(&'static str),
  /// The crate has a recorded limitation here and may reject the message, but not take it for anything else.
  AcceptOrReject(MM),
  Unspecified(&'static str),
}

enum Stop {
  Rej(&'static str),
  Unspec(&'static str),
}
type R<T> = Result<T, Stop>;
fn rej<T>(s: &'static str) -> R<T> {
  Err(Stop::Rej(s))
}
fn unspec<T>(s: &'static str) -> R<T> {
  Err(Stop::Unspec(s))
}

#[derive(Clone)]
enum Ty {
  Untyped,
  Prim(u8),
  Str,
  Object,
  Sys(String),
  Cls(String, i32, bool),
  ObjArr,
  StrArr,
  PrimArr(u8),
}

#[derive(Clone)]
struct Def {
  name: String,
  lib: Option<String>,
  members: Vec<(String, Ty)>,
  from_reuse: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
  Class,
  ObjArray,
  StrArray,
  PrimArray(u8),
  BinArray,
  Str,
}

enum Slot {
  Val(MV),
  Ref(i32, Ty),
}

enum Mem {
  One(Slot),
  Nulls(usize),
}

pub struct Dec<'a> {
  d: &'a [u8],
  p: usize,
  libs: BTreeMap<i32, String>,
  defs: BTreeMap<i32, Def>,
  /// Top-level or referenced objects which can still be referenced.
  objs: BTreeMap<i32, (MV, Kind)>,
  strs: BTreeMap<i32, String>,
  inline_strs: BTreeSet<i32>,
  ids: BTreeSet<i32>,
  gone: BTreeSet<i32>,
  depth: usize,
  nulls: usize,
  /// Where the verdict becomes unspecified although decoding goes on.
  gray: Option<&'static str>,
  /// References are left in place and resolved at the end, in whatever order the objects are.
  late: bool,
  late_objs: BTreeMap<i32, (MV, Kind)>,
  late_refs: Vec<(i32, Ty)>,
  /// The arguments are the array which the only argument refers to.
  late_args: bool,
}

const DEPTH_FIRST: &str = "references are not in depth-first order";
const REPEATED: &str = "object is referenced repeatedly, by itself or inline";
const MAX_DEPTH: usize = 300;
const MAX_NULLS: usize = 200_000;

impl<'a> Dec<'a> {
  fn gray(&mut self, why: &'static str) {
    self.gray.get_or_insert(why);
  }
  fn peek(&self) -> Option<u8> {
    self.d.get(self.p).copied()
  }
  fn take(&mut self, n: usize) -> R<&'a [u8]> {
    if n > self.d.len() - self.p {
      return rej("end of input");
    }
    let s = &self.d[self.p..self.p + n];
    self.p += n;
    Ok(s)
  }
  fn u8(&mut self) -> R<u8> {
    Ok(self.take(1)?[0])
  }
  fn i32(&mut self) -> R<i32> {
    Ok(i32::from_le_bytes(self.take(4)?.try_into().unwrap()))
  }
  fn arr<const N: usize>(&mut self) -> R<[u8; N]> {
    Ok(self.take(N)?.try_into().unwrap())
  }
  fn string(&mut self) -> R<String> {
    let mut n: u64 = 0;
    for i in 0..5 {
      let b = self.u8()?;
      if i == 4 && b > 7 {
        return rej("string length above 31 bits");
      }
      n |= ((b & 127) as u64) << (7 * i);
      if b & 128 == 0 {
        break;
      }
    }
    let b = self.take(n as usize)?;
    match std::str::from_utf8(b) {
      Ok(s) => Ok(s.to_string()),
      Err(_) => rej("string is not UTF-8"),
    }
  }
  fn pos_id(&mut self, what: &'static str) -> R<i32> {
    let v = self.i32()?;
    if v <= 0 { rej(what) } else { Ok(v) }
  }
  fn any_id(&mut self) -> R<i32> {
    let v = self.i32()?;
    if v == 0 { rej("class ID is zero") } else { Ok(v) }
  }
  fn len(&mut self) -> R<usize> {
    let v = self.i32()?;
    if v < 0 { rej("negative length") } else { Ok(v as usize) }
  }
  fn new_id(&mut self, id: i32, class: bool) -> R<()> {
    if class && self.defs.contains_key(&id) {
      return rej("duplicate class ID");
    }
    if !self.ids.insert(id) {
      self.gray("duplicate object ID");
    }
    Ok(())
  }

  fn prim_type(&mut self) -> R<u8> {
    match self.u8()? {
      t @ (1 | 2 | 3 | 5..=18) => Ok(t),
      _ => rej("unknown primitive type"),
    }
  }
  fn prim(&mut self, t: u8) -> R<MV> {
    Ok(match t {
      1 => match self.u8()? {
        0 => MV::Bool(false),
        1 => MV::Bool(true),
        _ => return rej("boolean other than 0 and 1"),
      },
      2 => MV::Byte(self.u8()?),
      3 => {
        let b0 = match self.peek() {
          Some(b) => b,
          None => return rej("end of input"),
        };
        let n = match b0 {
          0..=0x7f => 1,
          0xc0..=0xdf => 2,
          0xe0..=0xef => 3,
          0xf0..=0xf7 => 4,
          _ => return rej("char is not UTF-8"),
        };
        match std::str::from_utf8(self.take(n)?) {
          Ok(s) => MV::Char(s.chars().next().unwrap()),
          Err(_) => return rej("char is not UTF-8"),
        }
      },
      5 => {
        let s = self.string()?;
        if canonical_decimal(&s) {
          MV::Dec(s)
        } else if s.is_empty() || !s.bytes().any(|c| c.is_ascii_digit()) || s.bytes().any(|c| (c.is_ascii_alphabetic() && !matches!(c, b'e' | b'E')) || c >= 0x80 || c <= b' ')
        {
          return rej("not a decimal");
        } else {
          self.gray("decimal in an unusual form");
          MV::Dec(s)
        }
      },
      6 => MV::Double(u64::from_le_bytes(self.arr()?)),
      7 => MV::I16(i16::from_le_bytes(self.arr()?)),
      8 => MV::I32(i32::from_le_bytes(self.arr()?)),
      9 => MV::I64(i64::from_le_bytes(self.arr()?)),
      10 => MV::SByte(self.u8()? as i8),
      11 => MV::Single(u32::from_le_bytes(self.arr()?)),
      12 => MV::TimeSpan(i64::from_le_bytes(self.arr()?)),
      13 => MV::DateTime(i64::from_le_bytes(self.arr()?)),
      14 => MV::U16(u16::from_le_bytes(self.arr()?)),
      15 => MV::U32(u32::from_le_bytes(self.arr()?)),
      16 => MV::U64(u64::from_le_bytes(self.arr()?)),
      _ => return rej("null or string as an untyped primitive"),
    })
  }

  fn library(&mut self) -> R<bool> {
    if self.peek() != Some(12) {
      return Ok(false);
    }
    self.p += 1;
    let id = self.pos_id("library ID is not positive")?;
    let name = self.string()?;
    if self.libs.insert(id, name).is_some() {
      return rej("duplicate library ID");
    }
    Ok(true)
  }
  /// Up to `max` libraries are covered by the grammar, more of them are not specified.
  fn libraries(&mut self, max: usize) -> R<usize> {
    let mut n = 0;
    while self.library()? {
      n += 1;
      if n > max {
        self.gray("more libraries than the grammar allows");
      }
    }
    Ok(n)
  }

  fn binary_type(&mut self) -> R<u8> {
    match self.u8()? {
      t @ 0..=7 => Ok(t),
      _ => rej("unknown binary type"),
    }
  }
  fn additional(&mut self, b: u8) -> R<Ty> {
    Ok(match b {
      0 => Ty::Prim(self.prim_type()?),
      1 => Ty::Str,
      2 => Ty::Object,
      3 => Ty::Sys(self.string()?),
      4 => {
        let n = self.string()?;
        let l = self.pos_id("library ID is not positive")?;
        Ty::Cls(n, l, self.libs.contains_key(&l))
      },
      5 => Ty::ObjArr,
      6 => Ty::StrArr,
      _ => {
        let p = self.prim_type()?;
        if p > 16 {
          self.gray("primitive array of null or string");
        }
        Ty::PrimArr(p)
      },
    })
  }

  fn nested<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
    self.depth += 1;
    if self.depth > MAX_DEPTH {
      return unspec("nested too deeply");
    }
    let r = f(self);
    self.depth -= 1;
    r
  }

  fn null(&mut self) -> R<Option<usize>> {
    let n = match self.peek() {
      Some(10) => {
        self.p += 1;
        1
      },
      Some(13) => {
        self.p += 1;
        self.u8()? as usize
      },
      Some(14) => {
        self.p += 1;
        let v = self.i32()?;
        if v <= 0 {
          return rej("null count is not positive");
        }
        v as usize
      },
      _ => return Ok(None),
    };
    if n == 0 {
      return rej("null count is zero");
    }
    Ok(Some(n))
  }

  fn inline_string(&mut self) -> R<MV> {
    self.p += 1;
    let id = self.pos_id("string ID is not positive")?;
    let s = self.string()?;
    self.new_id(id, false)?;
    self.strs.insert(id, s.clone());
    self.inline_strs.insert(id);
    self.late_obj(id, || MV::Str(s.clone()), Kind::Str);
    Ok(MV::Str(s))
  }

  fn member(&mut self, ty: &Ty) -> R<Mem> {
    if let Ty::Prim(p) = ty {
      return Ok(Mem::One(Slot::Val(self.prim(*p)?)));
    }
    let libs = self.libraries(2)?;
    let rec = match self.peek() {
      Some(r) => r,
      None => return rej("end of input"),
    };
    if libs > 1 && !(1..=5).contains(&rec) {
      self.gray("more libraries than the grammar allows");
    }
    if let Ty::Cls(_, l, known) = ty {
      match (self.libs.contains_key(l), known) {
        (false, _) => return rej("declared library is unknown"),
        (true, false) => self.gray("declared library follows its use"),
        _ => (),
      }
    }
    if let Some(n) = self.null()? {
      return Ok(Mem::Nulls(n));
    }
    if rec == 9 {
      self.p += 1;
      let id = self.pos_id("reference is not positive")?;
      return Ok(Mem::One(Slot::Ref(id, ty.clone())));
    }
    let slot = match (ty, rec) {
      (Ty::Untyped | Ty::Object, 8) => {
        self.p += 1;
        let t = self.prim_type()?;
        Slot::Val(self.prim(t)?)
      },
      (Ty::Untyped | Ty::Object | Ty::Str, 6) => Slot::Val(self.inline_string()?),
      (Ty::Untyped | Ty::Object, 1..=5) => Slot::Val(self.nested(|s| s.class(false))?.1),
      (Ty::Sys(_) | Ty::Cls(..), 1..=5) => {
        let v = self.nested(|s| s.class(false))?.1;
        if !self.class_matches(&v, ty) {
          return rej("inline object of another class than declared");
        }
        Slot::Val(v)
      },
      (Ty::ObjArr | Ty::StrArr, 1..=6 | 8) => return unspec("inline value for a declared array"),
      _ => return rej("record cannot be a member here"),
    };
    Ok(Mem::One(slot))
  }

  fn class_matches(&self, v: &MV, ty: &Ty) -> bool {
    match (v, ty) {
      (MV::Obj(o), Ty::Sys(n)) => o.class == *n && o.lib.is_none(),
      (MV::Obj(o), Ty::Cls(n, l, _)) => o.class == *n && o.lib.is_some() && o.lib.as_ref() == self.libs.get(l),
      _ => false,
    }
  }

  fn resolve(&mut self, slots: Vec<Slot>) -> R<Vec<MV>> {
    let mut out = vec![];
    for s in slots {
      match s {
        Slot::Val(v) => out.push(v),
        Slot::Ref(id, ty) if self.late => {
          self.late_refs.push((id, ty));
          out.push(MV::Ref(id));
        },
        Slot::Ref(id, ty) => {
          let (v, k) = self.lookup(id)?;
          if !self.fits(&v, k, &ty) {
            self.gray("referenced object is not of the declared type");
          }
          out.push(v);
        },
      }
    }
    Ok(out)
  }

  fn fits(&self, v: &MV, k: Kind, ty: &Ty) -> bool {
    match ty {
      Ty::Untyped | Ty::Object => true,
      Ty::Str => k == Kind::Str,
      Ty::Sys(_) | Ty::Cls(..) => self.class_matches(v, ty),
      Ty::ObjArr => matches!(k, Kind::ObjArray),
      Ty::StrArr => k == Kind::StrArray,
      Ty::PrimArr(p) => k == Kind::PrimArray(*p),
      Ty::Prim(_) => false,
    }
  }

  fn late_obj(&mut self, id: i32, v: impl FnOnce() -> MV, k: Kind) {
    if self.late {
      self.late_objs.insert(id, (v(), k));
    }
  }

  /// The value with its references replaced; `on` are the objects around it.
  fn late_value(&self, v: &MV, on: &mut Vec<i32>, left: &mut usize) -> R<MV> {
    if *left == 0 || on.len() > 100 {
      return unspec("too large with its references");
    }
    *left -= 1;
    Ok(match v {
      MV::Ref(id) => {
        if on.contains(id) {
          return rej("object contains itself");
        }
        let Some((v, _)) = self.late_objs.get(id) else { return rej("reference to an object which is nowhere") };
        on.push(*id);
        let v = self.late_value(v, on, left)?;
        on.pop();
        v
      },
      MV::Arr(a) => MV::Arr(a.iter().map(|v| self.late_value(v, on, left)).collect::<R<_>>()?),
      MV::Obj(o) => MV::Obj(MObj {
        class: o.class.clone(),
        lib: o.lib.clone(),
        members: o
          .members
          .iter()
          .map(|(n, v)| Ok((n.clone(), self.late_value(v, on, left)?)))
          .collect::<R<_>>()?,
      }),
      v => v.clone(),
    })
  }

  /// Resolves the references of a message whose records are all known.
  fn late_message(&mut self) -> R<MM> {
    let m = match self.message() {
      // the crate also takes objects within the elements of an array, right after the one which refers to them
      Err(Stop::Rej(_)) => return unspec("object between the elements of an array"),
      m => m?,
    };
    for (id, ty) in std::mem::take(&mut self.late_refs) {
      match self.late_objs.get(&id) {
        Some((v, k)) if !self.fits(v, *k, &ty) => return unspec("referenced object is not of the declared type"),
        None => return rej("reference to an object which is nowhere"),
        _ => (),
      }
    }
    let left = &mut 20_000;
    let mut go = |v: &MV| self.late_value(v, &mut vec![], left);
    let mut all = |a: Option<Vec<MV>>| match a {
      Some(a) if self.late_args => match go(&a[0])? {
        MV::Arr(a) => Ok(Some(a)),
        _ => rej("no arguments in the call array"),
      },
      Some(a) => Ok(Some(a.iter().map(&mut go).collect::<R<_>>()?)),
      None => Ok(None),
    };
    Ok(match m {
      MM::Value(v) => MM::Value(go(&v)?),
      MM::Call { method, type_name, ctx, args } => MM::Call { method, type_name, ctx, args: all(args)? },
      MM::Return { ret, ctx, args } => MM::Return { ret, ctx, args: all(args)? },
    })
  }

  fn lookup(&mut self, id: i32) -> R<(MV, Kind)> {
    if let Some(s) = self.strs.get(&id) {
      return Ok((MV::Str(s.clone()), Kind::Str));
    }
    if let Some(v) = self.objs.remove(&id) {
      self.gone.insert(id);
      return Ok(v);
    }
    if self.ids.contains(&id) {
      return unspec(REPEATED);
    }
    // it has to be the next record
    let p = self.p;
    match self.referenceable()? {
      Some((got, v, k)) if got == id => {
        if k != Kind::Str {
          self.gone.insert(id);
        }
        Ok((v, k))
      },
      Some(_) => unspec(DEPTH_FIRST),
      None => {
        if self.d.get(p) == Some(&11) && p + 1 == self.d.len() {
          rej("reference to an object which is nowhere")
        } else if self.p == p {
          rej("record cannot be an object here")
        } else {
          unspec("library before a record which cannot have one")
        }
      },
    }
  }

  /// Returns the ID and the object.
  fn class(&mut self, _top: bool) -> R<(i32, MV)> {
    let rec = self.u8()?;
    let id = self.any_id()?;
    let def = if rec == 1 {
      let meta = self.any_id()?;
      if meta == id {
        return rej("metadata ID is the object's own ID");
      }
      match self.defs.get(&meta) {
        None => return rej("unknown metadata ID"),
        Some(d) => {
          let mut d = d.clone();
          if d.from_reuse {
            self.gray("metadata ID of a ClassWithId");
          }
          d.from_reuse = true;
          d
        },
      }
    } else {
      let name = self.string()?;
      let n = self.len()?;
      if n > self.d.len() {
        return rej("end of input");
      }
      let mut names = vec![];
      for _ in 0..n {
        let s = self.string()?;
        names.push(s);
      }
      let mut set: Vec<&String> = names.iter().collect();
      set.sort();
      set.dedup();
      if set.len() != names.len() {
        self.gray("duplicate member names");
      }
      let tys = if rec >= 4 {
        let mut bts = vec![];
        for _ in 0..n {
          bts.push(self.binary_type()?);
        }
        let mut tys = vec![];
        for b in bts {
          tys.push(self.additional(b)?);
        }
        tys
      } else {
        vec![Ty::Untyped; n]
      };
      let lib = if rec == 3 || rec == 5 {
        let l = self.pos_id("library ID is not positive")?;
        match self.libs.get(&l) {
          Some(n) => Some(n.clone()),
          None => return rej("unknown library ID"),
        }
      } else {
        None
      };
      Def { name, lib, members: names.into_iter().zip(tys).collect(), from_reuse: false }
    };
    self.new_id(id, true)?;
    self.defs.insert(id, def.clone());
    let mut slots = vec![];
    for (_, ty) in &def.members {
      match self.member(ty)? {
        Mem::One(s) => slots.push(s),
        Mem::Nulls(1) => slots.push(Slot::Val(MV::Null)),
        Mem::Nulls(_) => return rej("null run in place of one member"),
      }
    }
    let vals = self.resolve(slots)?;
    let v = MV::Obj(MObj { class: def.name, lib: def.lib, members: def.members.into_iter().map(|m| m.0).zip(vals).collect() });
    self.late_obj(id, || v.clone(), Kind::Class);
    Ok((id, v))
  }

  fn elements(&mut self, ty: &Ty, n: usize) -> R<Vec<MV>> {
    let mut slots = vec![];
    while slots.len() < n {
      match self.member(ty)? {
        Mem::One(s) => slots.push(s),
        Mem::Nulls(k) => {
          if k > n - slots.len() {
            return rej("null run beyond the end of the array");
          }
          self.nulls += k;
          if self.nulls > MAX_NULLS {
            return unspec("too many nulls to try");
          }
          slots.extend((0..k).map(|_| Slot::Val(MV::Null)));
        },
      }
    }
    self.resolve(slots)
  }

  fn object_array(&mut self) -> R<(i32, Vec<MV>)> {
    self.p += 1;
    let id = self.pos_id("array ID is not positive")?;
    self.new_id(id, false)?;
    let n = self.len()?;
    Ok((id, self.elements(&Ty::Untyped, n)?))
  }

  fn array(&mut self) -> R<(i32, Vec<MV>, Kind)> {
    match self.peek() {
      Some(16) => {
        let (id, v) = self.object_array()?;
        Ok((id, v, Kind::ObjArray))
      },
      Some(17) => {
        self.p += 1;
        let id = self.pos_id("array ID is not positive")?;
        self.new_id(id, false)?;
        let n = self.len()?;
        Ok((id, self.elements(&Ty::Str, n)?, Kind::StrArray))
      },
      Some(15) => {
        self.p += 1;
        let id = self.pos_id("array ID is not positive")?;
        self.new_id(id, false)?;
        let n = self.len()?;
        let t = self.prim_type()?;
        if t > 16 && n == 0 {
          self.gray("primitive array of null or string");
        }
        if n > self.d.len() {
          return rej("end of input");
        }
        let mut v = vec![];
        for _ in 0..n {
          v.push(self.prim(t)?);
        }
        Ok((id, v, Kind::PrimArray(t)))
      },
      _ => {
        self.p += 1;
        let id = self.pos_id("array ID is not positive")?;
        self.new_id(id, false)?;
        let at = self.u8()?;
        if at > 5 {
          return rej("unknown array type");
        }
        let rank = self.len()?;
        if rank > self.d.len() {
          return rej("end of input");
        }
        let mut lengths = vec![];
        for _ in 0..rank {
          lengths.push(self.len()?);
        }
        if at >= 3 {
          for _ in 0..rank {
            self.i32()?;
          }
        }
        let b = self.binary_type()?;
        let ty = self.additional(b)?;
        if rank == 0 || (rank != 1 && at != 2 && at != 5) {
          self.gray("rank does not fit the kind of array");
        }
        let mut total = 1usize;
        for l in &lengths {
          total = match total.checked_mul(*l) {
            Some(t) => t,
            None => {
              if lengths.contains(&0) {
                return unspec("overflowing lengths with a zero");
              }
              return rej("number of elements overflows");
            },
          };
        }
        if total == 0 && rank > 1 && lengths[0] != 0 {
          self.gray("rectangular array without elements");
        }
        if total == 0 {
          if let Ty::Cls(_, _, false) = ty {
            self.gray("unknown library of an array without elements");
          }
          if let Ty::Prim(17 | 18) = ty {
            self.gray("primitive array of null or string");
          }
        }
        let flat = self.elements(&ty, total)?;
        let v = if lengths.is_empty() || total == 0 {
          if lengths.first() == Some(&0) || lengths.is_empty() { vec![] } else { flat }
        } else {
          crate::generate::shaped(&lengths, &mut flat.into_iter())
        };
        Ok((id, v, Kind::BinArray))
      },
    }
  }

  /// The next object, or nothing if the next record cannot be one.
  fn referenceable(&mut self) -> R<Option<(i32, MV, Kind)>> {
    let libs = self.libraries(1)?;
    Ok(match self.peek() {
      Some(1..=5) => {
        let (id, v) = self.nested(|s| s.class(true))?;
        Some((id, v, Kind::Class))
      },
      Some(7 | 15..=17) => {
        let (id, v, k) = self.nested(|s| s.array())?;
        Some((id, MV::Arr(v), k))
      },
      Some(6) => {
        if libs > 0 {
          self.gray("library before a string");
        }
        self.p += 1;
        let id = self.pos_id("string ID is not positive")?;
        let s = self.string()?;
        self.new_id(id, false)?;
        self.strs.insert(id, s.clone());
        Some((id, MV::Str(s), Kind::Str))
      },
      _ => None,
    })
  }

  fn referenceables(&mut self) -> R<bool> {
    loop {
      let p = self.p;
      match self.referenceable()? {
        Some((id, v, k)) => {
          self.late_obj(id, || v.clone(), k);
          if k != Kind::Str {
            self.objs.insert(id, (v, k));
          }
        },
        None => return Ok(self.p != p),
      }
    }
  }

  fn string_with_code(&mut self) -> R<String> {
    if self.u8()? != 18 {
      return rej("expected a string with code");
    }
    self.string()
  }
  fn value_with_code(&mut self) -> R<MV> {
    match self.prim_type()? {
      17 => Ok(MV::Null),
      18 => Ok(MV::Str(self.string()?)),
      t => self.prim(t),
    }
  }

  fn message(&mut self) -> R<MM> {
    if self.u8()? != 0 {
      return rej("no header");
    }
    let root = self.i32()?;
    if root < 0 {
      return rej("negative root ID");
    }
    self.i32()?;
    if self.i32()? != 1 {
      return rej("major version");
    }
    if self.i32()? != 0 {
      return rej("minor version");
    }
    let lib = self.referenceables()?;
    let mut mm = None;
    if let Some(rec @ (21 | 22)) = self.peek() {
      self.p += 1;
      let f = self.i32()? as u32;
      let cnt = |m: u32| (f & m).count_ones();
      let (a, c, r, s, x) = (0xF, 0x70, 0x1E00, 0x80, 0x2000);
      if cnt(a) > 1 || cnt(c) > 1 || cnt(r) > 1 {
        return rej("several flags of one category");
      }
      for (m, n) in [(a, x), (r, x), (r, s), (x, s)] {
        if f & m != 0 && f & n != 0 {
          return rej("exclusive flag categories");
        }
      }
      if f & !0xBFFF != 0 {
        self.gray("undefined flags");
      }
      if rec == 21 && f & (r | x) != 0 || rec == 22 && f & (s | 0x8000) != 0 {
        self.gray("flags of the other kind of method record");
      }
      if f & 0x1000 != 0 {
        self.gray("return value in the call array");
      }
      let (mut method, mut type_name, mut ret) = (String::new(), String::new(), None);
      if rec == 21 {
        method = self.string_with_code()?;
        type_name = self.string_with_code()?;
      } else if f & 0x800 != 0 {
        ret = Some(self.value_with_code()?);
      }
      let ctx = if f & 0x20 != 0 { Some(self.string_with_code()?) } else { None };
      let mut args = None;
      if f & 2 != 0 {
        let n = self.len()?;
        let mut v = vec![];
        for _ in 0..n {
          v.push(self.value_with_code()?);
        }
        args = Some(v);
      }
      // the call array
      let p = self.p;
      let n_libs = if self.peek() == Some(12) { self.libraries(1)? } else { 0 };
      let wants = f & 0xB1CC != 0;
      if self.peek() == Some(16) {
        if !wants {
          self.gray("object array after a method record without call array");
        }
        let (id, v) = self.nested(|s| s.object_array())?;
        self.late_obj(id, || MV::Arr(v.clone()), Kind::ObjArray);
        if id != root {
          if !wants {
            return unspec("object array after a method record without call array");
          }
          return rej("call array is not the root");
        }
        if f & 4 != 0 {
          args = Some(v);
        } else if f & 8 != 0 {
          match v.into_iter().next() {
            Some(MV::Arr(a)) => args = Some(a),
            Some(MV::Ref(id)) => {
              self.late_args = true;
              args = Some(vec![MV::Ref(id)]);
            },
            _ => return rej("no arguments in the call array"),
          }
        }
      } else {
        if f & 0xC != 0 {
          return rej("no call array");
        }
        if wants {
          self.gray("no call array");
        }
        let _ = (p, n_libs);
        if n_libs > 0 {
          // the library belongs to the record which follows
          match self.peek() {
            Some(1..=5 | 7 | 15 | 17) => (),
            _ => self.gray("library before a record which cannot have one"),
          }
        }
      }
      mm = Some(if rec == 21 { MM::Call { method, type_name, ctx, args } } else { MM::Return { ret, ctx, args } });
      if self.referenceables()? {
        self.gray("library before a record which cannot have one");
      }
    } else if lib {
      self.gray("library before a record which cannot have one");
    }
    match self.peek() {
      Some(11) => self.p += 1,
      _ => return rej("expected the end of the message"),
    }
    if self.p != self.d.len() {
      return rej("trailing data");
    }
    if let Some(m) = mm {
      return Ok(m);
    }
    if root == 0 {
      return Ok(MM::Value(MV::Null));
    }
    if let Some((v, _)) = self.objs.remove(&root) {
      return Ok(MM::Value(v));
    }
    if let Some(s) = self.strs.get(&root) {
      let s = s.clone();
      if self.inline_strs.contains(&root) {
        self.gray("root is an inline string");
      }
      return Ok(MM::Value(MV::Str(s)));
    }
    if self.ids.contains(&root) {
      return unspec("root is part of another object");
    }
    rej("root object is missing")
  }
}


/// An optional minus, digits without redundant zeros, an optional fraction, at most 28 digits in total.
pub fn canonical_decimal(s: &str) -> bool {
  let t = s.strip_prefix('-').unwrap_or(s);
  let (i, f) = match t.split_once('.') {
    Some((i, f)) => (i, Some(f)),
    None => (t, None),
  };
  let digits = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
  digits(i)
    && f.is_none_or(digits)
    && (i == "0" || !i.starts_with('0'))
    && i.len() + f.map_or(0, |f| f.len()) <= 28
    && t.bytes().any(|c| (b'1'..=b'9').contains(&c))
}

fn new(bytes: &[u8], late: bool) -> Dec<'_> {
  Dec {
    d: bytes,
    p: 0,
    libs: Default::default(),
    defs: Default::default(),
    objs: Default::default(),
    strs: Default::default(),
    inline_strs: Default::default(),
    ids: Default::default(),
    gone: Default::default(),
    depth: 0,
    nulls: 0,
    gray: None,
    late,
    late_objs: Default::default(),
    late_refs: vec![],
    late_args: false,
  }
}

pub fn decode(bytes: &[u8]) -> Verdict {
  let mut d = new(bytes, false);
  let r = d.message();
  match (r, d.gray) {
    (Err(Stop::Unspec(DEPTH_FIRST | REPEATED)), None) => decode_late(bytes),
    (Err(Stop::Unspec(w)), _) => Verdict::Unspecified(w),
    (_, Some(w)) => Verdict::Unspecified(w),
    (Ok(m), None) => Verdict::Accept(m),
    (Err(Stop::Rej(w)), None) => Verdict::Reject(w),
  }
}

/// References in an order which the crate does not support (known findings K2, K3).
fn decode_late(bytes: &[u8]) -> Verdict {
  let mut d = new(bytes, true);
  let r = d.late_message();
  match (r, d.gray) {
    (Err(Stop::Unspec(w)), _) => Verdict::Unspecified(w),
    (_, Some(w)) => Verdict::Unspecified(w),
    (Ok(m), None) => Verdict::AcceptOrReject(m),
    (Err(Stop::Rej(w)), None) => Verdict::Reject(w),
  }
}

/// How many nulls the runs of the message add up to, as far as it can be decoded.
pub fn nulls(bytes: &[u8]) -> usize {
  let mut d = new(bytes, false);
  let _ = d.message();
  d.nulls
}
