//! A second encoder, from values to messages: every choice which does not belong to the value (IDs, kinds of records,
//! order of definitions, runs of nulls, libraries, metadata reuse) is drawn from the tape. It is independent of the
//! message generator and of the reference decoder.

use crate::model::*;
use crate::tape::Tape;
use std::collections::BTreeMap;

struct Def {
  class: String,
  lib: Option<String>,
  /// Member names with the declared type, untyped if there are none.
  members: Vec<(String, Option<Decl>)>,
  id: i32,
}

#[derive(Clone, PartialEq, Debug)]
enum Decl {
  Prim(P),
  Str,
  Object,
  Sys(String),
  Cls(String, String),
  ObjArr,
  StrArr,
  PrimArr(P),
}

pub struct Enc<'t> {
  t: &'t mut Tape,
  out: Vec<u8>,
  used: std::collections::BTreeSet<i32>,
  libs: BTreeMap<String, i32>,
  defs: Vec<Def>,
  strs: BTreeMap<String, i32>,
  /// Objects written ahead, by the address of their value.
  ahead: BTreeMap<usize, i32>,
  style: u8,
  /// Strings whose record is written.
  defined: std::collections::BTreeSet<i32>,
}

fn key(v: &MV) -> usize {
  v as *const MV as usize
}

/// The lengths of a value which is a full rectangular array of the rank, with no dimension of length zero.
fn rect(v: &[MV], rank: usize) -> Option<Vec<usize>> {
  if v.is_empty() {
    return None;
  }
  if rank == 1 {
    return Some(vec![v.len()]);
  }
  let mut inner: Option<Vec<usize>> = None;
  for x in v {
    match x {
      MV::Arr(a) => {
        let l = rect(a, rank - 1)?;
        if *inner.get_or_insert(l.clone()) != l {
          return None;
        }
      },
      _ => return None,
    }
  }
  let mut l = vec![v.len()];
  l.extend(inner?);
  Some(l)
}
fn flatten<'a>(v: &'a [MV], rank: usize, out: &mut Vec<&'a MV>) {
  for x in v {
    match x {
      MV::Arr(a) if rank > 1 => flatten(a, rank - 1, out),
      _ => out.push(x),
    }
  }
}

enum Later<'v> {
  Obj(&'v MV, i32),
  Str(String, i32),
}

impl<'t> Enc<'t> {
  fn id(&mut self) -> i32 {
    let mut id = match self.style {
      0 => self.used.len() as i32 + 1,
      1 => 1 + (self.t.u16() as i32),
      _ => (self.t.u32() & 0x7fff_ffff) as i32,
    };
    while id <= 0 || self.used.contains(&id) {
      id = (id.wrapping_add(1)) & 0x7fff_ffff;
    }
    self.used.insert(id);
    id
  }
  fn string(&mut self, s: &str) {
    let mut min = 1;
    while s.len() >> (7 * min) != 0 {
      min += 1;
    }
    let n = if self.style == 2 && min < 5 && self.t.chance(40) { min + 1 + self.t.below(5 - min) } else { min };
    put_varint_padded(&mut self.out, s.len(), n);
    self.out.extend_from_slice(s.as_bytes());
  }
  fn rec(&mut self, r: u8) {
    self.out.push(r);
  }
  fn i32(&mut self, v: i32) {
    put_i32(&mut self.out, v);
  }

  fn library(&mut self, name: &str) -> i32 {
    if let Some(l) = self.libs.get(name) {
      return *l;
    }
    let id = self.id();
    self.rec(12);
    self.i32(id);
    self.string(name);
    self.libs.insert(name.to_string(), id);
    id
  }

  /// Declared type of a member with this value; the library of a declared class has to be known already.
  fn decl(&mut self, v: &MV) -> Decl {
    let plain = if self.t.chance(128) { Decl::Object } else { Decl::Str };
    match v {
      MV::Str(_) => plain,
      MV::Null => match self.t.below(5) {
        0 => Decl::Str,
        1 => Decl::StrArr,
        2 => Decl::PrimArr(*self.t.of(&PRIMS)),
        3 => Decl::Sys("X".into()),
        _ => Decl::Object,
      },
      MV::Obj(o) => match &o.lib {
        _ if self.t.chance(100) => Decl::Object,
        None => Decl::Sys(o.class.clone()),
        Some(l) if self.libs.contains_key(l) => Decl::Cls(o.class.clone(), l.clone()),
        _ => Decl::Object,
      },
      MV::Arr(_) => Decl::Object,
      p => {
        if self.t.chance(60) {
          Decl::Object
        } else {
          Decl::Prim(prim_of(p).unwrap())
        }
      },
    }
  }
  fn additional(&mut self, d: &Decl) {
    match d {
      Decl::Prim(p) | Decl::PrimArr(p) => self.rec(*p as u8),
      Decl::Sys(n) => self.string(n),
      Decl::Cls(n, l) => {
        self.string(n);
        let id = self.libs[l];
        self.i32(id);
      },
      _ => (),
    }
  }
  fn bin(d: &Decl) -> u8 {
    match d {
      Decl::Prim(_) => 0,
      Decl::Str => 1,
      Decl::Object => 2,
      Decl::Sys(_) => 3,
      Decl::Cls(..) => 4,
      Decl::ObjArr => 5,
      Decl::StrArr => 6,
      Decl::PrimArr(_) => 7,
    }
  }

  fn null(&mut self) {
    match self.t.below(4) {
      0 => self.out.extend([13, 1]),
      1 => self.out.extend([14, 1, 0, 0, 0]),
      _ => self.rec(10),
    }
  }

  fn member<'v>(&mut self, v: &'v MV, d: Option<&Decl>, later: &mut Vec<Later<'v>>) {
    if let Some(Decl::Prim(_)) = d {
      v.encode_prim(&mut self.out);
      return;
    }
    if let Some(id) = self.ahead.remove(&key(v)) {
      self.rec(9);
      self.i32(id);
      return;
    }
    match v {
      MV::Null => self.null(),
      MV::Str(s) => {
        if let Some(id) = self.strs.get(s).copied() {
          if self.t.chance(160) {
            self.rec(9);
            self.i32(id);
            later.push(Later::Str(s.clone(), id));
            return;
          }
        }
        let id = self.id();
        if self.t.chance(90) {
          // defined after this object, later uses may refer to it
          self.strs.insert(s.clone(), id);
          self.rec(9);
          self.i32(id);
          later.push(Later::Str(s.clone(), id));
        } else {
          self.rec(6);
          self.i32(id);
          self.string(s);
          self.strs.insert(s.clone(), id);
          self.defined.insert(id);
        }
      },
      MV::Obj(_) if self.t.chance(128) => {
        let id = self.class_id();
        self.object(v, id);
      },
      MV::Obj(_) | MV::Arr(_) => {
        let id = self.id();
        self.rec(9);
        self.i32(id);
        later.push(Later::Obj(v, id));
      },
      p => {
        self.rec(8);
        self.rec(prim_of(p).unwrap() as u8);
        p.encode_prim(&mut self.out);
      },
    }
  }
  fn class_id(&mut self) -> i32 {
    if self.style == 2 && self.t.chance(60) {
      let mut id = -1 - self.t.u16() as i32;
      while self.used.contains(&id) {
        id -= 1;
      }
      self.used.insert(id);
      id
    } else {
      self.id()
    }
  }
  fn finish(&mut self, later: Vec<Later>) {
    for l in later {
      match l {
        Later::Obj(v, id) => self.object(v, id),
        Later::Str(s, id) => {
          if self.defined.insert(id) {
            self.rec(6);
            self.i32(id);
            self.string(&s);
          }
        },
      }
    }
  }

  fn object(&mut self, v: &MV, id: i32) {
    match v {
      MV::Obj(o) => self.class(o, id),
      MV::Arr(a) => self.array(a, id),
      _ => unreachable!(),
    }
  }

  fn class(&mut self, o: &MObj, id: i32) {
    // the metadata of an earlier object of the same class, if its declared types fit
    let fits = |d: &Def, me: &Self| {
      d.class == o.class
        && d.lib == o.lib
        && d.members.len() == o.members.len()
        && d.members.iter().zip(&o.members).all(|((n, decl), (n2, v))| {
          n == n2
            && match decl {
              None | Some(Decl::Object) => true,
              Some(Decl::Prim(p)) => prim_of(v) == Some(*p),
              Some(Decl::Str) => matches!(v, MV::Str(_) | MV::Null),
              Some(Decl::Sys(c)) => {
                matches!(v, MV::Null) || matches!(v, MV::Obj(o) if o.lib.is_none() && o.class == *c)
              },
              Some(Decl::Cls(c, l)) => {
                matches!(v, MV::Null) || matches!(v, MV::Obj(o) if o.lib.as_ref() == Some(l) && o.class == *c)
              },
              Some(_) => matches!(v, MV::Null),
            }
        })
        && !me.used.is_empty()
    };
    let mut later = vec![];
    let cand: Vec<usize> = (0..self.defs.len()).filter(|i| fits(&self.defs[*i], self)).collect();
    if !cand.is_empty() && self.t.chance(170) {
      let i = *self.t.of(&cand);
      let meta = self.defs[i].id;
      let decls: Vec<Option<Decl>> = self.defs[i].members.iter().map(|m| m.1.clone()).collect();
      self.rec(1);
      self.i32(id);
      self.i32(meta);
      for (d, (_, v)) in decls.iter().zip(&o.members) {
        self.member(v, d.as_ref(), &mut later);
      }
      self.finish(later);
      return;
    }
    let lib = o.lib.as_ref().map(|l| self.library(l));
    let typed = self.t.chance(140);
    let decls: Vec<Option<Decl>> = o.members.iter().map(|(_, v)| typed.then(|| self.decl(v))).collect();
    self.rec(2 + lib.is_some() as u8 + 2 * typed as u8);
    self.i32(id);
    self.string(&o.class);
    self.i32(o.members.len() as i32);
    for (n, _) in &o.members {
      self.string(n);
    }
    if typed {
      for d in &decls {
        self.rec(Self::bin(d.as_ref().unwrap()));
      }
      for d in &decls {
        self.additional(d.as_ref().unwrap());
      }
    }
    if let Some(l) = lib {
      self.i32(l);
    }
    self.defs.push(Def {
      class: o.class.clone(),
      lib: o.lib.clone(),
      members: o.members.iter().map(|m| m.0.clone()).zip(decls.iter().cloned()).collect(),
      id,
    });
    for (d, (_, v)) in decls.iter().zip(&o.members) {
      self.member(v, d.as_ref(), &mut later);
    }
    self.finish(later);
  }

  fn elements<'v>(&mut self, items: &[&'v MV], d: Option<&Decl>) {
    let mut later = vec![];
    let mut i = 0;
    while i < items.len() {
      let run = items[i..].iter().take_while(|v| matches!(v, MV::Null)).count();
      if run > 1 && !matches!(d, Some(Decl::Prim(_))) {
        let n = 1 + self.t.below(run);
        match self.t.below(3) {
          0 if n <= 255 => self.out.extend([13, n as u8]),
          1 => (0..n).for_each(|_| self.out.push(10)),
          _ => {
            self.rec(14);
            self.i32(n as i32);
          },
        }
        i += n;
      } else {
        self.member(items[i], d, &mut later);
        i += 1;
      }
    }
    self.finish(later);
  }

  fn array(&mut self, a: &[MV], id: i32) {
    let all: Vec<&MV> = a.iter().collect();
    let prim = a.first().and_then(prim_of).filter(|p| a.iter().all(|v| prim_of(v) == Some(*p)));
    let strs = a.iter().all(|v| matches!(v, MV::Str(_) | MV::Null));
    let arrs = a.iter().all(|v| matches!(v, MV::Arr(_)));
    match self.t.below(6) {
      0 if prim.is_some() => {
        self.rec(15);
        self.i32(id);
        self.i32(a.len() as i32);
        self.rec(prim.unwrap() as u8);
        a.iter().for_each(|v| v.encode_prim(&mut self.out));
      },
      1 if strs => {
        self.rec(17);
        self.i32(id);
        self.i32(a.len() as i32);
        self.elements(&all, Some(&Decl::Str));
      },
      2 if arrs && !a.is_empty() => {
        let rank = (2..=3).rev().find(|r| rect(a, *r).is_some());
        match rank {
          Some(rank) => {
            let lens = rect(a, rank).unwrap();
            let mut flat = vec![];
            flatten(a, rank, &mut flat);
            self.binary(&flat, id, 2, &lens);
          },
          None => self.binary(&all, id, 0, &[a.len()]),
        }
      },
      3 | 4 => self.binary(&all, id, 0, &[a.len()]),
      5 => self.binary(&all, id, 2, &[a.len()]),
      _ => {
        self.rec(16);
        self.i32(id);
        self.i32(a.len() as i32);
        self.elements(&all, None);
      },
    }
  }

  fn binary(&mut self, items: &[&MV], id: i32, shape: u8, lens: &[usize]) {
    let prim = items.first().and_then(|v| prim_of(v)).filter(|p| items.iter().all(|v| prim_of(v) == Some(*p)));
    let strs = items.iter().all(|v| matches!(v, MV::Str(_) | MV::Null));
    let class = match items.first() {
      Some(MV::Obj(o)) => Some((o.class.clone(), o.lib.clone())),
      _ => None,
    }
    .filter(|(c, l)| {
      items.iter().all(|v| matches!(v, MV::Null) || matches!(v, MV::Obj(o) if o.class == *c && o.lib == *l))
    });
    let d = match class {
      _ if self.t.chance(70) => Decl::Object,
      Some((c, None)) => Decl::Sys(c),
      Some((c, Some(l))) => {
        self.library(&l);
        Decl::Cls(c, l)
      },
      None if prim.is_some() => Decl::Prim(prim.unwrap()),
      None if strs => Decl::Str,
      None => Decl::Object,
    };
    let offset = self.t.chance(80);
    self.rec(7);
    self.i32(id);
    self.rec(shape + if offset { 3 } else { 0 });
    self.i32(lens.len() as i32);
    for l in lens {
      self.i32(*l as i32);
    }
    if offset {
      for _ in lens {
        let b = self.t.u32() as i32;
        self.i32(b);
      }
    }
    self.rec(Self::bin(&d));
    self.additional(&d);
    self.elements(items, Some(&d));
  }

  /// Objects below `v` which may be written before it, innermost last.
  fn parts<'v>(v: &'v MV, out: &mut Vec<&'v MV>) {
    let kids: Vec<&MV> = match v {
      MV::Obj(o) => o.members.iter().map(|m| &m.1).collect(),
      MV::Arr(a) => a.iter().collect(),
      _ => vec![],
    };
    for k in kids {
      if matches!(k, MV::Obj(_) | MV::Arr(_)) {
        out.push(k);
        Self::parts(k, out);
      }
    }
  }
}

/// A message which denotes the value.
pub fn encode(t: &mut Tape, v: &MV) -> Vec<u8> {
  let style = t.below(3) as u8;
  let mut e = Enc {
    t,
    out: vec![],
    used: Default::default(),
    libs: Default::default(),
    defs: vec![],
    strs: Default::default(),
    ahead: Default::default(),
    style,
    defined: Default::default(),
  };
  e.rec(0);
  e.i32(0);
  let h = if style == 0 { -1 } else { e.t.u32() as i32 };
  e.i32(h);
  e.i32(1);
  e.i32(0);
  let mut root = 0;
  match v {
    MV::Null => (),
    MV::Str(s) => {
      root = e.id();
      e.rec(6);
      e.i32(root);
      e.string(s);
    },
    _ => {
      // some objects of the graph come first, in any order in which parts precede the whole
      let mut parts = vec![];
      Enc::parts(v, &mut parts);
      let pick: Vec<&MV> = parts.into_iter().rev().filter(|_| style != 0 && e.t.chance(60)).collect();
      for p in pick {
        let id = e.id();
        e.object(p, id);
        e.ahead.insert(key(p), id);
      }
      root = e.id();
      e.object(v, root);
    },
  }
  e.rec(11);
  e.out[1..5].copy_from_slice(&root.to_le_bytes());
  if style != 0 && e.t.chance(16) {
    // the header ID is the root ID
    e.out[5..9].copy_from_slice(&root.to_le_bytes());
  }
  e.out
}
