//! Generator of well-formed messages together with the value they denote.
//!
//! Encoder and expected value are built side by side from the choice tape; nothing here calls the crate under test.
//! The positions of interesting fields are recorded as sites, which the mutating phases use.

use crate::model::*;
use crate::tape::Tape;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SK {
  RootId,
  HeaderId,
  Major,
  Minor,
  /// ID of an array, string
  ObjId,
  ClassId,
  Ref,
  MetaId,
  LibDef,
  LibUse,
  Null256,
  NullMulti,
  Len,
  Rank,
  DimLen,
  LowerBound,
  MemberCount,
  StrLen,
  StrBytes,
  RecType,
  MemberRecType,
  BinType,
  PrimType,
  ArrType,
  PrimVal(P),
  Flags,
  ArgCount,
  Code,
  StrCode,
  ClassName,
  TypeName,
  MemberName,
  LibName,
  End,
}

#[derive(Debug, Clone, Copy)]
pub struct Site {
  pub kind: SK,
  pub off: usize,
  pub len: usize,
  /// Kind-specific: for null runs the number of array elements from this run on.
  pub info: usize,
}

pub mod tag {
  pub const TYPED: u64 = 1;
  pub const UNTYPED: u64 = 1 << 1;
  pub const SYSCLASS: u64 = 1 << 2;
  pub const LIBCLASS: u64 = 1 << 3;
  pub const REUSE: u64 = 1 << 4;
  pub const REUSE_SELF: u64 = 1 << 5;
  pub const STR_FWD: u64 = 1 << 6;
  pub const STR_BACK: u64 = 1 << 7;
  pub const STR_SHARED: u64 = 1 << 8;
  pub const OBJ_FWD: u64 = 1 << 9;
  pub const OBJ_BACK: u64 = 1 << 10;
  pub const ASO: u64 = 1 << 11;
  pub const ASP: u64 = 1 << 12;
  pub const ASS: u64 = 1 << 13;
  pub const BA: u64 = 1 << 14;
  pub const RECT: u64 = 1 << 15;
  pub const JAGGED: u64 = 1 << 16;
  pub const OFFSET: u64 = 1 << 17;
  pub const NULL_ONE: u64 = 1 << 18;
  pub const NULL_RUN: u64 = 1 << 19;
  pub const LIB_EXTRA: u64 = 1 << 20;
  pub const LIB_INLINE: u64 = 1 << 21;
  pub const POOL: u64 = 1 << 22;
  pub const TRAILING: u64 = 1 << 23;
  pub const CALL: u64 = 1 << 24;
  pub const RETURN: u64 = 1 << 25;
  pub const CALLARRAY: u64 = 1 << 26;
  pub const ARGS_INLINE: u64 = 1 << 27;
  pub const CTX_INLINE: u64 = 1 << 28;
  pub const NEG_ID: u64 = 1 << 29;
  pub const PADDED: u64 = 1 << 30;
  pub const MULTIBYTE_LEN: u64 = 1 << 31;
  pub const NONASCII: u64 = 1 << 32;
  pub const INLINE_CLASS: u64 = 1 << 33;
  pub const TYPED_CLASS_MEMBER: u64 = 1 << 34;
  pub const TYPED_SYS_MEMBER: u64 = 1 << 35;
  pub const TYPED_ARR_MEMBER: u64 = 1 << 36;
  pub const PRIM_TYPED: u64 = 1 << 37;
  pub const PRIM_UNTYPED: u64 = 1 << 38;
  pub const PRIM12: u64 = 1 << 39;
  pub const MEMBER_NULL: u64 = 1 << 40;
  pub const LIB_BEFORE_MEMBER: u64 = 1 << 41;
  pub const RET_INLINE: u64 = 1 << 42;
  pub const ROOT_POOL: u64 = 1 << 43;
  pub const EMPTY_ARR: u64 = 1 << 44;
  pub const MULTI_MEMBER: u64 = 1 << 45;
  pub const ROOT_NULL: u64 = 1 << 46;
  pub const ARGS_IS_ARRAY: u64 = 1 << 47;
  pub const ARGS_IN_ARRAY: u64 = 1 << 48;
  pub const STR_MEMBER: u64 = 1 << 49;
}

#[derive(Debug, Clone)]
pub struct Profile {
  /// value, call, return
  pub msg: [u8; 3],
  /// class, array, string, null
  pub root: [u8; 4],
  /// ArraySingleObject, ArraySinglePrimitive, ArraySingleString, BinaryArray
  pub arr: [u8; 4],
  /// single, jagged, rectangular
  pub ba: [u8; 3],
  /// primitive, string, null, class inline, reference to a new object, reference to an earlier object
  pub member: [u8; 6],
  /// Declared types: primitive, string, object, system class, class, object array, string array, primitive array
  pub decl: [u8; 8],
  /// For strings: inline, null, reference to an earlier one, forward reference
  pub strs: [u8; 4],
  /// New referenced objects: class, array, string
  pub refs: [u8; 3],
  pub typed: u8,
  pub lib: u8,
  pub reuse: u8,
  pub run: u8,
  pub pool: usize,
  pub trailing: usize,
  pub extra_lib: u8,
  pub neg: u8,
  pub padded: u8,
  pub long_str: u8,
  pub offset: u8,
  pub depth: usize,
  pub budget: i32,
  pub max_members: usize,
  pub max_len: usize,
  pub root_pool: u8,
  pub prims: Vec<P>,
  /// args: none given, no args, inline, is array, in array
  pub args: [u8; 5],
  pub only_system: bool,
  /// avoid the decimal type and NaN, for comparisons through other representations
  pub no_dec: bool,
}

impl Default for Profile {
  fn default() -> Self {
    Self {
      msg: [8, 1, 1],
      root: [4, 3, 1, 0],
      arr: [2, 1, 1, 2],
      ba: [2, 1, 2],
      member: [5, 4, 3, 3, 3, 2],
      decl: [6, 3, 3, 2, 2, 1, 1, 2],
      strs: [4, 1, 2, 2],
      refs: [3, 3, 1],
      typed: 140,
      lib: 100,
      reuse: 70,
      run: 100,
      pool: 3,
      trailing: 2,
      extra_lib: 20,
      neg: 60,
      padded: 10,
      long_str: 6,
      offset: 80,
      depth: 5,
      budget: 40,
      max_members: 6,
      max_len: 8,
      root_pool: 50,
      prims: PRIMS.to_vec(),
      args: [1, 1, 2, 2, 2],
      only_system: false,
      no_dec: false,
    }
  }
}

#[derive(Debug, Clone, PartialEq)]
pub enum TD {
  Untyped,
  Prim(P),
  Str,
  Object,
  Sys(String),
  Cls(String, usize),
  ObjArr,
  StrArr,
  PrimArr(P),
}

#[derive(Debug, Clone)]
struct ClassDef {
  id: i32,
  name: String,
  lib: Option<usize>,
  members: Vec<(String, TD)>,
  open: bool,
}

#[derive(Debug, Clone)]
struct Lib {
  id: i32,
  name: String,
  defined: bool,
}

#[derive(Debug, Clone)]
struct StrEnt {
  id: i32,
  text: String,
  defined: bool,
  uses: usize,
}

#[derive(Debug, Clone)]
struct PoolEnt {
  id: i32,
  mv: MV,
  is_array: bool,
}

#[derive(Debug, Clone)]
enum RefSpec {
  Class(String, Option<usize>),
  AnyClass,
  AnyArray,
  ObjArray,
  StrArray,
  PrimArray(P),
}

enum Slot {
  Val(MV),
  PendStr(usize),
  Pend(i32, RefSpec),
}

pub struct Case {
  pub bytes: Vec<u8>,
  pub expected: MM,
  pub sites: Vec<Site>,
  pub tags: u64,
}

pub struct Gen<'t, 'p> {
  pub t: &'t mut Tape,
  pub p: &'p Profile,
  pub out: Vec<u8>,
  pub sites: Vec<Site>,
  pub tags: u64,
  used: std::collections::BTreeSet<i32>,
  next: i32,
  strings: Vec<StrEnt>,
  classes: Vec<ClassDef>,
  libs: Vec<Lib>,
  pool: Vec<PoolEnt>,
  budget: i32,
  /// The header ID is the root ID.
  same_ids: bool,
}

pub const CHARS: [char; 48] = [
  'a', 'b', 'Z', '0', '\u{c}', '\0', 'é', 'ß', '\u{7ff}', '\u{800}', '€', '\u{fffd}', '\u{10000}', '😀', '\u{10ffff}', '`',
  ' ', '\t', '\r', '\n', '"', '\\', '\'', '.', '<', '>', '+', '-', '_', '/', '[', ',', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}',
  '\u{ad}', '\u{301}', 'İ', 'ſ', '\u{200b}', '\u{200d}', '\u{2028}', '\u{202e}', '\u{feff}', '\u{d7ff}', '\u{e000}', '\u{ffff}',
];

const CLASS_NAMES: [&str; 40] = [
  "A", "B", "Ns.Customer", "", "System.Object", "A+B", "Ns.Generic`1[[System.Int32, mscorlib]]", "System.Int32",
  "Größe", "System.Collections.Generic.List`1[[X]]", "System.Collections.Hashtable", "C", "D", "E",
  "System.String", "System.String[]", "System.Object[]", "System.Byte[]", "System.Char", "System.Decimal", "System.DateTime",
  "System.TimeSpan", "System.Guid", "System.Collections.ArrayList", "System.Collections.Generic.Dictionary`2[[A],[B]]",
  "System.Nullable`1[[System.Int32]]", "System.Version", "System.IntPtr", "System.Exception", "System.DBNull", "System.Enum",
  " A ", "\u{feff}A", "a", "A, Lib, Version=1.0.0.0, Culture=neutral, PublicKeyToken=null", "A.B", "A`1", "A[]", "A&", "A*",
];
const LIB_NAMES: [&str; 12] = [
  "Lib", "DataTypes, Version=1.0.0.0, Culture=neutral, PublicKeyToken=null", "", "Löb", "mscorlib", "L2",
  "mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089", "System", " Lib", "lib", "Lib\0", "\u{feff}Lib",
];
const MEMBER_NAMES: [&str; 28] = [
  "a", "b", "c", "m_value", "_items", "_size", "", "größe", "<Name>k__BackingField", "x",
  "_a", "A", "a ", " a", "Base+a", "value__", "_version", "_value", "value", "\u{feff}a", "a.b", "a`1", "<a>", "k__BackingField",
  "a\0", "ticks", "dateData", "flags",
];

pub fn gen_string(t: &mut Tape, long: u8) -> String {
  if let Some(s) = crate::dict::text(t).or_else(|| t.echo_text(14)) {
    return s;
  }
  let s = new_string(t, long);
  t.note_text(&s);
  s
}
fn new_string(t: &mut Tape, long: u8) -> String {
  if long > 0 && t.chance(long) {
    let n = *t.of(&[127usize, 128, 129, 126, 255, 256, 300, 16383, 16384, 16385, 20000]);
    let c = *t.of(&['a', 'é', '€', '😀']);
    let mut s = String::new();
    while s.len() + c.len_utf8() <= n {
      s.push(c);
    }
    while s.len() < n {
      s.push('x');
    }
    return s;
  }
  match t.below(6) {
    0 | 1 => t
      .of(&[
        "", "x", "This is a string.", "a", "b", "null", "12", "-1.5", " a", "a ", "\r\n", "\u{feff}a", "\u{feff}", "a\0", "\0a",
        "NaN", "true", "A", "1e5", "+1", "00", "0.10", "\"a\"", "a\u{301}", "á", "<a>", "ﬁ", "𝔘", "Ü", "\u{200e}a", "i̇", "\\",
      ])
      .to_string(),
    _ => {
      let n = t.below(9);
      (0..n).map(|_| *t.of(&CHARS)).collect()
    },
  }
}

pub fn gen_int(t: &mut Tape, bits: u32) -> u64 {
  let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
  if let Some(n) = crate::dict::int(t).or_else(|| t.echo_int(14)) {
    return n & mask;
  }
  let n = (match t.below(10) {
    0 => 0,
    1 => 1,
    2 => u64::MAX,
    3 => 1 << (bits - 1),
    4 => (1 << (bits - 1)) - 1,
    5 => 12,
    6 => t.u8() as u64,
    7 => 1u64 << t.below(bits as usize),
    8 => ((t.u8() as u64) << 8) | 12,
    _ => t.u64(),
  }) & mask;
  t.note_int(n);
  n
}

/// A decimal in the form .NET writes it: no redundant leading zeros, at most 28 digits, scale kept.
pub fn gen_decimal(t: &mut Tape) -> String {
  let nd = match t.below(4) {
    0 => 1,
    1 => 1 + t.below(5),
    2 => 1 + t.below(28),
    _ => 28,
  };
  let mut digits: String = (0..nd).map(|_| (b'0' + t.below(10) as u8) as char).collect();
  let scale = t.below(nd + 1).min(nd);
  if digits.chars().all(|c| c == '0') {
    digits = "7".repeat(nd);
  }
  let (i, f) = digits.split_at(nd - scale);
  let i = i.trim_start_matches('0');
  let mut s = String::new();
  if t.chance(100) {
    s.push('-');
  }
  s.push_str(if i.is_empty() { "0" } else { i });
  if !f.is_empty() {
    s.push('.');
    s.push_str(f);
  }
  s
}

pub fn gen_prim(t: &mut Tape, p: P) -> MV {
  match p {
    P::Bool => MV::Bool(t.below(2) == 1),
    P::Byte => MV::Byte(gen_int(t, 8) as u8),
    P::Char => MV::Char(match t.below(3) {
      0 => *t.of(&CHARS),
      1 => (32 + t.below(95) as u8) as char,
      _ => {
        let bits = *t.of(&[7u32, 11, 16, 20]);
        char::from_u32(t.u32() & ((1 << bits) - 1)).unwrap_or('\u{ffff}')
      },
    }),
    P::Dec => MV::Dec(gen_decimal(t)),
    P::Double => MV::Double(match t.below(5) {
      0 => t.of(&[0.0f64, 1.0, -1.5, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, f64::MAX]).to_bits(),
      1 => (t.u16() as f64 / 8.0).to_bits(),
      2 => t.of(&[0x7ff0000000000001u64, 1, 0x7ff8000000000001, 0xfff4000000000000, 12]).to_owned(),
      _ => t.u64(),
    }),
    P::I16 => MV::I16(gen_int(t, 16) as i16),
    P::I32 => MV::I32(gen_int(t, 32) as i32),
    P::I64 => MV::I64(gen_int(t, 64) as i64),
    P::SByte => MV::SByte(gen_int(t, 8) as i8),
    P::Single => MV::Single(match t.below(5) {
      0 => t.of(&[0.0f32, 1.0, -1.5, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, f32::MAX]).to_bits(),
      1 => (t.u16() as f32 / 8.0).to_bits(),
      2 => t.of(&[0x7f800001u32, 1, 0x7fc00001, 0xffa00000, 12]).to_owned(),
      _ => t.u32(),
    }),
    P::TimeSpan => MV::TimeSpan(gen_int(t, 64) as i64),
    P::DateTime => {
      let kind = t.below(4) as u64;
      let ticks = gen_int(t, 64) & 0x3FFF_FFFF_FFFF_FFFF;
      MV::DateTime((ticks | kind << 62) as i64)
    },
    P::U16 => MV::U16(gen_int(t, 16) as u16),
    P::U32 => MV::U32(gen_int(t, 32) as u32),
    P::U64 => MV::U64(gen_int(t, 64)),
  }
}

impl<'t, 'p> Gen<'t, 'p> {
  pub fn new(t: &'t mut Tape, p: &'p Profile) -> Self {
    Self {
      t,
      p,
      out: vec![],
      sites: vec![],
      tags: 0,
      used: Default::default(),
      next: 0,
      strings: vec![],
      classes: vec![],
      libs: vec![],
      pool: vec![],
      budget: p.budget,
      same_ids: false,
    }
  }

  // --- low level -----------------------------------------------------------------------------------------------

  fn site(&mut self, kind: SK, len: usize, info: usize) {
    self.sites.push(Site { kind, off: self.out.len(), len, info });
  }
  fn i32(&mut self, kind: SK, v: i32) {
    self.t.note_int(v as u64);
    self.site(kind, 4, 0);
    put_i32(&mut self.out, v);
  }
  fn byte(&mut self, kind: SK, v: u8) {
    self.site(kind, 1, 0);
    self.out.push(v);
  }
  fn string(&mut self, kind: SK, s: &str) {
    let off = self.out.len();
    let mut min = 1;
    while min < 5 && s.len() >> (7 * min) != 0 {
      min += 1;
    }
    let mut n = min;
    if min < 5 && self.t.chance(self.p.padded) {
      n = min + 1 + self.t.below(5 - min);
      self.tags |= tag::PADDED;
    }
    if min > 1 {
      self.tags |= tag::MULTIBYTE_LEN;
    }
    if !s.is_ascii() {
      self.tags |= tag::NONASCII;
    }
    put_varint_padded(&mut self.out, s.len(), n);
    self.sites.push(Site { kind: SK::StrLen, off, len: n, info: s.len() });
    if !s.is_empty() {
      self.sites.push(Site { kind: SK::StrBytes, off: off + n, len: s.len(), info: s.len() });
    }
    self.out.extend_from_slice(s.as_bytes());
    self.sites.push(Site { kind, off, len: n + s.len(), info: s.len() });
  }

  /// A new positive ID.
  fn new_id(&mut self) -> i32 {
    let mut id = match self.t.below(12) {
      0..=9 => {
        self.next += 1;
        self.next
      },
      10 => *self.t.of(&[i32::MAX, 256, 12, 0x0c0c0c0c, 65536, 1 << 24]),
      _ => crate::dict::int(self.t)
        .or_else(|| self.t.echo_int(60))
        .map_or_else(|| (self.t.u32() & 0x7fff_ffff) as i32, |n| (n & 0x7fff_ffff) as i32),
    };
    while id <= 0 || self.used.contains(&id) {
      self.next += 1;
      id = self.next;
    }
    self.used.insert(id);
    id
  }
  /// A new ID of a class object which nothing refers to.
  fn new_private_class_id(&mut self) -> i32 {
    if self.t.chance(self.p.neg) {
      let mut id = match self.t.below(5) {
        0 => i32::MIN,
        4 => self.t.echo_int(255).map_or(-1, |n| -((n & 0x7fff_ffff) as i32)),
        1 => -((self.t.u32() & 0x7fff_ffff) as i32),
        _ => -1,
      };
      while id >= 0 || self.used.contains(&id) {
        id = id.wrapping_sub(1);
        if id >= 0 {
          id = -1;
        }
      }
      self.used.insert(id);
      self.tags |= tag::NEG_ID;
      id
    } else {
      self.new_id()
    }
  }

  fn class_name(&mut self) -> String {
    let s = match crate::dict::text(self.t).or_else(|| self.t.echo_text(14)) {
      Some(s) => s,
      None if self.t.chance(30) => gen_string(self.t, self.p.long_str),
      None => self.t.of(&CLASS_NAMES).to_string(),
    };
    self.t.note_text(&s);
    s
  }

  // --- libraries -----------------------------------------------------------------------------------------------

  fn new_lib(&mut self) -> usize {
    // the IDs of libraries and objects are independent of each other
    let id = match self.t.echo_int(16) {
      Some(n) if n as i32 > 0 && self.libs.iter().all(|l| l.id != n as i32) => n as i32,
      _ => loop {
        let id = self.new_id();
        if self.libs.iter().all(|l| l.id != id) {
          break id;
        }
      },
    };
    let name = match crate::dict::text(self.t).or_else(|| self.t.echo_text(14)) {
      Some(s) => s,
      None if self.t.chance(30) => gen_string(self.t, self.p.long_str),
      None => self.t.of(&LIB_NAMES).to_string(),
    };
    self.t.note_text(&name);
    self.libs.push(Lib { id, name, defined: false });
    self.libs.len() - 1
  }
  fn write_lib(&mut self, i: usize) {
    assert!(!self.libs[i].defined);
    self.libs[i].defined = true;
    let Lib { id, name, .. } = self.libs[i].clone();
    self.byte(SK::RecType, 12);
    self.i32(SK::LibDef, id);
    self.string(SK::LibName, &name);
  }
  fn defined_libs(&self) -> Vec<usize> {
    (0..self.libs.len()).filter(|i| self.libs[*i].defined).collect()
  }
  /// The optional library before a class, array or method record.
  fn lib_prefix(&mut self, need: Option<usize>) {
    match need {
      Some(i) if !self.libs[i].defined => self.write_lib(i),
      _ => {
        if self.t.chance(self.p.extra_lib) {
          let i = self.new_lib();
          self.write_lib(i);
          self.tags |= tag::LIB_EXTRA;
        }
      },
    }
  }

  // --- strings -------------------------------------------------------------------------------------------------

  fn new_string(&mut self) -> usize {
    let id = self.new_id();
    let text = gen_string(self.t, self.p.long_str);
    self.strings.push(StrEnt { id, text, defined: false, uses: 0 });
    self.strings.len() - 1
  }
  fn write_string(&mut self, i: usize) {
    assert!(!self.strings[i].defined);
    self.strings[i].defined = true;
    let StrEnt { id, text, .. } = self.strings[i].clone();
    self.byte(SK::RecType, 6);
    self.i32(SK::ObjId, id);
    self.string(SK::StrLen, &text);
    // the last pushed site duplicates StrLen with the whole string, drop it
    self.sites.pop();
  }
  fn write_ref(&mut self, id: i32) {
    self.byte(SK::MemberRecType, 9);
    self.i32(SK::Ref, id);
  }
  fn null_one(&mut self) {
    match self.t.pick(&[6, 1, 1]) {
      0 => self.byte(SK::MemberRecType, 10),
      1 => {
        self.byte(SK::MemberRecType, 13);
        self.site(SK::Null256, 1, 1);
        self.out.push(1);
      },
      _ => {
        self.byte(SK::MemberRecType, 14);
        self.site(SK::NullMulti, 4, 1);
        put_i32(&mut self.out, 1);
      },
    }
    self.tags |= tag::NULL_ONE;
  }
  fn string_member(&mut self) -> Slot {
    self.tags |= tag::STR_MEMBER;
    match self.t.pick(&self.p.strs) {
      1 => {
        self.tags |= tag::MEMBER_NULL;
        self.null_one();
        Slot::Val(MV::Null)
      },
      2 if !self.strings.is_empty() => {
        let i = self.t.below(self.strings.len());
        self.strings[i].uses += 1;
        if self.strings[i].uses > 1 {
          self.tags |= tag::STR_SHARED;
        }
        self.tags |= if self.strings[i].defined { tag::STR_BACK } else { tag::STR_FWD };
        let id = self.strings[i].id;
        self.write_ref(id);
        Slot::PendStr(i)
      },
      3 => {
        let i = self.new_string();
        self.strings[i].uses += 1;
        let id = self.strings[i].id;
        self.write_ref(id);
        self.tags |= tag::STR_FWD;
        Slot::PendStr(i)
      },
      _ => {
        let i = self.new_string();
        self.write_string(i);
        Slot::Val(MV::Str(self.strings[i].text.clone()))
      },
    }
  }

  // --- members -------------------------------------------------------------------------------------------------

  fn prim_value(&mut self, p: P) -> MV {
    let v = gen_prim(self.t, p);
    let off = self.out.len();
    v.encode_prim(&mut self.out);
    if self.out[off] == 12 {
      self.tags |= tag::PRIM12;
    }
    let len = self.out.len() - off;
    self.sites.push(Site { kind: SK::PrimVal(p), off, len, info: 0 });
    v
  }
  fn any_prim(&mut self) -> P {
    *self.t.of(&self.p.prims)
  }

  fn write_member(&mut self, td: &TD, depth: usize) -> Slot {
    self.budget -= 1;
    let simple = self.budget <= 0 || depth == 0;
    if !matches!(td, TD::Prim(_)) && self.t.chance(self.p.extra_lib / 4) {
      let i = self.new_lib();
      self.write_lib(i);
      self.tags |= tag::LIB_BEFORE_MEMBER;
    }
    match td {
      TD::Prim(p) => {
        self.tags |= tag::PRIM_UNTYPED;
        Slot::Val(self.prim_value(*p))
      },
      TD::Str => self.string_member(),
      TD::Untyped | TD::Object => {
        let mut w = self.p.member;
        if simple {
          w[3] = 0;
          w[4] = 0;
          if w.iter().all(|x| *x == 0) {
            w[2] = 1;
          }
        }
        match self.t.pick(&w) {
          0 => {
            self.tags |= tag::PRIM_TYPED;
            let p = self.any_prim();
            self.byte(SK::MemberRecType, 8);
            self.byte(SK::PrimType, p as u8);
            Slot::Val(self.prim_value(p))
          },
          1 => self.string_member(),
          2 => {
            self.tags |= tag::MEMBER_NULL;
            self.null_one();
            Slot::Val(MV::Null)
          },
          3 => {
            self.tags |= tag::INLINE_CLASS;
            let id = self.new_private_class_id();
            Slot::Val(self.write_class(None, id, depth - 1))
          },
          4 => {
            let spec = match self.t.pick(&self.p.refs) {
              0 => RefSpec::AnyClass,
              1 => RefSpec::AnyArray,
              _ => {
                let i = self.new_string();
                self.strings[i].uses += 1;
                let id = self.strings[i].id;
                self.write_ref(id);
                self.tags |= tag::STR_FWD;
                return Slot::PendStr(i);
              },
            };
            self.fwd(spec)
          },
          _ => {
            if let Some(e) = self.take_pool(false) {
              self.write_ref(e.id);
              self.tags |= tag::OBJ_BACK;
              Slot::Val(e.mv)
            } else {
              self.string_member()
            }
          },
        }
      },
      TD::Sys(name) => {
        self.tags |= tag::TYPED_SYS_MEMBER;
        self.class_member(name.clone(), None, depth, simple)
      },
      TD::Cls(name, lib) => {
        self.tags |= tag::TYPED_CLASS_MEMBER;
        self.class_member(name.clone(), Some(*lib), depth, simple)
      },
      TD::ObjArr | TD::StrArr | TD::PrimArr(_) => {
        self.tags |= tag::TYPED_ARR_MEMBER;
        if simple || self.t.chance(60) {
          self.tags |= tag::MEMBER_NULL;
          self.null_one();
          return Slot::Val(MV::Null);
        }
        self.fwd(match td {
          TD::ObjArr => RefSpec::ObjArray,
          TD::StrArr => RefSpec::StrArray,
          TD::PrimArr(p) => RefSpec::PrimArray(*p),
          _ => unreachable!(),
        })
      },
    }
  }

  fn fwd(&mut self, spec: RefSpec) -> Slot {
    let id = self.new_id();
    self.write_ref(id);
    self.tags |= tag::OBJ_FWD;
    Slot::Pend(id, spec)
  }

  fn class_member(&mut self, name: String, lib: Option<usize>, depth: usize, simple: bool) -> Slot {
    let choice = if simple { 2 } else { self.t.pick(&[4, 3, 2]) };
    match choice {
      0 => {
        self.tags |= tag::INLINE_CLASS;
        let id = self.new_private_class_id();
        Slot::Val(self.write_class(Some((name, lib)), id, depth - 1))
      },
      1 => self.fwd(RefSpec::Class(name, lib)),
      _ => {
        self.tags |= tag::MEMBER_NULL;
        self.null_one();
        Slot::Val(MV::Null)
      },
    }
  }

  fn take_pool(&mut self, need_array: bool) -> Option<PoolEnt> {
    let c: Vec<usize> = (0..self.pool.len()).filter(|i| !need_array || self.pool[*i].is_array).collect();
    if c.is_empty() {
      return None;
    }
    let i = *self.t.of(&c);
    Some(self.pool.remove(i))
  }

  /// Write the records of pending references, in the order of the members.
  fn resolve(&mut self, slots: Vec<Slot>, depth: usize) -> Vec<MV> {
    slots
      .into_iter()
      .map(|s| match s {
        Slot::Val(v) => v,
        Slot::PendStr(i) => {
          if !self.strings[i].defined {
            self.write_string(i);
          }
          MV::Str(self.strings[i].text.clone())
        },
        Slot::Pend(id, spec) => {
          let d = depth.saturating_sub(1);
          match spec {
            RefSpec::Class(n, l) => self.write_class(Some((n, l)), id, d),
            RefSpec::AnyClass => self.write_class(None, id, d),
            RefSpec::AnyArray => self.write_array(None, id, d),
            RefSpec::ObjArray => self.write_array(Some(0), id, d),
            RefSpec::StrArray => self.write_array(Some(2), id, d),
            RefSpec::PrimArray(p) => self.write_prim_array(p, id),
          }
        },
      })
      .collect()
  }

  // --- classes -------------------------------------------------------------------------------------------------

  fn write_class(&mut self, target: Option<(String, Option<usize>)>, id: i32, depth: usize) -> MV {
    // reuse the metadata of an earlier class
    let reuse: Vec<usize> = (0..self.classes.len())
      .filter(|i| match &target {
        None => true,
        Some((n, l)) => self.classes[*i].name == *n && self.lib_name(self.classes[*i].lib) == self.lib_name(*l),
      })
      .filter(|i| depth > 0 || self.classes[*i].members.len() <= 2)
      .collect();
    if !reuse.is_empty() && self.t.chance(self.p.reuse) {
      let i = *self.t.of(&reuse);
      self.lib_prefix(None);
      let def = self.classes[i].clone();
      self.tags |= tag::REUSE;
      if def.open {
        self.tags |= tag::REUSE_SELF;
      }
      self.byte(SK::RecType, 1);
      self.i32(SK::ClassId, id);
      self.i32(SK::MetaId, def.id);
      return self.class_members(i, depth);
    }

    let (name, lib) = match target {
      Some(t) => t,
      None => {
        let lib = if self.p.only_system || !self.t.chance(self.p.lib) {
          None
        } else if !self.libs.is_empty() && self.t.chance(150) {
          Some(self.t.below(self.libs.len()))
        } else {
          Some(self.new_lib())
        };
        (self.class_name(), lib)
      },
    };
    if let Some(l) = lib {
      if !self.libs[l].defined {
        self.tags |= tag::LIB_INLINE;
      }
    }
    self.lib_prefix(lib);

    let typed = self.t.chance(self.p.typed);
    let max = if depth == 0 || self.budget <= 0 { 2 } else { self.p.max_members };
    let n = match crate::dict::size(self.t, 300) {
      Some(n) if depth > 0 && self.budget > 0 => n,
      _ => self.t.below(max + 1),
    };
    let mut members: Vec<(String, TD)> = vec![];
    for k in 0..n {
      let mut mn = match crate::dict::text(self.t).or_else(|| self.t.echo_text(10)) {
        Some(s) => s,
        None if self.t.chance(20) => gen_string(self.t, self.p.long_str / 2),
        None => self.t.of(&MEMBER_NAMES).to_string(),
      };
      while members.iter().any(|m| m.0 == mn) {
        mn.push_str(&k.to_string());
      }
      self.t.note_text(&mn);
      let td = if typed { self.decl(lib) } else { TD::Untyped };
      members.push((mn, td));
    }
    if n > 1 {
      self.tags |= tag::MULTI_MEMBER;
    }

    self.byte(
      SK::RecType,
      match (typed, lib) {
        (false, None) => 2,
        (false, Some(_)) => 3,
        (true, None) => 4,
        (true, Some(_)) => 5,
      },
    );
    self.tags |= if typed { tag::TYPED } else { tag::UNTYPED };
    self.tags |= if lib.is_some() { tag::LIBCLASS } else { tag::SYSCLASS };
    self.i32(SK::ClassId, id);
    self.string(SK::ClassName, &name);
    self.i32(SK::MemberCount, n as i32);
    for m in &members {
      self.string(SK::MemberName, &m.0);
    }
    if typed {
      for m in &members {
        self.bin_type(&m.1);
      }
      for m in &members {
        self.additional(&m.1);
      }
    }
    if let Some(l) = lib {
      let lid = self.libs[l].id;
      self.i32(SK::LibUse, lid);
    }
    self.classes.push(ClassDef { id, name, lib, members, open: true });
    let i = self.classes.len() - 1;
    let v = self.class_members(i, depth);
    self.classes[i].open = false;
    v
  }

  fn lib_name(&self, l: Option<usize>) -> Option<String> {
    l.map(|l| self.libs[l].name.clone())
  }

  fn decl(&mut self, own: Option<usize>) -> TD {
    let mut w = self.p.decl;
    let libs = self.defined_libs();
    if libs.is_empty() && own.is_none() {
      w[4] = 0;
    }
    match self.t.pick(&w) {
      0 => TD::Prim(self.any_prim()),
      1 => TD::Str,
      2 => TD::Object,
      3 => TD::Sys(self.existing_or_new_name(None)),
      4 => {
        let l = match own {
          Some(o) if libs.is_empty() || self.t.chance(128) => o,
          _ => *self.t.of(&libs),
        };
        TD::Cls(self.existing_or_new_name(Some(l)), l)
      },
      5 => TD::ObjArr,
      6 => TD::StrArr,
      _ => TD::PrimArr(self.any_prim()),
    }
  }
  fn existing_or_new_name(&mut self, lib: Option<usize>) -> String {
    let c: Vec<String> = self.classes.iter().filter(|c| c.lib == lib).map(|c| c.name.clone()).collect();
    if !c.is_empty() && self.t.chance(128) { self.t.of(&c).clone() } else { self.class_name() }
  }
  fn bin_type(&mut self, td: &TD) {
    let b = match td {
      TD::Prim(_) => 0,
      TD::Str => 1,
      TD::Object | TD::Untyped => 2,
      TD::Sys(_) => 3,
      TD::Cls(..) => 4,
      TD::ObjArr => 5,
      TD::StrArr => 6,
      TD::PrimArr(_) => 7,
    };
    self.byte(SK::BinType, b);
  }
  fn additional(&mut self, td: &TD) {
    match td {
      TD::Prim(p) | TD::PrimArr(p) => self.byte(SK::PrimType, *p as u8),
      TD::Sys(n) => self.string(SK::TypeName, n),
      TD::Cls(n, l) => {
        self.string(SK::TypeName, n);
        let lid = self.libs[*l].id;
        self.i32(SK::LibUse, lid);
      },
      _ => (),
    }
  }

  fn class_members(&mut self, def: usize, depth: usize) -> MV {
    let d = self.classes[def].clone();
    let mut slots = vec![];
    for (_, td) in &d.members {
      slots.push(self.write_member(td, depth));
    }
    let vals = self.resolve(slots, depth);
    MV::Obj(MObj {
      class: d.name,
      lib: d.lib.map(|l| self.libs[l].name.clone()),
      members: d.members.into_iter().map(|m| m.0).zip(vals).collect(),
    })
  }

  // --- arrays --------------------------------------------------------------------------------------------------

  fn len(&mut self, depth: usize) -> usize {
    let max = if depth == 0 || self.budget <= 0 { 2 } else { self.p.max_len };
    let n = match crate::dict::size(self.t, 600) {
      Some(n) if depth > 0 && self.budget > 0 => n,
      _ => self.t.below(max + 1),
    };
    if n == 0 {
      self.tags |= tag::EMPTY_ARR;
    }
    n
  }

  /// Elements which may be null: nulls in runs of every form, everything else as members.
  fn elements(&mut self, td: &TD, n: usize, depth: usize) -> Vec<MV> {
    let mut slots = vec![];
    while slots.len() < n {
      let remaining = n - slots.len();
      if !matches!(td, TD::Prim(_)) && self.t.chance(self.p.run) {
        let r = 1 + self.t.below(remaining);
        let form = self.t.below(3);
        if r > 1 {
          self.tags |= tag::NULL_RUN;
        }
        self.tags |= tag::NULL_ONE;
        match form {
          0 if r <= 255 => {
            self.byte(SK::MemberRecType, 13);
            self.site(SK::Null256, 1, remaining);
            self.out.push(r as u8);
          },
          1 => {
            self.byte(SK::MemberRecType, 14);
            self.site(SK::NullMulti, 4, remaining);
            put_i32(&mut self.out, r as i32);
          },
          _ => {
            for _ in 0..r {
              self.byte(SK::MemberRecType, 10);
            }
          },
        }
        for _ in 0..r {
          slots.push(Slot::Val(MV::Null));
        }
      } else {
        let s = self.write_member(td, depth);
        slots.push(s);
      }
    }
    self.resolve(slots, depth)
  }

  fn write_prim_array(&mut self, p: P, id: i32) -> MV {
    self.lib_prefix(None);
    self.tags |= tag::ASP;
    let n = crate::dict::size(self.t, 4000).unwrap_or_else(|| self.t.below(self.p.max_len + 1));
    self.byte(SK::RecType, 15);
    self.i32(SK::ObjId, id);
    self.i32(SK::Len, n as i32);
    self.byte(SK::PrimType, p as u8);
    MV::Arr((0..n).map(|_| self.prim_value(p)).collect())
  }

  fn write_array(&mut self, kind: Option<usize>, id: i32, depth: usize) -> MV {
    let kind = match kind {
      Some(k) => k,
      None => self.t.pick(&self.p.arr),
    };
    match kind {
      0 => {
        self.lib_prefix(None);
        self.tags |= tag::ASO;
        self.byte(SK::RecType, 16);
        self.i32(SK::ObjId, id);
        let n = self.len(depth);
        self.i32(SK::Len, n as i32);
        MV::Arr(self.elements(&TD::Untyped, n, depth))
      },
      1 => {
        let p = self.any_prim();
        self.write_prim_array(p, id)
      },
      2 => {
        self.lib_prefix(None);
        self.tags |= tag::ASS;
        self.byte(SK::RecType, 17);
        self.i32(SK::ObjId, id);
        let n = self.len(depth);
        self.i32(SK::Len, n as i32);
        MV::Arr(self.elements(&TD::Str, n, depth))
      },
      _ => self.write_binary_array(id, depth),
    }
  }

  fn write_binary_array(&mut self, id: i32, depth: usize) -> MV {
    self.tags |= tag::BA;
    let shape = self.t.pick(&self.p.ba);
    let offset = self.t.chance(self.p.offset);
    let lengths: Vec<usize> = if shape == 2 {
      self.tags |= tag::RECT;
      let rank = 1 + self.t.below(4);
      if self.t.chance(25) {
        // no elements at all
        self.tags |= tag::EMPTY_ARR;
        let mut l: Vec<usize> = (0..rank).map(|_| self.t.below(4)).collect();
        l[0] = 0;
        l
      } else {
        let mut cap = if depth == 0 || self.budget <= 0 { 4 } else { 36 };
        (0..rank)
          .map(|_| {
            let n = 1 + self.t.below(cap.min(5));
            cap /= n;
            n
          })
          .collect()
      }
    } else {
      vec![self.len(depth)]
    };
    if shape == 1 {
      self.tags |= tag::JAGGED;
    }
    let mut need = None;
    let td = if shape == 1 {
      match self.t.below(3) {
        0 => TD::PrimArr(self.any_prim()),
        1 => TD::StrArr,
        _ => TD::ObjArr,
      }
    } else {
      let mut own = None;
      if !self.p.only_system && self.defined_libs().is_empty() && self.t.chance(self.p.lib) {
        let l = self.new_lib();
        need = Some(l);
        own = Some(l);
      }
      self.decl(own)
    };
    self.lib_prefix(need);
    if offset {
      self.tags |= tag::OFFSET;
    }
    self.byte(SK::RecType, 7);
    self.i32(SK::ObjId, id);
    self.byte(SK::ArrType, shape as u8 + if offset { 3 } else { 0 });
    self.i32(SK::Rank, lengths.len() as i32);
    for l in &lengths {
      self.i32(SK::DimLen, *l as i32);
    }
    if offset {
      for _ in &lengths {
        let b = gen_int(self.t, 32) as i32;
        self.i32(SK::LowerBound, b);
      }
    }
    self.bin_type(&td);
    self.additional(&td);
    let n = lengths.iter().product();
    let flat = self.elements(&td, n, depth);
    MV::Arr(shaped(&lengths, &mut flat.into_iter()))
  }

  // --- messages ------------------------------------------------------------------------------------------------

  /// A top-level record, available to later references.
  fn top_level(&mut self, kind: usize) -> (i32, MV) {
    let depth = self.p.depth;
    match kind {
      0 => {
        let id = self.new_id();
        let mv = self.write_class(None, id, depth);
        (id, mv)
      },
      1 => {
        let id = self.new_id();
        let mv = self.write_array(None, id, depth);
        (id, mv)
      },
      _ => {
        let i = self.new_string();
        self.write_string(i);
        (self.strings[i].id, MV::Str(self.strings[i].text.clone()))
      },
    }
  }
  fn write_pool(&mut self, max: usize, trailing: bool, no_array_first: bool) {
    let n = self.t.below(max + 1);
    for i in 0..n {
      let k = self.t.below(3);
      let k = if no_array_first && i == 0 { 2 } else { k };
      if k == 0 && self.t.chance(self.p.neg) {
        // a class object nothing can refer to
        let id = self.new_private_class_id();
        self.write_class(None, id, self.p.depth);
      } else {
        let (id, mv) = self.top_level(k);
        if k < 2 {
          self.pool.push(PoolEnt { id, mv, is_array: k == 1 });
        }
      }
      self.tags |= if trailing { tag::TRAILING } else { tag::POOL };
    }
  }
  fn start(&mut self) {
    self.byte(SK::RecType, 0);
    self.i32(SK::RootId, 0);
    let hid = if self.t.chance(40) { gen_int(self.t, 32) as i32 } else { -1 };
    self.same_ids = self.t.chance(10);
    self.i32(SK::HeaderId, hid);
    self.i32(SK::Major, 1);
    self.i32(SK::Minor, 0);
  }
  fn finish(mut self, root: i32, expected: MM) -> Case {
    self.byte(SK::End, 11);
    self.out[1..5].copy_from_slice(&root.to_le_bytes());
    if self.same_ids {
      self.out[5..9].copy_from_slice(&root.to_le_bytes());
    }
    Case { bytes: self.out, expected, sites: self.sites, tags: self.tags }
  }

  pub fn message(self) -> Case {
    match self.t.pick(&self.p.msg) {
      0 => self.value_message(),
      1 => self.method_message(false),
      _ => self.method_message(true),
    }
  }

  pub fn value_message(mut self) -> Case {
    self.start();
    self.write_pool(self.p.pool, false, false);
    let kind = self.t.pick(&self.p.root);
    if kind == 3 {
      self.tags |= tag::ROOT_NULL;
      self.write_pool(self.p.trailing, true, false);
      return self.finish(0, MM::Value(MV::Null));
    }
    self.budget = self.budget.max(self.p.budget / 2);
    let (mut id, mut mv) = self.top_level(kind);
    self.write_pool(self.p.trailing, true, false);
    if !self.pool.is_empty() && self.t.chance(self.p.root_pool) {
      self.tags |= tag::ROOT_POOL;
      let e = self.t.below(self.pool.len());
      id = self.pool[e].id;
      mv = self.pool[e].mv.clone();
    }
    self.finish(id, MM::Value(mv))
  }

  fn value_with_code(&mut self) -> MV {
    match self.t.pick(&[6, 2, 1]) {
      0 => {
        let p = self.any_prim();
        self.byte(SK::Code, p as u8);
        self.prim_value(p)
      },
      1 => {
        self.byte(SK::Code, 18);
        let s = gen_string(self.t, self.p.long_str);
        self.string(SK::StrLen, &s);
        self.sites.pop();
        MV::Str(s)
      },
      _ => {
        self.byte(SK::Code, 17);
        MV::Null
      },
    }
  }
  fn string_with_code(&mut self) -> String {
    self.byte(SK::StrCode, 18);
    let s = if self.t.chance(100) {
      self.t.of(&["SendAddress", "DOJRemotingMetadata.MyServer, DOJRemotingMetadata", "", "Größe"]).to_string()
    } else {
      gen_string(self.t, self.p.long_str)
    };
    self.string(SK::StrLen, &s);
    self.sites.pop();
    s
  }

  pub fn method_message(mut self, is_return: bool) -> Case {
    self.start();
    self.write_pool(self.p.pool, false, false);
    self.budget = self.budget.max(self.p.budget / 2);
    self.lib_prefix(None);
    self.tags |= if is_return { tag::RETURN } else { tag::CALL };

    let mut flags = 0u32;
    let mut args_mode = self.t.pick(&self.p.args);
    let ctx_mode = self.t.below(4);
    let mut ret_mode = 0;
    if is_return {
      // none given, null, void, inline, exception
      ret_mode = self.t.pick(&[1, 2, 2, 6, 1]);
      if ret_mode == 4 {
        args_mode = 0;
      }
      flags |= [0, 0x200, 0x400, 0x800, 0x2000][ret_mode];
    } else {
      if self.t.chance(40) {
        flags |= 0x80;
      }
      if self.t.chance(40) {
        flags |= 0x8000;
      }
    }
    if self.t.chance(40) {
      flags |= 0x100;
    }
    flags |= [0, 1, 2, 4, 8][args_mode];
    flags |= [0, 0x10, 0x20, 0x40][ctx_mode];

    self.byte(SK::RecType, if is_return { 22 } else { 21 });
    self.i32(SK::Flags, flags as i32);
    let (mut method, mut type_name, mut ret) = (String::new(), String::new(), None);
    if is_return {
      if ret_mode == 3 {
        self.tags |= tag::RET_INLINE;
        ret = Some(self.value_with_code());
      }
    } else {
      method = self.string_with_code();
      type_name = self.string_with_code();
    }
    let ctx = (ctx_mode == 2).then(|| {
      self.tags |= tag::CTX_INLINE;
      self.string_with_code()
    });
    let mut args = None;
    if args_mode == 2 {
      self.tags |= tag::ARGS_INLINE;
      let n = crate::dict::size(self.t, 600).unwrap_or_else(|| self.t.below(self.p.max_len + 1));
      self.i32(SK::ArgCount, n as i32);
      args = Some((0..n).map(|_| self.value_with_code()).collect());
    }

    let mut root = if self.t.chance(100) { (self.t.u32() & 0x7fff_ffff) as i32 } else { 0 };
    let call_array = args_mode >= 3 || flags & 0xA1C0 != 0;
    if call_array {
      self.tags |= tag::CALLARRAY;
      self.lib_prefix(None);
      root = self.new_id();
      self.byte(SK::RecType, 16);
      self.i32(SK::ObjId, root);
      let depth = self.p.depth;
      if args_mode == 4 {
        self.tags |= tag::ARGS_IN_ARRAY;
        let n = 1 + self.t.below(3);
        self.i32(SK::Len, n as i32);
        let mut slots = vec![match self.take_pool(true) {
          Some(e) => {
            self.write_ref(e.id);
            Slot::Val(e.mv)
          },
          None => self.fwd(RefSpec::AnyArray),
        }];
        for _ in 1..n {
          let s = self.write_member(&TD::Untyped, depth);
          slots.push(s);
        }
        let vals = self.resolve(slots, depth);
        match vals.into_iter().next() {
          Some(MV::Arr(a)) => args = Some(a),
          _ => unreachable!(),
        }
      } else {
        let n = self.len(depth);
        self.i32(SK::Len, n as i32);
        let vals = self.elements(&TD::Untyped, n, depth);
        if args_mode == 3 {
          self.tags |= tag::ARGS_IS_ARRAY;
          args = Some(vals);
        }
      }
    }
    self.write_pool(self.p.trailing, true, !call_array);
    let expected =
      if is_return { MM::Return { ret, ctx, args } } else { MM::Call { method, type_name, ctx, args } };
    self.finish(root, expected)
  }
}

/// Row-major split of the elements of an array.
pub fn shaped(lengths: &[usize], it: &mut impl Iterator<Item = MV>) -> Vec<MV> {
  if lengths.len() == 1 {
    it.take(lengths[0]).collect()
  } else {
    (0..lengths[0]).map(|_| MV::Arr(shaped(&lengths[1..], it))).collect()
  }
}

pub fn generate(t: &mut Tape, p: &Profile) -> Case {
  Gen::new(t, p).message()
}

/// Names which are nearly `name`, none twice.
pub fn near(name: &str) -> Vec<String> {
  let c: Vec<char> = name.chars().collect();
  let mut v: Vec<String> = vec![];
  let put = |v: &mut Vec<String>, f: &mut dyn FnMut(&mut Vec<char>)| {
    let mut d = c.clone();
    f(&mut d);
    v.push(d.into_iter().collect());
  };
  for i in 0..c.len() {
    put(&mut v, &mut |d| drop(d.remove(i)));
    put(&mut v, &mut |d| d.insert(i, c[i]));
    put(&mut v, &mut |d| {
      d[i] = match c[i] {
        '9' => '0',
        x if x.is_ascii_digit() => (x as u8 + 1) as char,
        x if x.is_ascii_lowercase() => x.to_ascii_uppercase(),
        x if x.is_ascii_uppercase() => x.to_ascii_lowercase(),
        '.' => '+',
        'é' => 'e',
        'ö' => 'o',
        _ => '.',
      }
    });
    put(&mut v, &mut |d| {
      if i + 1 < d.len() {
        d.swap(i, i + 1)
      }
    });
    if !c[i].is_alphanumeric() {
      put(&mut v, &mut |d| d.truncate(i));
      put(&mut v, &mut |d| drop(d.drain(..=i)));
      put(&mut v, &mut |d| d.insert(i, ' '));
      put(&mut v, &mut |d| d.insert(i + 1, ' '));
    }
  }
  for x in [
    " ", "  ", "\0", "a", "1", "0", "`1", "`2", "[]", "[,]", "[[A]]", "&", "*", ".", "_", "+A", "+", ", B", ", Version=1.0.0.0", ",",
    "\n", "\r\n", "\t", "\u{200b}", "\u{a0}", "\u{feff}", "\u{301}", "s", "Ex", "\\", "'", "\"", ">", "k__BackingField", "/", "-",
  ] {
    v.push(format!("{name}{x}"));
  }
  for x in [
    " ", "\0", "a", "System.", "A.", "A+", "_", "m_", "\u{feff}", "\n", "\u{200b}", "<", "@", "&", "[", "Base+", ".", "__", "\t", "global::",
  ] {
    v.push(format!("{x}{name}"));
  }
  v.push(name.to_uppercase());
  v.push(name.to_lowercase());
  v.push(name.trim().to_string());
  v.push(name.chars().rev().collect());
  v.push(name.chars().filter(|c| !c.is_whitespace()).collect());
  v.push(name.chars().filter(|c| c.is_alphanumeric()).collect());
  v.push(format!("{name}{name}"));
  v.push(format!("<{name}>k__BackingField"));
  v.push(String::new());
  let mut seen = std::collections::HashSet::new();
  seen.insert(name.to_string());
  v.retain(|s| seen.insert(s.clone()));
  v
}

/// Names as .NET writes them.
pub const REAL_NAMES: [&str; 9] = [
  "A",
  "Ns.Customer",
  "Lib",
  "DataTypes, Version=1.0.0.0, Culture=neutral, PublicKeyToken=null",
  "Ns.Outer+Inner",
  "Ns.Generic`1[[System.Int32, mscorlib]]",
  "<Name>k__BackingField",
  "_größe1",
  "System.Collections.Generic.List`1",
];

/// Every one of the names, with every name which is nearly the same.
pub fn near_pairs() -> Vec<(String, String)> {
  let mut names: Vec<String> = REAL_NAMES.iter().map(|s| s.to_string()).collect();
  names.extend(crate::dict::dict().new_texts.iter().take(12).cloned());
  names.iter().flat_map(|n| near(n).into_iter().map(|m| (n.clone(), m))).collect()
}
