//! The expected result of parsing a message, independent of the types of the crate under test.

use nrbf::{RemotingMessage, Value, value::DateTimeKind};

#[derive(Debug, Clone, PartialEq)]
pub struct MObj {
  pub class: String,
  pub lib: Option<String>,
  pub members: Vec<(String, MV)>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum MV {
  Obj(MObj),
  Arr(Vec<MV>),
  Bool(bool),
  Byte(u8),
  Char(char),
  Dec(String),
  Double(u64),
  I16(i16),
  I32(i32),
  I64(i64),
  SByte(i8),
  Single(u32),
  TimeSpan(i64),
  DateTime(i64),
  U16(u16),
  U32(u32),
  U64(u64),
  Str(String),
  Null,
  /// Only within the reference decoder: the object of this ID.
  Ref(i32),
}

#[derive(Debug, Clone, PartialEq)]
pub enum MM {
  Value(MV),
  Call { method: String, type_name: String, ctx: Option<String>, args: Option<Vec<MV>> },
  Return { ret: Option<MV>, ctx: Option<String>, args: Option<Vec<MV>> },
}

/// The primitive types with the code they have on the wire.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum P {
  Bool = 1,
  Byte = 2,
  Char = 3,
  Dec = 5,
  Double = 6,
  I16 = 7,
  I32 = 8,
  I64 = 9,
  SByte = 10,
  Single = 11,
  TimeSpan = 12,
  DateTime = 13,
  U16 = 14,
  U32 = 15,
  U64 = 16,
}
pub const PRIMS: [P; 15] = [
  P::I32, P::Byte, P::Bool, P::Char, P::Dec, P::Double, P::I16, P::I64, P::SByte, P::Single, P::TimeSpan, P::DateTime,
  P::U16, P::U32, P::U64,
];

impl MV {
  pub fn encode_prim(&self, out: &mut Vec<u8>) {
    match self {
      MV::Bool(v) => out.push(*v as u8),
      MV::Byte(v) => out.push(*v),
      MV::Char(c) => out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
      MV::Dec(s) | MV::Str(s) => put_str(out, s.as_bytes()),
      MV::Double(b) => out.extend_from_slice(&b.to_le_bytes()),
      MV::I16(v) => out.extend_from_slice(&v.to_le_bytes()),
      MV::I32(v) => out.extend_from_slice(&v.to_le_bytes()),
      MV::I64(v) | MV::TimeSpan(v) | MV::DateTime(v) => out.extend_from_slice(&v.to_le_bytes()),
      MV::SByte(v) => out.push(*v as u8),
      MV::Single(b) => out.extend_from_slice(&b.to_le_bytes()),
      MV::U16(v) => out.extend_from_slice(&v.to_le_bytes()),
      MV::U32(v) => out.extend_from_slice(&v.to_le_bytes()),
      MV::U64(v) => out.extend_from_slice(&v.to_le_bytes()),
      _ => panic!("not a primitive"),
    }
  }
}

pub fn put_varint(out: &mut Vec<u8>, mut n: usize) {
  loop {
    let b = (n & 127) as u8;
    n >>= 7;
    if n == 0 {
      out.push(b);
      return;
    }
    out.push(b | 128);
  }
}
/// A length in exactly `bytes` bytes (1 to 5), padded with continuation bytes.
pub fn put_varint_padded(out: &mut Vec<u8>, n: usize, bytes: usize) {
  for i in 0..bytes {
    let b = ((n >> (7 * i)) & 127) as u8;
    out.push(if i + 1 < bytes { b | 128 } else { b });
  }
}
pub fn put_str(out: &mut Vec<u8>, s: &[u8]) {
  put_varint(out, s.len());
  out.extend_from_slice(s);
}
pub fn put_i32(out: &mut Vec<u8>, v: i32) {
  out.extend_from_slice(&v.to_le_bytes());
}

pub fn header(root: i32) -> Vec<u8> {
  let mut o = vec![0];
  put_i32(&mut o, root);
  put_i32(&mut o, -1);
  put_i32(&mut o, 1);
  put_i32(&mut o, 0);
  o
}

/// A message which is an array of one primitive type.
pub fn prim_array_message(p: P, items: &[MV]) -> Vec<u8> {
  let mut o = header(1);
  o.push(15);
  put_i32(&mut o, 1);
  put_i32(&mut o, items.len() as i32);
  o.push(p as u8);
  for i in items {
    i.encode_prim(&mut o);
  }
  o.push(11);
  o
}

fn short(s: &str) -> String {
  if s.len() > 80 {
    let cut: String = s.chars().take(40).collect();
    format!("{cut:?}… ({} bytes)", s.len())
  } else {
    format!("{s:?}")
  }
}

/// Whether the text is as .NET writes a decimal, and no negative zero.
fn plain_decimal(text: &str) -> bool {
  let abs = text.strip_prefix('-').unwrap_or(text);
  let (i, f) = abs.split_once('.').unwrap_or((abs, "0"));
  let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
  digits(i) && digits(f) && (i == "0" || !i.starts_with('0')) && abs.len() <= 29 && abs.bytes().any(|b| (b'1'..=b'9').contains(&b))
}

/// The only way to see the value of a decimal apart from its debug format is deserializing it.
#[cfg(feature = "serde")]
fn decimal_text(v: &Value<'_>) -> Option<String> {
  serde::Deserialize::deserialize(RemotingMessage::Value(v.clone())).ok()
}
#[cfg(not(feature = "serde"))]
fn decimal_text(_: &Value<'_>) -> Option<String> {
  None
}

fn dec_debug(text: &str) -> Option<String> {
  let msg = prim_array_message(P::Dec, &[MV::Dec(text.to_string())]);
  match RemotingMessage::parse(&msg) {
    Ok(RemotingMessage::Value(Value::Array(a))) if a.len() == 1 => Some(format!("{:?}", a[0])),
    _ => None,
  }
}

pub fn kind_no(k: Option<DateTimeKind>) -> u8 {
  match k {
    None => 0,
    Some(DateTimeKind::Utc) => 1,
    Some(DateTimeKind::Local) => 2,
  }
}

pub fn cmp_value(got: &Value<'_>, want: &MV, path: &str) -> Result<(), String> {
  let bad = |g: String| {
    let mut w = format!("{want:?}");
    if w.len() > 300 {
      w = format!("{}…", w.chars().take(300).collect::<String>());
    }
    let g = if g.len() > 300 { format!("{}…", g.chars().take(300).collect::<String>()) } else { g };
    Err(format!("at {path}: expected {w}, got {g}"))
  };
  let ok = match (got, want) {
    (Value::Object(o), MV::Obj(m)) => {
      if o.class != m.class {
        return Err(format!("at {path}: expected class {}, got {}", short(&m.class), short(o.class)));
      }
      if o.library != m.lib.as_deref() {
        return Err(format!("at {path}: expected library {:?}, got {:?}", m.lib, o.library));
      }
      if o.members.len() != m.members.len() {
        return Err(format!(
          "at {path}: expected {} members {:?}, got {} {:?}",
          m.members.len(),
          m.members.iter().map(|x| &x.0).collect::<Vec<_>>(),
          o.members.len(),
          o.members.keys().collect::<Vec<_>>()
        ));
      }
      for (n, v) in &m.members {
        match o.members.get(n.as_str()) {
          Some(g) => cmp_value(g, v, &format!("{path}.{n}"))?,
          None => return Err(format!("at {path}: member {} is missing", short(n))),
        }
      }
      true
    },
    (Value::Array(a), MV::Arr(m)) => {
      if a.len() != m.len() {
        return Err(format!("at {path}: expected {} items, got {}", m.len(), a.len()));
      }
      for (i, (g, w)) in a.iter().zip(m).enumerate() {
        cmp_value(g, w, &format!("{path}[{i}]"))?;
      }
      true
    },
    (Value::Boolean(a), MV::Bool(b)) => a == b,
    (Value::Byte(a), MV::Byte(b)) => a == b,
    (Value::Char(a), MV::Char(b)) => a == b,
    (Value::Decimal(_), MV::Dec(t)) if plain_decimal(t) && decimal_text(got).is_some_and(|g| g != *t) => false,
    (Value::Decimal(_), MV::Dec(t)) => match dec_debug(t) {
      Some(d) => d == format!("{got:?}"),
      None => return Err(format!("at {path}: decimal {t} is not parsed on its own")),
    },
    (Value::Double(a), MV::Double(b)) => a.to_bits() == *b,
    (Value::Int16(a), MV::I16(b)) => a == b,
    (Value::Int32(a), MV::I32(b)) => a == b,
    (Value::Int64(a), MV::I64(b)) => a == b,
    (Value::SByte(a), MV::SByte(b)) => a == b,
    (Value::Single(a), MV::Single(b)) => a.to_bits() == *b,
    (Value::TimeSpan(a), MV::TimeSpan(b)) => a.value() == *b,
    (Value::DateTime(a), MV::DateTime(b)) => {
      let k = ((*b as u64) >> 62) as u8;
      a.ticks() == (*b & 0x3FFF_FFFF_FFFF_FFFF) && (k == 3 || kind_no(a.kind()) == k)
    },
    (Value::UInt16(a), MV::U16(b)) => a == b,
    (Value::UInt32(a), MV::U32(b)) => a == b,
    (Value::UInt64(a), MV::U64(b)) => a == b,
    (Value::String(a), MV::Str(b)) => a == b,
    (Value::Null, MV::Null) => true,
    _ => false,
  };
  if ok { Ok(()) } else { bad(format!("{got:?}")) }
}

fn cmp_args(got: &Option<Vec<Value<'_>>>, want: &Option<Vec<MV>>) -> Result<(), String> {
  match (got, want) {
    (None, None) => Ok(()),
    (Some(g), Some(w)) => {
      if g.len() != w.len() {
        return Err(format!("at args: expected {} arguments, got {}", w.len(), g.len()));
      }
      for (i, (g, w)) in g.iter().zip(w).enumerate() {
        cmp_value(g, w, &format!("args[{i}]"))?;
      }
      Ok(())
    },
    _ => Err(format!("at args: expected {want:?}, got {got:?}")),
  }
}

pub fn cmp_message(got: &RemotingMessage<'_>, want: &MM) -> Result<(), String> {
  match (got, want) {
    (RemotingMessage::Value(g), MM::Value(w)) => cmp_value(g, w, "root"),
    (RemotingMessage::MethodCall(g), MM::Call { method, type_name, ctx, args }) => {
      if g.method_name != method || g.type_name != type_name {
        return Err(format!("expected call of {method:?} on {type_name:?}, got {:?} on {:?}", g.method_name, g.type_name));
      }
      if g.call_context != ctx.as_deref() {
        return Err(format!("expected call context {ctx:?}, got {:?}", g.call_context));
      }
      cmp_args(&g.args, args)
    },
    (RemotingMessage::MethodReturn(g), MM::Return { ret, ctx, args }) => {
      match (&g.return_value, ret) {
        (None, None) => (),
        (Some(g), Some(w)) => cmp_value(g, w, "return value")?,
        (g, w) => return Err(format!("expected return value {w:?}, got {g:?}")),
      }
      if g.call_context != ctx.as_deref() {
        return Err(format!("expected call context {ctx:?}, got {:?}", g.call_context));
      }
      cmp_args(&g.args, args)
    },
    _ => {
      let g = match got {
        RemotingMessage::Value(_) => "a value",
        RemotingMessage::MethodCall(_) => "a method call",
        RemotingMessage::MethodReturn(_) => "a method return",
      };
      Err(format!("got {g}, expected {want:?}"))
    },
  }
}

/// Parse and compare with the expected message.
pub fn expect_ok(bytes: &[u8], want: &MM) -> Result<(), String> {
  match RemotingMessage::parse(bytes) {
    Ok(m) => cmp_message(&m, want),
    Err(e) => Err(format!("a well-formed message was rejected: {e}")),
  }
}

pub fn expect_err(bytes: &[u8], why: &str) -> Result<(), String> {
  match RemotingMessage::parse(bytes) {
    Ok(m) => {
      let mut d = format!("{m:?}");
      if d.len() > 300 {
        d = d.chars().take(300).collect();
      }
      Err(format!("a malformed message ({why}) was accepted as {d}"))
    },
    Err(_) => Ok(()),
  }
}

pub fn hex(b: &[u8]) -> String {
  let mut s = String::with_capacity(b.len() * 2);
  for x in b {
    s.push_str(&format!("{x:02x}"));
  }
  s
}
pub fn unhex(s: &str) -> Vec<u8> {
  (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn prim_of(v: &MV) -> Option<P> {
  Some(match v {
    MV::Bool(_) => P::Bool,
    MV::Byte(_) => P::Byte,
    MV::Char(_) => P::Char,
    MV::Dec(_) => P::Dec,
    MV::Double(_) => P::Double,
    MV::I16(_) => P::I16,
    MV::I32(_) => P::I32,
    MV::I64(_) => P::I64,
    MV::SByte(_) => P::SByte,
    MV::Single(_) => P::Single,
    MV::TimeSpan(_) => P::TimeSpan,
    MV::DateTime(_) => P::DateTime,
    MV::U16(_) => P::U16,
    MV::U32(_) => P::U32,
    MV::U64(_) => P::U64,
    _ => return None,
  })
}

pub fn fnv(b: &[u8]) -> u64 {
  let mut h = 0xcbf29ce484222325u64;
  for x in b {
    h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
  }
  h ^ (h >> 29)
}
