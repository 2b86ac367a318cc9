//! Mutations of well-formed messages. Whether the result is still well-formed is decided by the reference decoder.

use crate::generate::{SK, Site};
use crate::model::*;
use crate::tape::Tape;

/// Groups of site kinds a property is about.
pub fn ids(k: SK) -> bool {
  matches!(k, SK::RootId | SK::ObjId | SK::ClassId | SK::Ref | SK::MetaId | SK::LibDef | SK::LibUse)
}
pub fn counts(k: SK) -> bool {
  matches!(
    k,
    SK::Null256 | SK::NullMulti | SK::Len | SK::Rank | SK::DimLen | SK::LowerBound | SK::MemberCount | SK::ArgCount
  )
}
pub fn types(k: SK) -> bool {
  matches!(k, SK::RecType | SK::MemberRecType | SK::BinType | SK::PrimType | SK::ArrType | SK::Code | SK::StrCode)
}
pub fn strings(k: SK) -> bool {
  matches!(
    k,
    SK::StrLen | SK::StrBytes | SK::ClassName | SK::TypeName | SK::MemberName | SK::LibName
  )
}
pub fn any(_: SK) -> bool {
  true
}

fn read_i32(b: &[u8], off: usize) -> i32 {
  i32::from_le_bytes(b[off..off + 4].try_into().unwrap())
}

fn is_int(s: &Site) -> bool {
  s.len == 4
    && matches!(
      s.kind,
      SK::RootId
        | SK::HeaderId
        | SK::Major
        | SK::Minor
        | SK::ObjId
        | SK::ClassId
        | SK::Ref
        | SK::MetaId
        | SK::LibDef
        | SK::LibUse
        | SK::NullMulti
        | SK::Len
        | SK::Rank
        | SK::DimLen
        | SK::LowerBound
        | SK::MemberCount
        | SK::Flags
        | SK::ArgCount
    )
}

fn new_i32(t: &mut Tape, bytes: &[u8], sites: &[Site], s: &Site) -> i32 {
  let old = read_i32(bytes, s.off);
  if let Some(n) = crate::dict::int(t) {
    return n as i32;
  }
  match t.below(14) {
    0 => 0,
    1 => -1,
    2 => i32::MIN,
    3 => i32::MAX,
    4 => old.wrapping_add(1),
    5 => old.wrapping_sub(1),
    6 | 7 | 8 => {
      // another number of the message, of the same kind or an ID
      let c: Vec<&Site> = sites.iter().filter(|x| is_int(x) && (ids(x.kind) == ids(s.kind))).collect();
      if c.is_empty() { 1 } else { read_i32(bytes, t.of(&c).off) }
    },
    9 => 1 + t.below(8) as i32,
    10 => old.wrapping_neg(),
    11 => old.swap_bytes(),
    12 => old ^ (1 << t.below(32)),
    _ => t.u32() as i32,
  }
}

fn new_byte(t: &mut Tape, old: u8, s: &Site) -> u8 {
  match t.below(6) {
    0 => old.wrapping_add(1),
    1 => old.wrapping_sub(1),
    2 => *t.of(&[0u8, 255, 128, 127]),
    3 => t.u8(),
    _ => {
      let n = match s.kind {
        SK::RecType | SK::MemberRecType => 24,
        SK::BinType => 9,
        SK::ArrType => 7,
        SK::PrimType | SK::Code | SK::StrCode => 20,
        SK::Null256 => s.info + 2,
        _ => 256,
      };
      t.below(n.clamp(2, 256)) as u8
    },
  }
}

fn varint(t: &mut Tape, len: usize, rest: usize) -> Vec<u8> {
  let mut o = vec![];
  match t.below(9) {
    0 => put_varint(&mut o, len + 1),
    1 => put_varint(&mut o, len.saturating_sub(1)),
    2 => put_varint(&mut o, 0),
    3 => put_varint_padded(&mut o, len, 2 + t.below(4)),
    4 => {
      // no end within five bytes
      put_varint_padded(&mut o, len, 5);
      o[4] |= 128;
      if t.chance(128) {
        o.push(0);
      }
    },
    5 => {
      // more than 31 bits
      put_varint_padded(&mut o, len, 5);
      o[4] |= *t.of(&[8u8, 16, 32, 64, 0x78]);
    },
    6 => put_varint(&mut o, 0x7fff_ffff),
    7 => put_varint(&mut o, rest),
    _ => put_varint(&mut o, t.below(rest + 3)),
  }
  o
}

pub const BAD_UTF8: [&[u8]; 12] = [
  b"\xff",
  b"\x80",
  b"\xc0\x80",
  b"\xc1\xbf",
  b"\xc3",
  b"\xe2\x82",
  b"\xe0\x80\x80",
  b"\xed\xa0\x80",
  b"\xf0\x9f\x98",
  b"\xf0\x80\x80\x80",
  b"\xf4\x90\x80\x80",
  b"\xf8\x88\x80\x80\x80",
];

fn any_string(t: &mut Tape) -> Vec<u8> {
  let mut o = vec![];
  let s = crate::generate::gen_string(t, 0);
  put_str(&mut o, s.as_bytes());
  o
}

/// A record or another fragment which may appear in a message.
pub fn fragment(t: &mut Tape) -> Vec<u8> {
  let mut o = vec![];
  let id = |t: &mut Tape| if t.chance(30) { t.u32() as i32 } else { t.below(12) as i32 };
  match t.below(20) {
    0 => o.push(10),
    1 => o.extend([13, t.u8().min(9)]),
    2 => {
      o.push(14);
      put_i32(&mut o, id(t));
    },
    3 => {
      o.push(9);
      put_i32(&mut o, id(t));
    },
    4 => {
      o.push(6);
      put_i32(&mut o, id(t));
      o.extend(any_string(t));
    },
    5 => {
      o.push(12);
      put_i32(&mut o, id(t));
      o.extend(any_string(t));
    },
    6 => o.push(11),
    7 => {
      o.push(16);
      put_i32(&mut o, id(t));
      put_i32(&mut o, t.below(4) as i32);
    },
    8 => {
      o.push(17);
      put_i32(&mut o, id(t));
      put_i32(&mut o, t.below(4) as i32);
    },
    9 => {
      o.push(15);
      put_i32(&mut o, id(t));
      let n = t.below(4);
      put_i32(&mut o, n as i32);
      let p = *t.of(&PRIMS);
      o.push(p as u8);
      for _ in 0..n {
        crate::generate::gen_prim(t, p).encode_prim(&mut o);
      }
    },
    10 | 11 => {
      let p = *t.of(&PRIMS);
      o.extend([8, p as u8]);
      crate::generate::gen_prim(t, p).encode_prim(&mut o);
    },
    12 => {
      o.push(1);
      put_i32(&mut o, id(t));
      put_i32(&mut o, id(t));
    },
    13 => {
      // class without member types
      o.push(2 + t.below(2) as u8);
      let lib = o[0] == 3;
      put_i32(&mut o, id(t));
      o.extend(any_string(t));
      let n = t.below(4);
      put_i32(&mut o, n as i32);
      for i in 0..n {
        put_str(&mut o, &[b'a' + i as u8]);
      }
      if lib {
        put_i32(&mut o, id(t));
      }
    },
    14 => {
      o.push(4 + t.below(2) as u8);
      let lib = o[0] == 5;
      put_i32(&mut o, id(t));
      o.extend(any_string(t));
      let n = t.below(4);
      put_i32(&mut o, n as i32);
      for i in 0..n {
        put_str(&mut o, &[b'a' + i as u8]);
      }
      let b: Vec<u8> = (0..n).map(|_| t.below(8) as u8).collect();
      o.extend(&b);
      for b in b {
        let i = id(t);
        additional(t, &mut o, b, i);
      }
      if lib {
        put_i32(&mut o, id(t));
      }
    },
    15 => {
      o.push(7);
      put_i32(&mut o, id(t));
      let at = t.below(6) as u8;
      o.push(at);
      let r = if at % 3 == 2 { 1 + t.below(3) } else { 1 };
      put_i32(&mut o, r as i32);
      for _ in 0..r {
        put_i32(&mut o, t.below(4) as i32);
      }
      if at >= 3 {
        for _ in 0..r {
          put_i32(&mut o, id(t));
        }
      }
      let b = t.below(8) as u8;
      o.push(b);
      let i = id(t);
      additional(t, &mut o, b, i);
    },
    16 => {
      o.push(21);
      put_i32(&mut o, *t.of(&[0x11, 0x12, 0x14, 0x18, 0x22]));
      for _ in 0..2 {
        o.push(18);
        o.extend(any_string(t));
      }
    },
    17 => {
      o.push(22);
      put_i32(&mut o, *t.of(&[0x211, 0x411, 0x811, 0x212, 0x2010, 0x414]));
    },
    18 => {
      let n = t.below(5);
      o.extend((0..n).map(|_| t.u8()));
    },
    _ => o.push(t.below(24) as u8),
  }
  o
}
fn additional(t: &mut Tape, o: &mut Vec<u8>, b: u8, id: i32) {
  match b {
    0 | 7 => o.push(*t.of(&PRIMS) as u8),
    3 => o.extend(any_string(t)),
    4 => {
      o.extend(any_string(t));
      put_i32(o, id);
    },
    _ => (),
  }
}

/// One mutation at a site of one of the wanted kinds; nothing if the message has none.
pub fn at_site(t: &mut Tape, bytes: &[u8], sites: &[Site], want: fn(SK) -> bool) -> Option<Vec<u8>> {
  let c: Vec<&Site> = sites.iter().filter(|s| want(s.kind)).collect();
  if c.is_empty() {
    return None;
  }
  let s = **t.of(&c);
  let mut repl: Vec<u8> = if is_int(&s) {
    new_i32(t, bytes, sites, &s).to_le_bytes().to_vec()
  } else {
    match s.kind {
      SK::StrLen => varint(t, s.info, bytes.len() - s.off - s.len),
      SK::StrBytes => {
        let old = &bytes[s.off..s.off + s.len];
        let mut o = old.to_vec();
        match t.below(4) {
          0 => {
            let bad = *t.of(&BAD_UTF8);
            let at = t.below(o.len());
            for (i, b) in bad.iter().enumerate() {
              if at + i < o.len() {
                o[at + i] = *b;
              }
            }
          },
          1 => {
            let at = t.below(o.len());
            o[at] ^= 1 << t.below(8);
          },
          2 => {
            let at = t.below(o.len());
            o[at] = t.u8();
          },
          _ => o.reverse(),
        }
        o
      },
      SK::ClassName | SK::TypeName | SK::MemberName | SK::LibName => {
        let c: Vec<&Site> =
          sites.iter().filter(|x| matches!(x.kind, SK::ClassName | SK::TypeName | SK::MemberName | SK::LibName)).collect();
        match t.below(4) {
          0 => any_string(t),
          1 => {
            // the same text, with a character more
            let mut o = vec![];
            let (text, _) = split_string(&bytes[s.off..s.off + s.len]);
            let mut text = text.to_vec();
            text.push(*t.of(b"`x 1"));
            put_str(&mut o, &text);
            o
          },
          _ => {
            let x = *t.of(&c);
            bytes[x.off..x.off + x.len].to_vec()
          },
        }
      },
      SK::PrimVal(p) => match t.below(4) {
        0 => {
          let mut o = vec![];
          crate::generate::gen_prim(t, p).encode_prim(&mut o);
          o
        },
        1 => {
          let mut o = vec![];
          let p = *t.of(&PRIMS);
          crate::generate::gen_prim(t, p).encode_prim(&mut o);
          o
        },
        2 => (0..s.len).map(|_| t.u8()).collect(),
        _ => {
          let mut o = bytes[s.off..s.off + s.len].to_vec();
          if t.chance(128) {
            o.push(t.u8());
          } else {
            o.pop();
          }
          o
        },
      },
      _ if s.len == 1 => vec![new_byte(t, bytes[s.off], &s)],
      _ => bytes[s.off..s.off + s.len].to_vec(),
    }
  };
  // an integer may also lose its last bytes
  if is_int(&s) && t.chance(6) {
    repl.pop();
  }
  let mut o = Vec::with_capacity(bytes.len() + 8);
  o.extend_from_slice(&bytes[..s.off]);
  o.extend_from_slice(&repl);
  o.extend_from_slice(&bytes[s.off + s.len..]);
  Some(o)
}

fn split_string(b: &[u8]) -> (&[u8], usize) {
  let mut n = 0usize;
  let mut i = 0;
  while i < 5 && i < b.len() {
    n |= ((b[i] & 127) as usize) << (7 * i);
    i += 1;
    if b[i - 1] & 128 == 0 {
      break;
    }
  }
  (&b[i..(i + n).min(b.len())], i)
}

/// A change of the structure: records inserted, removed, repeated, swapped, the message cut.
pub fn structural(t: &mut Tape, bytes: &[u8], sites: &[Site]) -> Vec<u8> {
  let pos = |t: &mut Tape| if sites.is_empty() || t.chance(40) { t.below(bytes.len() + 1) } else { t.of(sites).off };
  let rec = |t: &mut Tape| {
    let c: Vec<usize> = sites
      .iter()
      .filter(|s| matches!(s.kind, SK::RecType | SK::MemberRecType | SK::End))
      .map(|s| s.off)
      .collect();
    if c.is_empty() { 0 } else { *t.of(&c) }
  };
  match t.below(8) {
    0 => {
      let p = pos(t);
      [&bytes[..p], &fragment(t), &bytes[p..]].concat()
    },
    1 | 2 => {
      let p = rec(t);
      [&bytes[..p], &fragment(t), &bytes[p..]].concat()
    },
    3 => {
      let (a, b) = (rec(t), rec(t));
      [&bytes[..a.min(b)], &bytes[a.max(b)..]].concat()
    },
    4 => {
      let (a, b) = (rec(t), rec(t));
      let (a, b) = (a.min(b), a.max(b));
      [&bytes[..b], &bytes[a..b], &bytes[b..]].concat()
    },
    5 => {
      // move a range of records
      let mut p = [rec(t), rec(t), rec(t)];
      p.sort();
      [&bytes[..p[0]], &bytes[p[1]..p[2]], &bytes[p[0]..p[1]], &bytes[p[2]..]].concat()
    },
    6 => {
      let p = t.below(bytes.len() + 1);
      bytes[..p].to_vec()
    },
    _ => {
      let (a, b) = (pos(t).min(bytes.len()), t.below(6));
      [&bytes[..a], &bytes[(a + b).min(bytes.len())..]].concat()
    },
  }
}

/// One or a few changes of any kind.
pub fn mutate(t: &mut Tape, bytes: &[u8], sites: &[Site], want: fn(SK) -> bool, structure: u8) -> Option<Vec<u8>> {
  if t.chance(structure) {
    let m = structural(t, bytes, sites);
    return (m != bytes).then_some(m);
  }
  let m = at_site(t, bytes, sites, want)?;
  (m != bytes).then_some(m)
}

/// Like [`mutate`], repeatedly at the same sites of messages which keep their length.
pub fn mutate_many(t: &mut Tape, bytes: &[u8], sites: &[Site], n: usize) -> Vec<u8> {
  let mut cur = bytes.to_vec();
  for _ in 0..n {
    match t.below(5) {
      0 | 1 if cur.len() == bytes.len() => {
        if let Some(m) = at_site(t, &cur, sites, any) {
          cur = m;
        }
      },
      2 if cur.len() == bytes.len() => cur = structural(t, &cur, sites),
      3 if !cur.is_empty() => {
        let p = t.below(cur.len());
        cur[p] = if t.chance(128) { t.below(24) as u8 } else { t.u8() };
      },
      _ => {
        let p = t.below(cur.len() + 1);
        let f = fragment(t);
        cur.splice(p..p, f);
      },
    }
  }
  cur
}

/// A message made of fragments, mostly ill-formed.
pub fn soup(t: &mut Tape) -> Vec<u8> {
  let mut o = if t.chance(20) { vec![] } else { header(t.below(6) as i32) };
  let n = t.below(14);
  for _ in 0..n {
    let f = fragment(t);
    o.extend(f);
  }
  if !t.chance(60) {
    o.push(11);
  }
  o
}
