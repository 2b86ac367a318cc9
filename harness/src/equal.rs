//! C29: when messages are equal.

use crate::generate::{Profile, gen_prim, gen_string, generate};
use crate::model::*;
use crate::props::{canonical, nbuild::*, some_message};
use crate::run::{Check, Cx, phase};
use crate::tape::Tape;
use nrbf::{MethodCall, MethodReturn, RemotingMessage, Value};

type Res = Result<(), String>;
const K: u64 = 1000;

/// Whether two values are the same, by what can be seen of them. `None` where nothing is claimed.
type Same = Option<bool>;

fn all(parts: impl IntoIterator<Item = Same>) -> Same {
  let mut known = Some(true);
  for p in parts {
    match p {
      Some(false) => return Some(false),
      None => known = None,
      Some(true) => (),
    }
  }
  known
}

/// The digits of a decimal without zeros at the end of its fraction.
fn digits(debug: &str) -> String {
  let n: String = debug.chars().filter(|c| c.is_ascii_digit() || matches!(c, '.' | '-')).collect();
  let n = if n.contains('.') { n.trim_end_matches('0').trim_end_matches('.').to_string() } else { n };
  if n.trim_matches('-') == "0" { "0".into() } else { n }
}

fn same(a: &Value<'_>, b: &Value<'_>) -> Same {
  use Value::*;
  Some(match (a, b) {
    (Object(a), Object(b)) => {
      if a.class != b.class || a.library != b.library || a.members.len() != b.members.len() {
        return Some(false);
      }
      return all(a.members.iter().map(|(k, v)| b.members.get(k).map_or(Some(false), |w| same(v, w))));
    },
    (Array(a), Array(b)) => return items(a, b),
    (Boolean(a), Boolean(b)) => a == b,
    (Byte(a), Byte(b)) => a == b,
    (Char(a), Char(b)) => a == b,
    (Decimal(a), Decimal(b)) => {
      let (a, b) = (format!("{a:?}"), format!("{b:?}"));
      if a != b && digits(&a) == digits(&b) {
        return None;
      }
      a == b
    },
    (Double(a), Double(b)) => a == b,
    (Single(a), Single(b)) => a == b,
    (Int16(a), Int16(b)) => a == b,
    (Int32(a), Int32(b)) => a == b,
    (Int64(a), Int64(b)) => a == b,
    (SByte(a), SByte(b)) => a == b,
    (UInt16(a), UInt16(b)) => a == b,
    (UInt32(a), UInt32(b)) => a == b,
    (UInt64(a), UInt64(b)) => a == b,
    (TimeSpan(a), TimeSpan(b)) => a.value() == b.value(),
    (DateTime(a), DateTime(b)) => {
      let see = |d: &nrbf::value::DateTime| (d.ticks(), kind_no(d.kind()));
      // both kind bits mean a kind which cannot be seen
      if see(a) == see(b) && format!("{a:?}") != format!("{b:?}") {
        return None;
      }
      see(a) == see(b)
    },
    (String(a), String(b)) => a == b,
    (Null, Null) => true,
    _ => false,
  })
}

fn items(a: &[Value<'_>], b: &[Value<'_>]) -> Same {
  if a.len() != b.len() {
    return Some(false);
  }
  all(a.iter().zip(b).map(|(a, b)| same(a, b)))
}

fn maybe<T>(a: Option<T>, b: Option<T>, same: impl Fn(T, T) -> Same) -> Same {
  match (a, b) {
    (None, None) => Some(true),
    (Some(a), Some(b)) => same(a, b),
    _ => Some(false),
  }
}

fn same_message(a: &RemotingMessage<'_>, b: &RemotingMessage<'_>) -> Same {
  use RemotingMessage as M;
  match (a, b) {
    (M::Value(a), M::Value(b)) => same(a, b),
    (M::MethodCall(a), M::MethodCall(b)) => all([
      Some(a.method_name == b.method_name && a.type_name == b.type_name && a.call_context == b.call_context),
      maybe(a.args.as_ref(), b.args.as_ref(), |a, b| items(a, b)),
    ]),
    (M::MethodReturn(a), M::MethodReturn(b)) => all([
      Some(a.call_context == b.call_context),
      maybe(a.return_value.as_ref(), b.return_value.as_ref(), same),
      maybe(a.args.as_ref(), b.args.as_ref(), |a, b| items(a, b)),
    ]),
    _ => Some(false),
  }
}

/// `==` and `!=` of two messages, both ways round, against what can be seen of them.
fn judge(cx: &mut Cx, a: &RemotingMessage<'_>, b: &RemotingMessage<'_>) -> Res {
  cx.evals += 1;
  let Some(want) = same_message(a, b) else {
    cx.label("not claimed (scale of decimals, kind of date-times)");
    return Ok(());
  };
  cx.label(if want { "equal" } else { "different" });
  let short = |m: &RemotingMessage<'_>| format!("{m:?}").chars().take(300).collect::<String>();
  for (x, y) in [(a, b), (b, a)] {
    #[allow(clippy::nonminimal_bool)]
    if (x == y) != want || (x != y) == want {
      let but = if want { "are the same, but do not compare equal" } else { "differ, but compare equal" };
      return Err(format!("{} and {} {but}", short(x), short(y)));
    }
  }
  Ok(())
}

/// Every value below, in the order of an object's names, as positions to change.
fn places(v: &Value<'_>) -> usize {
  1 + match v {
    Value::Array(a) => a.iter().map(places).sum(),
    Value::Object(o) => o.members.values().map(places).sum(),
    _ => 0,
  }
}

fn at<'v, 'i>(v: &'v mut Value<'i>, mut n: usize) -> &'v mut Value<'i> {
  if n == 0 {
    return v;
  }
  n -= 1;
  let mut kids: Vec<&mut Value<'i>> = match v {
    Value::Array(a) => a.iter_mut().collect(),
    Value::Object(o) => {
      let mut m: Vec<_> = o.members.iter_mut().collect();
      m.sort_by_key(|m| *m.0);
      m.into_iter().map(|m| m.1).collect()
    },
    _ => unreachable!(),
  };
  let i = kids
    .iter()
    .position(|k| {
      let m = places(k);
      if n < m {
        return true;
      }
      n -= m;
      false
    })
    .expect("a place");
  at(kids.swap_remove(i), n)
}

fn other_text<'i>(t: &mut Tape, old: &str, pool: &'i [String]) -> &'i str {
  // texts which are nearly the same are the first of the pool
  let near = [0, 1, 2, 3].map(|i| pool[i].as_str()).into_iter().find(|p| {
    p.len() == old.len() || p.eq_ignore_ascii_case(old) || p.trim() == old.trim()
  });
  match near {
    Some(n) if t.chance(60) => n,
    _ => t.of(pool),
  }
}

/// Another number of the same type, near to it or far from it.
fn other_prim<'i>(t: &mut Tape, v: &Value<'i>, parsed: &'i [Vec<u8>]) -> Value<'i> {
  let d = *t.of(&[1i64, -1, 2, 256, 65536, 1 << 31, 1 << 32, i64::MIN, 128, 10]);
  match v {
    Value::Boolean(b) => Value::Boolean(!b),
    Value::Byte(n) => Value::Byte(n.wrapping_add((d as u8).max(1))),
    Value::SByte(n) => Value::SByte(n.wrapping_add((d as i8).max(1))),
    Value::Int16(n) => Value::Int16(n.wrapping_add((d as i16).max(1))),
    Value::UInt16(n) => Value::UInt16(n.wrapping_add((d as u16).max(1))),
    Value::Int32(n) => Value::Int32(n.wrapping_add((d as i32).max(1))),
    Value::UInt32(n) => Value::UInt32(n.wrapping_add((d as u32).max(1))),
    Value::Int64(n) => Value::Int64(n.wrapping_add(d)),
    Value::UInt64(n) => Value::UInt64(n.wrapping_add(d as u64)),
    Value::Char(c) => Value::Char(char::from_u32(*c as u32 + 1).unwrap_or('x')),
    Value::Double(f) => Value::Double(match t.below(6) {
      0 => -f,
      1 => f64::from_bits(f.to_bits() ^ 1),
      2 => *f as f32 as f64,
      3 => f.trunc(),
      4 => f64::NAN,
      _ => 0.0,
    }),
    Value::Single(f) => Value::Single(match t.below(5) {
      0 => -f,
      1 => f32::from_bits(f.to_bits() ^ 1),
      2 => f.trunc(),
      3 => f32::NAN,
      _ => 0.0,
    }),
    // these can only be made by parsing
    Value::TimeSpan(_) | Value::DateTime(_) | Value::Decimal(_) => {
      let want = std::mem::discriminant(v);
      parsed
        .iter()
        .find_map(|b| match RemotingMessage::parse(b) {
          Ok(RemotingMessage::Value(Value::Array(a))) => {
            let mut fit: Vec<_> = a.into_iter().filter(|x| std::mem::discriminant(x) == want).collect();
            (!fit.is_empty()).then(|| fit.swap_remove(t.below(fit.len())))
          },
          _ => None,
        })
        .unwrap_or(Value::Null)
    },
    _ => Value::Null,
  }
}

/// The same number as another type.
fn retyped<'i>(v: &Value<'i>, t: &mut Tape) -> Value<'i> {
  let n = match v {
    Value::Boolean(b) => *b as i64,
    Value::Byte(n) => *n as i64,
    Value::SByte(n) => *n as i64,
    Value::Int16(n) => *n as i64,
    Value::UInt16(n) => *n as i64,
    Value::Int32(n) => *n as i64,
    Value::UInt32(n) => *n as i64,
    Value::Int64(n) => *n,
    Value::UInt64(n) => *n as i64,
    Value::Char(c) => *c as i64,
    Value::Single(f) => return Value::Double(*f as f64),
    Value::Double(f) => return Value::Single(*f as f32),
    Value::TimeSpan(s) => s.value(),
    Value::DateTime(d) => d.ticks(),
    Value::Array(a) if a.is_empty() => return Value::Null,
    Value::Array(a) if a.len() == 1 => return a[0].clone(),
    Value::Null => return if t.chance(128) { Value::Array(vec![]) } else { Value::String("") },
    _ => return Value::Null,
  };
  match t.below(9) {
    0 => Value::Int32(n as i32),
    1 => Value::Int64(n),
    2 => Value::UInt32(n as u32),
    3 => Value::UInt64(n as u64),
    4 => Value::Byte(n as u8),
    5 => Value::Int16(n as i16),
    6 => Value::UInt16(n as u16),
    7 => Value::SByte(n as i8),
    _ => Value::Double(n as f64),
  }
}

fn change_value<'i>(t: &mut Tape, v: &mut Value<'i>, pool: &'i [String], parsed: &'i [Vec<u8>]) {
  let n = places(v);
  // mostly somewhere inside
  let n = if t.chance(200) { t.below(n) } else { n - 1 };
  let p = at(v, n);
  match p {
    Value::Object(o) => match t.below(9) {
      0 => o.class = other_text(t, o.class, pool),
      1 => {
        o.library = match o.library {
          Some(_) if t.chance(128) => None,
          Some(l) => Some(other_text(t, l, pool)),
          None => Some(t.of(pool)),
        }
      },
      2 => {
        o.members.insert(t.of(pool), Value::Null);
      },
      3..=6 if !o.members.is_empty() => {
        let mut names: Vec<&'i str> = o.members.keys().copied().collect();
        names.sort();
        let name = *t.of(&names);
        match t.below(4) {
          0 => {
            o.members.remove(name);
          },
          1 => {
            // another name for the member
            let v = o.members.remove(name).expect("member");
            o.members.insert(other_text(t, name, pool), v);
          },
          2 => {
            // the values of two members change places
            let b = *t.of(&names);
            let (x, y) = (o.members[name].clone(), o.members[b].clone());
            o.members.insert(name, y);
            o.members.insert(b, x);
          },
          _ => {
            o.members.insert(name, Value::Null);
          },
        }
      },
      _ => *p = Value::Null,
    },
    Value::Array(a) => match t.below(7) {
      0 => a.push(Value::Null),
      1 if !a.is_empty() => {
        a.remove(t.below(a.len()));
      },
      2 if !a.is_empty() => {
        a.pop();
      },
      3 if a.len() > 1 => a.reverse(),
      4 if a.len() > 1 => a.rotate_left(1),
      5 => *p = retyped(p, t),
      _ if !a.is_empty() => {
        let x = t.below(a.len());
        let y = a[t.below(a.len())].clone();
        a[x] = y;
      },
      _ => a.insert(0, Value::Array(vec![])),
    },
    Value::String(s) => {
      *p = match t.below(4) {
        0 => Value::Null,
        1 if !s.is_empty() => {
          let cut = s.char_indices().last().expect("character").0;
          Value::String(&s[..cut])
        },
        2 if s.chars().count() == 1 => Value::Char(s.chars().next().expect("character")),
        _ => Value::String(other_text(t, s, pool)),
      }
    },
    _ => *p = if t.chance(60) { retyped(p, t) } else { other_prim(t, p, parsed) },
  }
}

fn change_args<'i>(t: &mut Tape, a: &mut Option<Vec<Value<'i>>>, pool: &'i [String], parsed: &'i [Vec<u8>]) {
  match a {
    None => *a = Some(if t.chance(128) { vec![] } else { vec![Value::Null] }),
    Some(v) if v.is_empty() || t.chance(30) => *a = None,
    Some(v) => {
      let mut w = Value::Array(std::mem::take(v));
      let n = 1 + t.below(places(&w) - 1);
      if t.chance(40) {
        if let Value::Array(w) = &mut w {
          w.pop();
        }
      } else {
        change_value(t, at(&mut w, n), pool, parsed);
      }
      if let Value::Array(w) = w {
        *v = w;
      }
    },
  }
}

fn change<'i>(t: &mut Tape, m: &mut RemotingMessage<'i>, pool: &'i [String], parsed: &'i [Vec<u8>]) {
  match m {
    RemotingMessage::Value(v) => {
      if t.chance(6) {
        let v = v.clone();
        *m = RemotingMessage::MethodReturn(MethodReturn { return_value: Some(v), call_context: None, args: None });
      } else {
        change_value(t, v, pool, parsed);
      }
    },
    RemotingMessage::MethodCall(c) => match t.below(8) {
      0 => c.method_name = other_text(t, c.method_name, pool),
      1 => c.type_name = other_text(t, c.type_name, pool),
      2 => std::mem::swap(&mut c.method_name, &mut c.type_name),
      3 => c.call_context = context(t, c.call_context, pool),
      4 => {
        let (call_context, args) = (c.call_context, c.args.take());
        *m = RemotingMessage::MethodReturn(MethodReturn { return_value: None, call_context, args });
      },
      _ => change_args(t, &mut c.args, pool, parsed),
    },
    RemotingMessage::MethodReturn(r) => match t.below(8) {
      0 => r.call_context = context(t, r.call_context, pool),
      1 => {
        r.return_value = match r.return_value {
          None => Some(Value::Null),
          Some(_) => None,
        }
      },
      2 | 3 => {
        if let Some(v) = &mut r.return_value {
          change_value(t, v, pool, parsed);
        }
      },
      4 => {
        // the return value as an argument
        if let Some(v) = r.return_value.take() {
          r.args.get_or_insert_default().push(v);
        }
      },
      5 => {
        let (call_context, args) = (r.call_context, r.args.take());
        *m = RemotingMessage::MethodCall(MethodCall { method_name: "", type_name: "", call_context, args });
      },
      _ => change_args(t, &mut r.args, pool, parsed),
    },
  }
}

fn context<'i>(t: &mut Tape, old: Option<&'i str>, pool: &'i [String]) -> Option<&'i str> {
  match old {
    Some(_) if t.chance(128) => None,
    Some(o) => Some(other_text(t, o, pool)),
    None => Some(if t.chance(128) { "" } else { t.of(pool).as_str() }),
  }
}

/// A copy with a single change somewhere.
fn one_change(cx: &mut Cx, p: &Profile) -> Res {
  let c = generate(&mut cx.t, p);
  cx.msg(&c.bytes);
  let Ok(m) = RemotingMessage::parse(&c.bytes) else { return Ok(()) };
  cx.nontrivial = true;
  let before = canonical(&c.bytes);
  let copy = m.clone();
  judge(cx, &m, &copy)?;
  let t = &mut cx.t;
  // texts which are nearly those of the message, and others
  let some = gen_string(t, 0);
  let mut pool: Vec<String> = match c.expected {
    MM::Call { ref method, .. } if t.chance(128) => vec![method.clone()],
    MM::Value(MV::Obj(ref o)) if t.chance(128) => vec![o.class.clone(), o.lib.clone().unwrap_or_default()],
    _ => vec![some.clone()],
  };
  let of = t.of(&pool).clone();
  pool.insert(0, of.to_uppercase());
  pool.insert(1, of.to_lowercase());
  pool.insert(2, format!("{of} "));
  pool.insert(3, of.chars().rev().collect());
  pool.extend([some, String::new(), format!("{of}.{of}"), "\0".into()]);
  let kinds = [P::TimeSpan, P::DateTime, P::Dec];
  let parsed: Vec<Vec<u8>> = kinds
    .iter()
    .map(|p| {
      let mut all: Vec<MV> = (0..3).map(|_| gen_prim(t, *p)).collect();
      // of another kind, with another number of digits
      match &all[0] {
        MV::DateTime(d) => all.push(MV::DateTime(d ^ (1 << 62))),
        MV::Dec(d) => all.push(MV::Dec(if d.contains('.') && d.len() < 25 { format!("{d}0") } else { "1.0".into() })),
        _ => (),
      }
      prim_array_message(*p, &all)
    })
    .collect();
  let mut changed = copy.clone();
  for _ in 0..1 + (cx.t.below(8) == 7) as usize {
    change(&mut cx.t, &mut changed, &pool, &parsed);
  }
  judge(cx, &m, &changed)?;
  judge(cx, &changed.clone(), &changed)?;
  judge(cx, &m, &copy)?;
  drop(changed);
  drop(copy);
  // and all of this changed nothing
  if canonical(&c.bytes) != before {
    return Err("a message is different after a copy of it was changed".into());
  }
  cmp_message(&m, &c.expected).map_err(|e| format!("after a copy was changed: {e}"))
}

/// The same value written twice, in any order of definitions, and one which differs.
fn written_twice(cx: &mut Cx, p: &Profile) -> Res {
  let c = generate(&mut cx.t, p);
  let MM::Value(v) = &c.expected else { return Ok(()) };
  let mut v = v.clone();
  let a = crate::encode::encode(&mut cx.t, &v);
  // members in another order
  if let MV::Obj(o) = &mut v {
    o.members.reverse();
  }
  let b = crate::encode::encode(&mut cx.t, &v);
  cx.msg(&a);
  cx.msg(&b);
  let (Ok(x), Ok(y), Ok(z)) = (RemotingMessage::parse(&c.bytes), RemotingMessage::parse(&a), RemotingMessage::parse(&b)) else {
    return Ok(());
  };
  cx.nontrivial = matches!(v, MV::Obj(_) | MV::Arr(_));
  judge(cx, &x, &y)?;
  judge(cx, &y, &z)?;
  judge(cx, &x, &z)
}

/// Two messages, of which one is a variant of the other, and their errors.
fn variants(cx: &mut Cx, p: &Profile) -> Res {
  let Some(a) = some_message(&mut cx.t, p) else { return Ok(()) };
  let mut b = a.clone();
  for _ in 0..cx.t.below(3) {
    let i = cx.t.below(b.len().max(1));
    if let Some(x) = b.get_mut(i) {
      *x = if cx.t.chance(128) { cx.t.u8() } else { x.wrapping_add(1) };
    }
  }
  let v = crate::refdec::decode(&b);
  if crate::props::too_big(&b, &v) {
    return Ok(());
  }
  cx.msg(&a);
  cx.msg(&b);
  let copy = a.clone();
  match (RemotingMessage::parse(&a), RemotingMessage::parse(&b), RemotingMessage::parse(&copy)) {
    (Ok(x), Ok(y), Ok(z)) => {
      cx.nontrivial = true;
      judge(cx, &x, &y)?;
      judge(cx, &x, &z)
    },
    (Err(x), y, Err(z)) => {
      cx.nontrivial = true;
      cx.label("errors");
      if x != z || x != x.clone() || z.to_string() != x.clone().to_string() {
        return Err(format!("the errors of the same bytes are not equal: {x:?} and {z:?}"));
      }
      if let Err(y) = y
        && y.to_string() != x.to_string()
        && (x == y || y == x)
      {
        return Err(format!("different errors compare equal: {x} and {y}"));
      }
      Ok(())
    },
    (Ok(x), _, Ok(z)) => judge(cx, &x, &z),
    _ => Err("the same bytes are once valid and once not".into()),
  }
}

/// Two objects whose only difference is one name, by pairs which are nearly the same.
fn near_names(cx: &mut Cx, a: &str, b: &str) -> Res {
  cx.nontrivial = true;
  let build = |what: usize, n: &str| match what {
    0 => message(1, &cat(&[&cls(1, n, &["m"], None), &[10]])),
    1 => message(1, &cat(&[&lib(9, n), &cls(1, "C", &["m"], Some(9)), &[10]])),
    2 => message(1, &cat(&[&cls(1, "C", &[n], None), &[10]])),
    3 => message(1, &strobj(1, n)),
    4 => message(1, &cat(&[&objarr(1, 1), &strobj(2, n)])),
    // a call without arguments: its method, its type, its context
    k => {
      let texts = [n, "T", "c"];
      let at = |i: usize| texts[(i + 3 - (k - 5)) % 3];
      let mut o = cat(&[&[21], &int(0x21), &[18], &s(at(0)), &[18], &s(at(1)), &[18], &s(at(2))]);
      o = message(0, &o);
      o
    },
  };
  for what in 0..8 {
    let (x, y) = (build(what, a), build(what, b));
    let (Ok(p), Ok(q)) = (RemotingMessage::parse(&x), RemotingMessage::parse(&y)) else {
      return Err(format!("a name is rejected: {a:?} or {b:?} at {what}"));
    };
    if same_message(&p, &q) != Some(a == b) {
      return Err(format!("the names {a:?} and {b:?} are not told apart at {what}"));
    }
    cx.msg(&y);
    judge(cx, &p, &q)?;
  }
  Ok(())
}

pub fn check() -> Check {
  let values = Profile { msg: [1, 0, 0], budget: 25, ..Default::default() };
  let any = Profile { msg: [2, 2, 2], budget: 16, pool: 2, trailing: 2, args: [1, 1, 4, 4, 4], ..Default::default() };
  let small = Profile { budget: 8, max_members: 3, max_len: 4, depth: 3, ..any.clone() };
  let graphs = Profile { root: [5, 5, 1, 0], ..values.clone() };
  let (a1, a2, a3) = (values, small, any);
  let pairs = crate::generate::near_pairs();
  Check {
    id: "C29",
    rule: "messages and copies of them with a change in one place (a name, a library, a member, an element, the order of elements, a number, its type, an argument, null for empty), the same value written in several ways, messages which differ in a byte, names which are nearly the same; == and != in both directions are compared with what the public fields and accessors show; non-trivial: two messages are compared",
    assumptions: vec![
      "floating point numbers compare as IEEE 754 says",
      "decimals which differ only in their scale, and date-times whose kind bits cannot be seen, are not claimed to be equal or different",
    ],
    phases: vec![
      crate::run::enumerate("names which are nearly the same", pairs.len() as u64, move |cx| {
        let (a, b) = &pairs[cx.idx as usize];
        near_names(cx, a, b)
      }),
      phase("one change", 250 * K, 8000 * K, move |cx| one_change(cx, &a1)),
      phase("one change of a small message", 250 * K, 8000 * K, move |cx| one_change(cx, &a2)),
      phase("written twice", 100 * K, 3000 * K, move |cx| written_twice(cx, &graphs)),
      phase("variants", 150 * K, 4000 * K, move |cx| variants(cx, &a3)),
    ],
  }
}
