//! Runner: executes the phases of a check in parallel, deterministically from the seed, shrinks the first failure to
//! a minimal tape, writes the replay file and the evidence file.

use crate::cover::{self, Map};
use crate::model::{hex, unhex};
use crate::tape::{Rng, Tape, fnv};
use std::{
  cell::RefCell,
  collections::{BTreeMap, HashSet},
  panic::{AssertUnwindSafe, catch_unwind},
  sync::Mutex,
  sync::atomic::{AtomicU64, AtomicUsize, Ordering},
  time::Instant,
};

/// What one case reports about itself.
pub struct Cx {
  pub t: Tape,
  pub idx: u64,
  /// Counts as non-trivial, by the rule of the property.
  pub nontrivial: bool,
  /// Hash of the generated case, to count distinct ones.
  pub key: u64,
  pub labels: Vec<&'static str>,
  /// The message under test, for the report.
  pub bytes: Vec<u8>,
  pub want_sample: bool,
  pub sample: Option<String>,
  /// More evaluations than one in this case.
  pub evals: u64,
}

impl Cx {
  pub fn new(tape: Vec<u8>, idx: u64) -> Self {
    Self {
      t: Tape::new(tape),
      idx,
      nontrivial: false,
      key: 0,
      labels: vec![],
      bytes: vec![],
      want_sample: false,
      sample: None,
      evals: 1,
    }
  }
  pub fn label(&mut self, l: &'static str) {
    self.labels.push(l);
  }
  /// Note the message under test.
  pub fn msg(&mut self, b: &[u8]) {
    self.bytes.clear();
    self.bytes.extend_from_slice(b);
    self.key = fnv(b) ^ self.key.rotate_left(7);
  }
}

pub type PhaseFn = Box<dyn Fn(&mut Cx) -> Result<(), String> + Sync + Send>;

pub struct Phase {
  pub name: &'static str,
  pub quick: u64,
  pub thorough: u64,
  /// Enumerates its cases by index instead of drawing them: the number of cases is the size of the space.
  pub exhaustive: bool,
  pub f: PhaseFn,
}

pub fn phase(
  name: &'static str,
  quick: u64,
  thorough: u64,
  f: impl Fn(&mut Cx) -> Result<(), String> + Sync + Send + 'static,
) -> Phase {
  Phase { name, quick, thorough, exhaustive: false, f: Box::new(f) }
}
pub fn enumerate(
  name: &'static str,
  n: u64,
  f: impl Fn(&mut Cx) -> Result<(), String> + Sync + Send + 'static,
) -> Phase {
  Phase { name, quick: n, thorough: n, exhaustive: true, f: Box::new(f) }
}

pub struct Check {
  pub id: &'static str,
  pub rule: &'static str,
  pub assumptions: Vec<&'static str>,
  pub phases: Vec<Phase>,
}

thread_local! {
  static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|i| {
    let m = format!("{i}").replace('\n', " ");
    PANIC.with(|p| *p.borrow_mut() = m);
  }));
}

pub fn run_case(f: &PhaseFn, cx: &mut Cx) -> Result<(), String> {
  match catch_unwind(AssertUnwindSafe(|| f(cx))) {
    Ok(r) => r,
    Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))),
  }
}

fn tape_for(seed: u64, check: &str, phase: &str, idx: u64) -> Vec<u8> {
  let mut r = Rng(seed ^ fnv(check.as_bytes()).rotate_left(17) ^ fnv(phase.as_bytes()) ^ idx.wrapping_mul(0xD1B54A32D192ED03));
  r.next();
  let len = [12usize, 24, 48, 96, 160, 256, 384, 512, 768, 1200][(r.next() % 10) as usize];
  r.fill(len)
}

fn env_u64(n: &str) -> Option<u64> {
  std::env::var(n).ok().and_then(|v| v.trim().parse().ok())
}

#[derive(Default)]
struct Stats {
  evals: u64,
  cases: u64,
  nontrivial: u64,
  keys: HashSet<u64>,
  labels: BTreeMap<&'static str, u64>,
}

struct Failure {
  order: u64,
  idx: u64,
  phase: usize,
  tape: Vec<u8>,
  detail: String,
  bytes: Vec<u8>,
}

fn jstr(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

pub fn threads() -> usize {
  static N: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
  *N.get_or_init(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8))
}

fn shrink(ph: &Phase, tape: Vec<u8>, idx: u64) -> (Vec<u8>, String, Vec<u8>) {
  let start = Instant::now();
  let mut runs = 0;
  let mut best = tape;
  let mut last: Option<(String, Vec<u8>)> = None;
  let fails = |d: &[u8], last: &mut Option<(String, Vec<u8>)>| {
    let mut cx = Cx::new(d.to_vec(), idx);
    match run_case(&ph.f, &mut cx) {
      Err(e) => {
        *last = Some((e, std::mem::take(&mut cx.bytes)));
        true
      },
      Ok(()) => false,
    }
  };
  let again = fails(&best.clone(), &mut last);
  if !again || ph.exhaustive {
    let (d, b) = last.unwrap_or(("not reproduced on the second run".into(), vec![]));
    return (best, d, b);
  }
  // work-bounded; the clock only ends shrinking early and decides nothing
  let mut improved = true;
  while improved && runs < 20000 && start.elapsed().as_secs() < 60 {
    improved = false;
    let mut n = best.len().next_power_of_two().max(1);
    while n >= 1 {
      let mut i = 0;
      while i < best.len() {
        if runs > 20000 || start.elapsed().as_secs() > 60 {
          break;
        }
        let mut c = best.clone();
        c.drain(i..(i + n).min(c.len()));
        runs += 1;
        if c.len() < best.len() && fails(&c, &mut last) {
          best = c;
          improved = true;
        } else {
          i += n;
        }
      }
      n /= 2;
    }
    for i in 0..best.len() {
      for v in [0u8, best[i] / 2, best[i].saturating_sub(1)] {
        if v < best[i] {
          let mut c = best.clone();
          c[i] = v;
          runs += 1;
          if fails(&c, &mut last) {
            best = c;
            improved = true;
            break;
          }
        }
      }
    }
  }
  let b = best.clone();
  fails(&b, &mut last);
  let (d, b) = last.unwrap();
  (best, d, b)
}

/// Phases of at least this many cases are continued with this part of their number, guided by coverage.
const GUIDED_FROM: u64 = 2000;
const GUIDED: u64 = 6;

/// A tape which differs from one of those which reached something new.
fn changed(r: &mut Rng, tapes: &[Vec<u8>]) -> Vec<u8> {
  let n = tapes.len();
  let from = if r.below(2) == 0 { n.saturating_sub(24) } else { 0 };
  // the shorter one of two
  let (a, b) = (&tapes[from + r.below(n - from)], &tapes[from + r.below(n - from)]);
  let mut t = if a.len() < b.len() { a.clone() } else { b.clone() };
  for _ in 0..1 + r.below(4) {
    let len = t.len();
    let at = r.below(len.max(1));
    match r.below(12) {
      _ if len == 0 => t = r.fill(16),
      0..4 => t[at] = r.next() as u8,
      4 => t[at] = t[at].wrapping_add(1),
      5 => t[at] = t[at].wrapping_sub(1),
      6 => t[at] ^= 1 << r.below(8),
      7 => {
        // other choices for some time
        let n = 1 + r.below(8);
        for b in t.iter_mut().skip(at).take(n) {
          *b = r.next() as u8;
        }
      },
      8 => {
        let n = 1 + r.below(12);
        let f = r.fill(n);
        t.splice(at..at, f);
      },
      9 => {
        let n = 1 + r.below(12);
        t.drain(at..(at + n).min(len));
      },
      10 => {
        // the rest, or a part, of another one
        let o = &tapes[r.below(tapes.len())];
        let from = r.below(o.len());
        let n = if r.below(2) == 0 { o.len() } else { 1 + r.below(32) };
        let part: Vec<u8> = o[from..].iter().take(n).copied().collect();
        let end = if r.below(2) == 0 { len } else { (at + part.len()).min(len) };
        t.splice(at..end, part);
      },
      _ => {
        let n = 1 + r.below(64);
        t.extend(r.fill(n));
      },
    }
  }
  t.truncate(TAPE);
  t
}

/// What the threads of a phase report.
struct Out {
  best: AtomicU64,
  fail: Mutex<Option<Failure>>,
  stats: Mutex<Stats>,
  sampled: AtomicUsize,
  samples: Mutex<Vec<(u64, String)>>,
}

impl Default for Out {
  fn default() -> Self {
    Self {
      best: AtomicU64::new(u64::MAX),
      fail: Mutex::new(None),
      stats: Mutex::new(Stats::default()),
      sampled: AtomicUsize::new(0),
      samples: Mutex::new(vec![]),
    }
  }
}

impl Out {
  fn note(&self, st: &mut Stats, cx: &mut Cx, idx: u64, sample: u64) {
    st.cases += 1;
    st.evals += cx.evals;
    for l in &cx.labels {
      *st.labels.entry(l).or_default() += 1;
    }
    if !cx.nontrivial {
      return;
    }
    st.nontrivial += 1;
    if st.keys.len() < 4_000_000 {
      st.keys.insert(cx.key);
    }
    if sample == idx && cx.want_sample && self.sampled.load(Ordering::Relaxed) < 400 {
      let s = cx.sample.take().unwrap_or_else(|| {
        let mut h = hex(&cx.bytes[..cx.bytes.len().min(160)]);
        if cx.bytes.len() > 160 {
          h.push('…');
        }
        h
      });
      self.sampled.fetch_add(1, Ordering::Relaxed);
      self.samples.lock().unwrap().push((idx, s));
    }
  }
  /// The failure which comes first counts.
  fn failed(&self, cx: &mut Cx, order: u64, phase: usize, tape: Vec<u8>, idx: u64, detail: String) {
    self.best.fetch_min(order, Ordering::Relaxed);
    let mut f = self.fail.lock().unwrap();
    if f.as_ref().is_none_or(|f| (order, idx) < (f.order, f.idx)) {
      *f = Some(Failure { order, idx, phase, tape, detail, bytes: std::mem::take(&mut cx.bytes) });
    }
  }
  fn merge(&self, st: Stats) {
    let mut g = self.stats.lock().unwrap();
    g.cases += st.cases;
    g.evals += st.evals;
    g.nontrivial += st.nontrivial;
    g.keys.extend(st.keys);
    for (k, v) in st.labels {
      *g.labels.entry(k).or_default() += v;
    }
  }
}

fn on_threads(f: impl Fn(usize) + Sync) {
  std::thread::scope(|s| {
    for th in 0..threads() {
      let f = &f;
      std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || f(th)).expect("thread");
    }
  });
}

pub struct Config {
  pub seed: u64,
  pub thorough: bool,
  pub dir: String,
}

impl Config {
  pub fn from_env() -> Self {
    Self {
      seed: env_u64("VERIF_SEED").unwrap_or(1),
      thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
      dir: std::env::var("NRBF_VERIF_DIR").unwrap_or_else(|_| "/verif".into()),
    }
  }
}

/// What every worker thread is doing, shared with the supervising process.
pub struct Slots(*mut u64);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
pub const SLOTS: usize = 8;
/// Tapes are no longer than this.
const TAPE: usize = 1536;
/// Phase, index, running number, and length and contents of the tape if the index does not give it.
const SLOT: usize = 4 + TAPE / 8;
impl Slots {
  pub fn from_env() -> Self {
    let path = match std::env::var("NRBF_SLOTS") {
      Ok(p) => p,
      Err(_) => return Self(Box::leak(Box::new([0u64; SLOTS * SLOT])).as_mut_ptr()),
    };
    Self::map(&path)
  }
  pub fn map(path: &str) -> Self {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("slots");
    let p = unsafe {
      libc::mmap(
        std::ptr::null_mut(),
        SLOTS * SLOT * 8,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED,
        f.as_raw_fd(),
        0,
      )
    };
    assert!(p != libc::MAP_FAILED);
    Self(p as *mut u64)
  }
  /// Phase and index plus one, and a running number.
  pub fn set(&self, th: usize, phase: usize, idx: u64, tape: Option<&[u8]>) {
    unsafe {
      let p = self.0.add(th * SLOT);
      p.add(3).write_volatile(tape.map_or(0, |t| t.len() as u64 + 1));
      if let Some(t) = tape {
        std::ptr::copy_nonoverlapping(t.as_ptr(), p.add(4) as *mut u8, t.len().min(TAPE));
      }
      p.add(1).write_volatile(idx);
      p.add(2).write_volatile(p.add(2).read_volatile() + 1);
      p.write_volatile(phase as u64 + 1);
    }
  }
  pub fn clear(&self, th: usize) {
    unsafe { self.0.add(th * SLOT).write_volatile(0) }
  }
  pub fn get(&self, th: usize) -> Option<(usize, u64, u64)> {
    unsafe {
      let p = self.0.add(th * SLOT);
      let ph = p.read_volatile();
      if ph == 0 { None } else { Some((ph as usize - 1, p.add(1).read_volatile(), p.add(2).read_volatile())) }
    }
  }
  pub fn tape(&self, th: usize) -> Option<Vec<u8>> {
    unsafe {
      let p = self.0.add(th * SLOT);
      let n = p.add(3).read_volatile() as usize;
      (n > 0).then(|| std::slice::from_raw_parts(p.add(4) as *const u8, (n - 1).min(TAPE)).to_vec())
    }
  }
}

fn limit(res: libc::__rlimit_resource_t, v: u64) {
  let r = libc::rlimit { rlim_cur: v, rlim_max: v };
  unsafe {
    libc::setrlimit(res, &r);
  }
}

pub fn limit_memory(v: u64) {
  limit(libc::RLIMIT_AS, v);
  limit(libc::RLIMIT_CORE, 0);
}

/// One case by index, in a process of its own with limits; 0 if it holds, 1 if it fails, a signal otherwise.
pub fn run_one(check: &Check, cfg: &Config, phase: usize, idx: u64, tape: Option<Vec<u8>>) -> i32 {
  install_panic_hook();
  limit(libc::RLIMIT_CPU, 60);
  limit(libc::RLIMIT_AS, 6 << 30);
  limit(libc::RLIMIT_CORE, 0);
  let ph = &check.phases[phase];
  let tape = tape.unwrap_or_else(|| tape_for(cfg.seed, check.id, ph.name, idx));
  std::thread::scope(|s| {
    std::thread::Builder::new()
      .stack_size(256 << 20)
      .spawn_scoped(s, || {
        let mut cx = Cx::new(tape, idx);
        run_case(&ph.f, &mut cx).is_err() as i32
      })
      .expect("thread")
      .join()
      .unwrap_or(1)
  })
}

/// Runs the check in a child process, so that a crash or an endless loop of the code under test is a reported
/// violation of the case which causes it instead of the end of the check.
pub fn supervise(check: &Check, cfg: &Config) -> i32 {
  let exe = std::env::current_exe().expect("exe");
  let part = std::env::temp_dir().join(format!("nrbfcheck-part-{}", std::process::id()));
  let mut code = watch(check, cfg, &exe, "work", &part);
  if code == 0
    && let Ok(exe) = std::env::var("NRBF_COVER_BIN")
  {
    code = watch(check, cfg, std::path::Path::new(&exe), "guide", &part);
  }
  let _ = std::fs::remove_file(&part);
  code
}

fn watch(check: &Check, cfg: &Config, exe: &std::path::Path, what: &str, part: &std::path::Path) -> i32 {
  use std::os::unix::process::ExitStatusExt;
  use std::process::Command;
  let path = std::env::temp_dir().join(format!("nrbfcheck-slots-{}", std::process::id()));
  let path = path.to_str().expect("path").to_string();
  std::fs::write(&path, vec![0u8; SLOTS * SLOT * 8]).expect("slots");
  let slots = Slots::map(&path);
  let mut child = Command::new(exe).args([what, check.id]).env("NRBF_SLOTS", &path).env("NRBF_PART", part).spawn().expect("spawn");
  let mut seen = [(0u64, Instant::now()); SLOTS];
  let mut candidates: Vec<(usize, u64, Option<Vec<u8>>)> = vec![];
  let mut stalled = false;
  let status = loop {
    match child.try_wait().expect("wait") {
      Some(s) => break Some(s),
      None => (),
    }
    std::thread::sleep(std::time::Duration::from_millis(50));
    for th in 0..SLOTS {
      let n = slots.get(th).map_or(0, |s| s.2);
      if n != seen[th].0 || n == 0 {
        seen[th] = (n, Instant::now());
      } else if seen[th].1.elapsed().as_secs() > 90 {
        stalled = true;
        let (p, i, _) = slots.get(th).unwrap();
        candidates.push((p, i, slots.tape(th)));
      }
    }
    if stalled {
      let _ = child.kill();
      let _ = child.wait();
      break None;
    }
  };
  let code = match status {
    Some(s) if s.code().is_some() => s.code().unwrap(),
    s => {
      if let Some(s) = s {
        eprintln!("{}: the check was ended by signal {:?}", check.id, s.signal());
        candidates = (0..SLOTS).filter_map(|t| slots.get(t).map(|x| (x.0, x.1, slots.tape(t)))).collect();
      }
      let mut code = 3;
      for (p, i, tape) in candidates {
        let r = Command::new(exe)
          .args(["one", check.id, &p.to_string(), &i.to_string()])
          .args(tape.as_ref().map(|t| hex(t)))
          .env_remove("NRBF_SLOTS")
          .status()
          .expect("spawn");
        let what = match r.signal() {
          Some(libc::SIGXCPU) | Some(libc::SIGKILL) => "does not come to an end (60 s of CPU time)",
          Some(_) => "crashes the process",
          None => continue,
        };
        let ph = &check.phases[p];
        let tape = tape.unwrap_or_else(|| tape_for(cfg.seed, check.id, ph.name, i));
        let rp = format!("{}/replays/{}-crash-{:016x}.json", cfg.dir, check.id, fnv(&tape));
        let _ = std::fs::create_dir_all(format!("{}/replays", cfg.dir));
        let _ = std::fs::write(
          &rp,
          format!(
            "{{\n  \"property\": {},\n  \"phase\": {},\n  \"index\": {},\n  \"tape\": {},\n  \"detail\": {}\n}}\n",
            jstr(check.id), jstr(ph.name), i, jstr(&hex(&tape)), jstr(what)
          ),
        );
        println!("phase {} case {} {}", ph.name, i, what);
        println!("VIOLATION property={} replay={}", check.id, rp);
        code = 1;
        break;
      }
      if code == 3 {
        eprintln!("{}: the check ended abnormally and no case explains it", check.id);
      }
      code
    },
  };
  let _ = std::fs::remove_file(&path);
  code
}

/// Known findings report: lines to print, and violations found by them.
pub struct Known {
  pub lines: Vec<String>,
  pub violations: Vec<(String, Vec<u8>)>,
  pub tried: usize,
}

/// What the first part of a check has done, for the evidence of the second.
#[derive(Default)]
struct Part {
  evals: u64,
  cases: u64,
  nontrivial: u64,
  distinct: u64,
  tried: u64,
  wall: f64,
  phases: Vec<String>,
  labels: BTreeMap<String, u64>,
  samples: Vec<String>,
}

impl Part {
  fn write(&self) -> String {
    let mut o = format!(
      "n {} {} {} {} {} {:.2}\n",
      self.evals, self.cases, self.nontrivial, self.distinct, self.tried, self.wall
    );
    self.phases.iter().for_each(|p| o.push_str(&format!("p {p}\n")));
    self.labels.iter().for_each(|(k, v)| o.push_str(&format!("l {v} {k}\n")));
    self.samples.iter().for_each(|s| o.push_str(&format!("s {}\n", s.replace('\n', " "))));
    o
  }
  fn read(text: &str) -> Self {
    let mut o = Self::default();
    for l in text.lines() {
      let Some((k, rest)) = l.split_once(' ') else { continue };
      match k {
        "n" => {
          let n: Vec<f64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
          if let [a, b, c, d, e, f] = n[..] {
            (o.evals, o.cases, o.nontrivial, o.distinct, o.tried, o.wall) =
              (a as u64, b as u64, c as u64, d as u64, e as u64, f);
          }
        },
        "p" => o.phases.push(rest.into()),
        "l" => {
          if let Some((v, k)) = rest.split_once(' ') {
            o.labels.insert(k.into(), v.parse().unwrap_or(0));
          }
        },
        "s" => o.samples.push(rest.into()),
        _ => (),
      }
    }
    o
  }
}

/// Runs the phases with random tapes, or goes on with those tapes which reach something new.
pub fn run_check(check: &Check, cfg: &Config, known: Known, guided: bool) -> i32 {
  let slots = Slots::from_env();
  let start = Instant::now();
  install_panic_hook();
  let scale = env_u64("NRBF_SCALE_PERCENT").unwrap_or(100);
  let part_file = std::env::var("NRBF_PART").ok();
  let part = match &part_file {
    Some(f) if guided => Part::read(&std::fs::read_to_string(f).unwrap_or_default()),
    _ => Part::default(),
  };
  let mut all = Stats::default();
  let mut samples: Vec<String> = vec![];
  let mut failure: Option<Failure> = None;
  let mut phases_json = vec![];
  for (pi, ph) in check.phases.iter().enumerate() {
    let n = if ph.exhaustive {
      if cfg.thorough { ph.thorough } else { ph.quick }
    } else {
      ((if cfg.thorough { ph.thorough } else { ph.quick }) * scale / 100).max(1)
    };
    // the second part does a share of the first, in the phases which draw their cases
    let n = match guided {
      false => n,
      true if ph.exhaustive || n < GUIDED_FROM => continue,
      true => n / GUIDED,
    };
    let batch = (n / 256).clamp(1, 64);
    let next = AtomicU64::new(0);
    let out = Out::default();
    let corpus = Mutex::new((0usize, 0usize, 0usize));
    if !guided {
      on_threads(|th| {
        let mut st = Stats::default();
        loop {
          let from = next.fetch_add(batch, Ordering::Relaxed);
          if from >= n {
            break;
          }
          for idx in from..(from + batch).min(n) {
            if idx > out.best.load(Ordering::Relaxed) {
              break;
            }
            slots.set(th, pi, idx, None);
            let mut cx = Cx::new(tape_for(cfg.seed, check.id, ph.name, idx), idx);
            cx.want_sample = idx % 64 == 5 || idx < 4;
            let r = run_case(&ph.f, &mut cx);
            out.note(&mut st, &mut cx, idx, idx);
            if let Err(detail) = r {
              out.failed(&mut cx, idx, pi, tape_for(cfg.seed, check.id, ph.name, idx), idx, detail);
            }
          }
        }
        slots.clear(th);
        out.merge(st);
      });
    } else {
      on_threads(|th| {
        let mut st = Stats::default();
        let mut r = Rng(cfg.seed ^ fnv(check.id.as_bytes()).rotate_left(31) ^ fnv(ph.name.as_bytes()) ^ (th as u64) << 56);
        let mut map = Map::new();
        let mut tapes: Vec<Vec<u8>> = vec![];
        let mut wishes: Vec<Vec<u8>> = vec![];
        let n = n / threads() as u64;
        for k in 0..n {
          if k > out.best.load(Ordering::Relaxed) {
            break;
          }
          let idx = k * threads() as u64 + th as u64;
          let tape = if let Some(t) = wishes.pop() {
            t
          } else if tapes.is_empty() || k < n / 8 || r.below(16) == 0 {
            tape_for(cfg.seed ^ 0x6775696465, check.id, ph.name, idx)
          } else {
            changed(&mut r, &tapes)
          };
          slots.set(th, pi, idx, Some(&tape));
          let mut cx = Cx::new(tape.clone(), idx);
          let res = map.count(|| run_case(&ph.f, &mut cx));
          let (a, b) = map.news();
          if res.is_ok() {
            if a + b > 0 && cx.t.used() > 0 {
              tapes.push(tape[..cx.t.used()].to_vec());
            }
            if wishes.len() < 64 {
              for (at, w) in map.wishes(&tape[..cx.t.used()]) {
                let mut t = tape.clone();
                t[at..at + w.len()].copy_from_slice(&w);
                wishes.push(t);
              }
            }
          }
          cx.want_sample = k >= n / 2;
          out.note(&mut st, &mut cx, idx, if k % 64 == 5 { idx } else { u64::MAX });
          if let Err(detail) = res {
            out.failed(&mut cx, k, pi, tape, idx, detail);
          }
        }
        slots.clear(th);
        out.merge(st);
        let c = map.covered();
        let mut g = corpus.lock().unwrap();
        *g = (g.0.max(c.0), g.1.max(c.1), g.2 + tapes.len());
      });
    }
    let Out { fail, stats, samples: samples_m, .. } = out;
    let (edges, values, kept) = corpus.into_inner().unwrap();
    if guided && std::env::var("NRBF_VERBOSE").is_ok() {
      eprintln!("{} {}: {} guided, {} of {} edges, {} comparisons, {} tapes", check.id, ph.name, n, edges, cover::edges(), values, kept);
    }
    let st = stats.into_inner().unwrap();
    let mut json = format!(
      "{{\"name\": {}, \"cases\": {}, \"evaluations\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"exhaustive\": {}",
      jstr(&format!("{}{}", ph.name, if guided { ", guided by coverage" } else { "" })),
      st.cases, st.evals, st.nontrivial, st.keys.len(), ph.exhaustive
    );
    if guided {
      json.push_str(&format!(
        ", \"edges\": {}, \"edges_covered\": {}, \"comparisons\": {}, \"tapes_kept\": {}",
        cover::edges(), edges, values, kept
      ));
    }
    json.push('}');
    phases_json.push(json);
    all.cases += st.cases;
    all.evals += st.evals;
    all.nontrivial += st.nontrivial;
    let salt = fnv(ph.name.as_bytes());
    all.keys.extend(st.keys.into_iter().map(|k| k ^ salt));
    for (k, v) in st.labels {
      *all.labels.entry(k).or_default() += v;
    }
    let mut sm = samples_m.into_inner().unwrap();
    sm.sort();
    samples.extend(sm.into_iter().take(3).map(|(i, s)| format!("{} #{}: {}", ph.name, i, s)));
    if let Some(f) = fail.into_inner().unwrap() {
      failure = Some(f);
      break;
    }
  }

  let mut violations = 0;
  let mut code = 0;
  let report = |detail: &str, phase: &str, idx: u64, tape: &[u8], bytes: &[u8]| {
    let dir = format!("{}/replays", cfg.dir);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{:016x}.json", check.id, fnv(tape) ^ fnv(bytes));
    let body = format!(
      "{{\n  \"property\": {},\n  \"phase\": {},\n  \"index\": {},\n  \"tape\": {},\n  \"message\": {},\n  \"detail\": {},\n  \"replay\": {}\n}}\n",
      jstr(check.id), jstr(phase), idx, jstr(&hex(tape)), jstr(&hex(bytes)), jstr(detail),
      jstr(&format!("run.sh replay {path}"))
    );
    if let Err(e) = std::fs::write(&path, body) {
      eprintln!("cannot write {path}: {e}");
    }
    println!("{}", detail);
    println!("VIOLATION property={} replay={}", check.id, path);
  };
  if let Some(f) = failure {
    let ph = &check.phases[f.phase];
    eprintln!("{}: case {} of phase {} failed: {}", check.id, f.idx, ph.name, f.detail);
    let out = std::thread::scope(|s| {
      std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn_scoped(s, || shrink(ph, f.tape.clone(), f.idx))
        .expect("thread")
        .join()
    });
    let (tape, detail, bytes) = match out {
      Ok(x) => x,
      Err(_) => (f.tape.clone(), f.detail.clone(), f.bytes.clone()),
    };
    report(&detail, ph.name, f.idx, &tape, &bytes);
    violations += 1;
    code = 1;
  }
  for (d, b) in &known.violations {
    report(d, "known", 0, &[], b);
    violations += 1;
    if code == 0 {
      code = 1;
    }
  }
  for l in &known.lines {
    println!("KNOWN-FINDING: property={} {}", check.id, l);
  }

  let mut whole = part;
  whole.evals += all.evals;
  whole.cases += all.cases;
  whole.nontrivial += all.nontrivial;
  whole.distinct += all.keys.len() as u64;
  whole.tried += known.tried as u64;
  whole.wall += start.elapsed().as_secs_f64();
  whole.phases.extend(phases_json);
  for (k, v) in all.labels {
    *whole.labels.entry(k.into()).or_default() += v;
  }
  whole.samples.extend(samples);
  if let Some(f) = part_file
    && !guided
  {
    let _ = std::fs::write(f, whole.write());
  }
  let labels =
    whole.labels.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ");
  let ev = format!(
    "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"cases\": {},\n    \"nontrivial\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"phases\": [{}],\n    \"classes\": {{{}}},\n    \"known_findings_replayed\": {},\n    \"samples\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
    jstr(check.id),
    if cfg.thorough { "\"thorough\"" } else { "\"quick\"" },
    cfg.seed,
    whole.evals,
    whole.cases,
    whole.nontrivial,
    whole.distinct,
    jstr(check.rule),
    whole.phases.join(", "),
    labels,
    whole.tried,
    whole.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
    check.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
    whole.wall,
    violations
  );
  let _ = std::fs::create_dir_all(format!("{}/evidence", cfg.dir));
  if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", cfg.dir, check.id), ev) {
    eprintln!("cannot write the evidence: {e}");
    return 3;
  }
  eprintln!(
    "{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s{}",
    check.id,
    whole.cases,
    whole.evals,
    whole.distinct,
    whole.wall,
    if guided { ", with those guided by coverage" } else { "" }
  );
  code
}

/// The value of a string field in a replay file.
pub fn replay_field(body: &str, name: &str) -> Option<String> {
  let i = body.find(&format!("\"{name}\": "))? + name.len() + 4;
  let rest = &body[i..];
  if let Some(r) = rest.strip_prefix('"') { Some(r[..r.find('"')?].to_string()) } else {
    Some(rest.chars().take_while(|c| c.is_ascii_digit()).collect())
  }
}

pub fn replay(check: &Check, body: &str) -> Option<Result<(), String>> {
  install_panic_hook();
  let phase = replay_field(body, "phase")?;
  let ph = check.phases.iter().find(|p| p.name == phase)?;
  let tape = unhex(&replay_field(body, "tape")?);
  let idx = replay_field(body, "index")?.parse().ok()?;
  let r = std::thread::scope(|s| {
    std::thread::Builder::new()
      .stack_size(256 << 20)
      .spawn_scoped(s, || {
        let mut cx = Cx::new(tape.clone(), idx);
        run_case(&ph.f, &mut cx)
      })
      .expect("thread")
      .join()
  });
  r.ok()
}
