use nrbfcheck::{known, model, props, run};
use std::io::{Read, Write};

#[global_allocator]
static ALLOC: nrbfcheck::alloc::Counting = nrbfcheck::alloc::Counting;

fn usage() -> ! {
  eprintln!("usage: nrbfcheck check ID | replay FILE | parse FILE | findings");
  std::process::exit(3)
}

fn main() {
  let a: Vec<String> = std::env::args().skip(1).collect();
  let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
  let cfg = run::Config::from_env();
  let check = |id: &str| match props::check(id) {
    Some(c) => c,
    None => {
      eprintln!("there is no check {id}");
      std::process::exit(3)
    },
  };
  let code = match a.as_slice() {
    ["check", id] => run::supervise(&check(id), &cfg),
    ["work", id] => {
      run::limit_memory(20 << 30);
      let k = known::run(id, &format!("{}/known-findings.txt", cfg.dir));
      run::run_check(&check(id), &cfg, k, false)
    },
    // with coverage of the crate under test
    ["guide", id] => {
      run::limit_memory(20 << 30);
      run::run_check(&check(id), &cfg, run::Known { lines: vec![], violations: vec![], tried: 0 }, true)
    },
    ["one", id, phase, idx, tape @ ..] => {
      let tape = tape.first().map(|t| model::unhex(t));
      run::run_one(&check(id), &cfg, phase.parse().expect("phase"), idx.parse().expect("index"), tape)
    },
    ["replay", file] => {
      let body = std::fs::read_to_string(file).expect("replay file");
      let id = run::replay_field(&body, "property").expect("property");
      match run::replay(&check(&id), &body) {
        Some(Err(e)) => {
          println!("{e}");
          println!("VIOLATION property={id} replay={file}");
          1
        },
        Some(Ok(())) => {
          println!("property {id} holds for {file}");
          0
        },
        None => {
          eprintln!("{file} is not a replay file of this build");
          3
        },
      }
    },
    ["parse", file] => {
      let b = std::fs::read(file).expect("file");
      println!("{}", props::canonical(&b));
      0
    },
    // used by C02: a process which only parses, or does everything but that
    ["family", f, n, what] => {
      let n: usize = n.parse().expect("size");
      let b = props::family(f.parse().expect("family"), n).expect("a message");
      if *what == "parse" {
        std::mem::forget(nrbf::RemotingMessage::parse(&b));
      }
      0
    },
    // used for a known finding of C01
    ["deep", n] => {
      let b = known::deep(n.parse().expect("depth"));
      let r = nrbf::RemotingMessage::parse(&b).is_ok();
      println!("{r}");
      0
    },
    ["canonical-server"] => {
      run::install_panic_hook();
      let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
      let mut l = [0; 4];
      while i.read_exact(&mut l).is_ok() {
        let mut b = vec![0; u32::from_le_bytes(l) as usize];
        i.read_exact(&mut b).expect("message");
        let s = props::canonical(&b);
        let mut m = (s.len() as u32).to_le_bytes().to_vec();
        m.extend_from_slice(s.as_bytes());
        o.write_all(&m).and_then(|_| o.flush()).expect("answer");
      }
      0
    },
    // the literals of the crate, for base-literals.txt
    ["literals"] => {
      let (i, s) = nrbfcheck::dict::literals();
      i.iter().for_each(|n| println!("i {n}"));
      s.iter().for_each(|s| println!("s {}", model::hex(s.as_bytes())));
      0
    },
    ["findings"] => {
      for (id, m) in known::messages() {
        println!("{id} {}", model::hex(&m));
      }
      0
    },
    _ => usage(),
  };
  std::process::exit(code)
}
