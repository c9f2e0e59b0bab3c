//! The lock-based objects of astro-run with every interleaving of their lock operations decided by shuttle.
#[path = "../../harness/src/hist.rs"]
mod hist;
#[path = "../../harness/src/rng.rs"]
mod rng;

mod rt {
  pub use shuttle::thread;
  #[derive(Clone)]
  pub struct Gate;
  pub fn gate(_: usize) -> Gate {
    Gate
  }
  pub fn wait(_: &Gate) {}
}

use serde_json::{json, Value};
use shuttle::scheduler::{DfsScheduler, PctScheduler, RandomScheduler};
use shuttle::{Config, Runner};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

fn explore(kind: &str, prog: &[Vec<Value>], seed: u64, how: &str, n: usize, out: &Arc<Mutex<hist::Out>>) -> usize {
  let (k, p, o) = (kind.to_string(), prog.to_vec(), out.clone());
  let body = move || {
    let h = hist::history(&k, &p);
    o.lock().unwrap().add(h);
  };
  let mut cfg = Config::new();
  cfg.failure_persistence = shuttle::FailurePersistence::None;
  cfg.silence_warnings = true;
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match how {
    "dfs" => Runner::new(DfsScheduler::new(Some(n), false), cfg).run(body),
    "pct" => Runner::new(PctScheduler::new_from_seed(seed, 3, n), cfg).run(body),
    _ => Runner::new(RandomScheduler::new_from_seed(seed, n), cfg).run(body),
  }));
  match r {
    Ok(k) => k,
    Err(e) => {
      let t = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
      out.lock().unwrap_or_else(|e| e.into_inner()).add(vec![json!({"k": "stuck", "why": t.chars().take(300).collect::<String>(), "program": prog})]);
      0
    }
  }
}

fn main() {
  let mut o: HashMap<String, String> = HashMap::new();
  let mut args = std::env::args().skip(1);
  while let Some(k) = args.next() {
    o.insert(k.trim_start_matches("--").to_string(), args.next().expect("value"));
  }
  std::panic::set_hook(Box::new(|_| {}));
  let kind = &o["kind"];
  let n: u64 = o["n"].parse().unwrap();
  let dfs: usize = o["dfs"].parse().unwrap();
  let rnd: usize = o["rnd"].parse().unwrap();
  let mut r = rng::Rng::new(o["seed"].parse().unwrap());
  let out = Arc::new(Mutex::new(hist::Out::new()));
  let (mut full, mut runs) = (0, 0);
  for _ in 0..n {
    let prog = hist::program(kind, &mut r);
    out.lock().unwrap_or_else(|e| e.into_inner()).seen.clear();
    let k = explore(kind, &prog, 0, "dfs", dfs, &out);
    runs += k;
    if k < dfs {
      full += 1;
    } else {
      runs += explore(kind, &prog, r.next(), "rnd", rnd, &out);
      runs += explore(kind, &prog, r.next(), "pct", rnd, &out);
    }
  }
  let out = out.lock().unwrap_or_else(|e| e.into_inner());
  std::fs::write(&o["out"], out.lines.join("\n") + "\n").unwrap();
  println!("runs {} different {} exhausted {} of {}", runs, out.tr, full, n);
}
