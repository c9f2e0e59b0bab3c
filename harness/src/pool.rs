//! Runs many scenarios on several threads, each in a runtime of its own, with a watchdog.
use crate::engine;
use crate::util::*;
use parking_lot::Mutex;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub fn opt<T: std::str::FromStr>(o: &HashMap<String, String>, k: &str, d: T) -> T {
  o.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
}

type Slot = Arc<Mutex<Option<(usize, Instant, Recorder)>>>;

/// Runs `job(i)` for every i; returns the records of each. A job that does not end within `limit`
/// is given up and what it recorded so far is closed with an `x.hang` record.
pub fn run_all<F>(n: usize, threads: usize, limit: Duration, job: F) -> Vec<Vec<Value>>
where
  F: Fn(usize, Recorder) + Send + Sync + 'static,
{
  let job = Arc::new(job);
  let next = Arc::new(AtomicUsize::new(0));
  let results: Arc<Mutex<HashMap<usize, Vec<Value>>>> = Arc::new(Mutex::new(HashMap::new()));
  let spawn = |slot: Slot| {
    let (job, next, results) = (job.clone(), next.clone(), results.clone());
    std::thread::spawn(move || loop {
      let i = next.fetch_add(1, Ordering::SeqCst);
      if i >= n {
        break;
      }
      let rec = Recorder::new();
      *slot.lock() = Some((i, Instant::now(), rec.clone()));
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| job(i, rec.clone())));
      let mut mine = slot.lock();
      if mine.as_ref().map(|m| m.0) != Some(i) {
        break; // given up on
      }
      *mine = None;
      let mut v = rec.records.lock().clone();
      if r.is_err() && !v.is_empty() {
        v.push(json!({"k": "x.broken"}));
      }
      if rec.full() {
        v.push(json!({"k": "x.hang"}));
      }
      results.lock().insert(i, v);
    });
  };
  let mut hung = 0;
  let mut slots: Vec<Slot> = vec![];
  for _ in 0..threads {
    let slot: Slot = Arc::new(Mutex::new(None));
    slots.push(slot.clone());
    spawn(slot);
  }
  loop {
    std::thread::sleep(Duration::from_millis(20));
    if results.lock().len() >= n {
      break;
    }
    if hung >= 6 {
      next.store(n, Ordering::SeqCst);
      std::thread::sleep(Duration::from_millis(2000));
      break;
    }
    let mut fresh = vec![];
    for slot in &slots {
      let mut s = slot.lock();
      if let Some((i, at, rec)) = s.as_ref() {
        if at.elapsed() > limit {
          let mut v = rec.records.lock().clone();
          v.push(json!({"k": "x.hang"}));
          results.lock().insert(*i, v);
          *s = None;
          // enough is enough: every one of them is a violation
          hung += 1;
          if hung < 6 {
            let slot: Slot = Arc::new(Mutex::new(None));
            fresh.push(slot.clone());
            spawn(slot);
          }
        }
      }
    }
    slots.extend(fresh);
  }
  let mut m = results.lock();
  // of the runs that never end a few will do, and their beginnings
  let mut kept = 0;
  let mut traces = vec![];
  for i in 0..n {
    let mut t = m.remove(&i).unwrap_or_default();
    if t.last().map_or(false, |r| r["k"] == "x.hang") {
      kept += 1;
      if kept > 12 {
        t.clear();
      } else if t.len() > 20_000 {
        t.truncate(20_000);
        t.push(json!({"k": "x.hang"}));
      }
    }
    traces.push(t);
  }
  traces
}

pub fn write_traces(path: &str, traces: &[Vec<Value>]) {
  let mut f = std::io::BufWriter::new(std::fs::File::create(path).expect("output"));
  for (i, t) in traces.iter().enumerate() {
    for r in t {
      let mut r = r.clone();
      r["tr"] = json!(i + 1);
      writeln!(f, "{}", r).unwrap();
    }
  }
}

pub fn engine(o: &HashMap<String, String>) {
  let seed: u64 = opt(o, "seed", 1);
  let n: usize = opt(o, "n", 50);
  let fams: Vec<String> = o.get("fam").cloned().unwrap_or("mix".into()).split(',').map(|s| s.to_string()).collect();
  let out = o.get("out").expect("--out").clone();
  let threads: usize = opt(o, "threads", 8);
  let lost = Arc::new(AtomicUsize::new(0));
  let lost2 = lost.clone();
  let traces = run_all(n, threads, Duration::from_secs(opt(o, "limit", 30)), move |i, rec| {
    let fam = &fams[i % fams.len()];
    let sc = engine::scenario(seed.wrapping_mul(1_000_003).wrapping_add(i as u64), fam);
    if fam.starts_with("free") {
      let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
      rt.block_on(engine::run_free(sc, rec.clone()));
      rt.shutdown_background();
    } else {
      let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
      rt.block_on(engine::run_random(sc, rec.clone()));
      rt.shutdown_background();
    }
    if rec.twins.lock().lost {
      rec.records.lock().clear();
      lost2.fetch_add(1, Ordering::SeqCst);
    }
  });
  write_traces(&out, &traces);
  println!(
    "traces {} records {} lost {}",
    traces.len(),
    traces.iter().map(|t| t.len()).sum::<usize>(),
    lost.load(Ordering::SeqCst)
  );
}

/// Schedules: --in has one {"sc": scenario, "path": [...]} per line.
pub fn schedules(o: &HashMap<String, String>) {
  let text = std::fs::read_to_string(o.get("in").expect("--in")).expect("input");
  let items: Vec<Value> = text.lines().map(|l| serde_json::from_str(l).expect("json")).collect();
  let n = items.len();
  let traces = run_all(n, opt(o, "threads", 8), Duration::from_secs(opt(o, "limit", 30)), move |i, rec| {
    let it = &items[i];
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    rt.block_on(engine::run_schedule(it["sc"].clone(), it["path"].as_array().unwrap().clone(), rec.clone()));
    rt.shutdown_background();
    if rec.twins.lock().lost {
      rec.records.lock().clear();
    }
  });
  let off = traces.iter().filter(|t| t.iter().any(|r| r["k"] == "x.off")).count();
  write_traces(o.get("out").expect("--out"), &traces);
  println!("traces {} records {} off {}", traces.len(), traces.iter().map(|t| t.len()).sum::<usize>(), off);
}

/// Histories of concurrent operations on real threads (suite S2).
pub fn hist(o: &HashMap<String, String>) {
  let kind = o["kind"].clone();
  let seed: u64 = o["seed"].parse().unwrap();
  let mut out = crate::hist::Out::new();
  let stuck = std::cell::Cell::new(0);
  let mut one = |prog: &[Vec<Value>]| {
    if stuck.get() >= 6 {
      return; // enough is enough
    }
    let (k, p) = (kind.clone(), prog.to_vec());
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tx.send(crate::hist::history(&k, &p)));
    match rx.recv_timeout(std::time::Duration::from_secs(10)) {
      Ok(h) => out.add(h),
      Err(_) => {
        stuck.set(stuck.get() + 1);
        out.add(vec![json!({"k": "stuck", "program": prog})])
      }
    }
  };
  if let Some(f) = o.get("in") {
    for l in std::fs::read_to_string(f).unwrap().lines() {
      let prog: Vec<Vec<Value>> = serde_json::from_str(l).unwrap();
      one(&prog);
    }
  } else {
    let n: u64 = o["n"].parse().unwrap();
    let reps: u64 = o["reps"].parse().unwrap();
    let mut r = Rng::new(seed);
    for _ in 0..n {
      let prog = crate::hist::program(&kind, &mut r);
      for _ in 0..reps {
        one(&prog);
      }
    }
    for _ in 0..opt(o, "big", 0u64) {
      let prog = crate::hist::big(&kind, &mut r);
      one(&prog);
    }
  }
  std::fs::write(&o["out"], out.lines.join("\n") + "\n").unwrap();
  println!("runs {} different {}", out.runs, out.tr);
}

/// Waits for scenarios running elsewhere: `started[i]` and `done[i]` tell about the i-th. One that does not
/// come to an end is given up and its recording closed with `broken`; after a round of slow ones (`SLOW`)
/// no more are begun. Returns the recordings and how many scenarios were slow.
pub struct Watch {
  pub logs: Vec<Arc<crate::remote::Log>>,
  pub started: Vec<Mutex<Option<Instant>>>,
  pub done: Vec<Mutex<Option<Duration>>>,
  pub slow: AtomicUsize,
  pub par: usize,
}
const SLOW: Duration = Duration::from_secs(40);
const GIVEN_UP: Duration = Duration::from_secs(120);
impl Watch {
  pub fn new(n: usize, par: usize) -> Arc<Self> {
    Arc::new(Watch {
      logs: (0..n).map(|_| Arc::new(crate::remote::Log::new())).collect(),
      started: (0..n).map(|_| Mutex::new(None)).collect(),
      done: (0..n).map(|_| Mutex::new(None)).collect(),
      slow: AtomicUsize::new(0),
      par,
    })
  }
  /// May the i-th begin?
  pub fn begin(&self, i: usize) -> bool {
    if self.slow.load(Ordering::SeqCst) >= self.par {
      *self.done[i].lock() = Some(Duration::ZERO);
      return false;
    }
    *self.started[i].lock() = Some(Instant::now());
    true
  }
  pub fn end(&self, i: usize, ok: bool) {
    let took = self.started[i].lock().map_or(Duration::ZERO, |t| t.elapsed());
    if took > SLOW {
      self.slow.fetch_add(1, Ordering::SeqCst);
    }
    if !ok {
      self.logs[i].push(json!({"k": "broken"}));
    }
    *self.done[i].lock() = Some(took);
  }
  pub fn wait(&self) -> Vec<Vec<Value>> {
    let n = self.logs.len();
    loop {
      std::thread::sleep(Duration::from_millis(5));
      let mut open = false;
      for i in 0..n {
        if self.done[i].lock().is_some() {
          continue;
        }
        let since = self.started[i].lock().map(|t| t.elapsed());
        match since {
          Some(t) if t > GIVEN_UP => {
            self.slow.fetch_add(self.par, Ordering::SeqCst);
            self.end(i, false);
          }
          None if self.slow.load(Ordering::SeqCst) >= self.par => {}
          _ => open = true,
        }
      }
      if !open {
        break;
      }
    }
    self.logs.iter().map(|l| l.records()).map(|l| if l.first().map_or(false, |r| r["k"] == "cfg") { l } else { vec![] }).collect()
  }
}
