//! Concurrent histories of the lock-based objects: step streams, signals and their registry, the default scheduler.
//! Shared by vharness (real threads) and conc (every interleaving decided by shuttle): `crate::rt` is the one in use.
use crate::rt;
use crate::rng::Rng;
use astro_run::{AstroRunSignal, RunResult, SignalManager, StreamReceiver, StreamSender};
use astro_run_scheduler::{DefaultScheduler, RunnerMetadata, Scheduler};
use serde_json::{json, Value};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use tokio_stream::Stream;

type Stamped = Vec<(u64, Value)>;

#[derive(Default)]
pub struct Clock {
  seq: AtomicU64,
  wakes: Mutex<Stamped>,
}

impl Clock {
  fn at(&self) -> u64 {
    self.seq.fetch_add(1, Ordering::SeqCst)
  }
}

struct W {
  id: u64,
  clock: Arc<Clock>,
}

fn waker(id: u64, clock: &Arc<Clock>) -> Waker {
  fn raw(w: Arc<W>) -> RawWaker {
    RawWaker::new(Arc::into_raw(w) as *const (), &VT)
  }
  static VT: RawWakerVTable = RawWakerVTable::new(
    |p| unsafe {
      let a = Arc::from_raw(p as *const W);
      let b = a.clone();
      std::mem::forget(a);
      raw(b)
    },
    |p| unsafe {
      let a = Arc::from_raw(p as *const W);
      woke(&a);
    },
    |p| unsafe {
      let a = Arc::from_raw(p as *const W);
      woke(&a);
      std::mem::forget(a);
    },
    |p| unsafe {
      drop(Arc::from_raw(p as *const W));
    },
  );
  fn woke(w: &Arc<W>) {
    let mut l = w.clock.wakes.lock().unwrap();
    let n = w.clock.at();
    l.push((n, json!({"k": "wake", "w": w.id})));
  }
  unsafe { Waker::from_raw(raw(Arc::new(W { id, clock: clock.clone() }))) }
}

/// The objects under test of one history.
pub enum World {
  Stream(StreamSender, Mutex<StreamReceiver>),
  Signal(SignalManager, Vec<AstroRunSignal>, Mutex<Vec<Option<AstroRunSignal>>>),
  Sched(DefaultScheduler),
}

fn run_result(m: &str) -> RunResult {
  match &m[..1] {
    "S" => RunResult::Succeeded,
    "C" => RunResult::Cancelled,
    _ => RunResult::Failed { exit_code: m[1..].parse().unwrap() },
  }
}

fn result_text(r: &Option<RunResult>) -> String {
  match r {
    None => "".into(),
    Some(RunResult::Succeeded) => "S".into(),
    Some(RunResult::Cancelled) => "C".into(),
    Some(RunResult::Failed { exit_code }) => format!("F{}", exit_code),
  }
}

pub fn metas(rs: &Value) -> Vec<RunnerMetadata> {
  rs.as_array()
    .unwrap()
    .iter()
    .map(|r| RunnerMetadata {
      id: r["id"].as_str().unwrap().into(),
      os: r["os"].as_str().unwrap().into(),
      arch: r["arch"].as_str().unwrap().into(),
      support_docker: r["d"].as_bool().unwrap(),
      support_host: r["h"].as_bool().unwrap(),
      version: "1".into(),
      max_runs: r["max"].as_i64().unwrap_or(5) as i32,
    })
    .collect()
}

pub fn step_id(n: &str) -> astro_run::StepId {
  let p: Vec<&str> = n.split('/').collect();
  astro_run::StepId::new(p[0], p[1], p[2].parse().unwrap())
}

pub fn job_id(n: &str) -> astro_run::JobId {
  let p: Vec<&str> = n.split('/').collect();
  astro_run::JobId::new(p[0], p[1])
}

impl World {
  pub fn new(kind: &str) -> Self {
    match kind {
      "stream" => {
        let (s, r) = astro_run::stream();
        World::Stream(s, Mutex::new(r))
      }
      "signal" => World::Signal(
        SignalManager::new(),
        (0..3).map(|_| AstroRunSignal::new()).collect(),
        Mutex::new(vec![None; 7]),
      ),
      _ => World::Sched(DefaultScheduler::new()),
    }
  }

  /// Carries one operation out; the answer is None if it does not apply.
  fn exec(&self, o: &Value, clock: &Arc<Clock>, call: &mut dyn FnMut()) -> Option<Value> {
    let op = o["op"].as_str().unwrap();
    let m = || o["m"].as_str().unwrap();
    let cx = || waker(o["w"].as_u64().unwrap(), clock);
    let yes = |b: bool| json!(if b { "T" } else { "F" });
    match self {
      World::Stream(s, r) => {
        // every operation goes through a clone of its own
        let s = s.clone();
        match op {
          "write" => {
            call();
            if m().starts_with("L") {
              s.log(&m()[2..])
            } else {
              s.error(m()[2..].to_string())
            }
            Some(json!(""))
          }
          "end" => {
            call();
            match (o["how"].as_u64().unwrap_or(0), m()) {
              (1, "S") => s.succeeded(),
              (1, "C") => s.cancelled(),
              (2, "F123") => s.timeout(),
              (1, t) => s.failed(t[1..].parse().unwrap()),
              (_, t) => s.end(run_result(t)),
            }
            Some(json!(""))
          }
          "poll" => {
            let mut r = r.lock().unwrap();
            let w = cx();
            call();
            Some(match Pin::new(&mut *r).poll_next(&mut Context::from_waker(&w)) {
              Poll::Pending => json!("P"),
              Poll::Ready(None) => json!("N"),
              Poll::Ready(Some(l)) => json!(format!("{}:{}", if l.is_error() { "E" } else { "L" }, l.message)),
            })
          }
          "result" => {
            let r = r.lock().unwrap();
            call();
            Some(json!(result_text(&r.result())))
          }
          _ => {
            call();
            Some(yes(s.is_ended()))
          }
        }
      }
      World::Signal(mgr, sigs, hs) => {
        let job = || astro_run::JobId::new("w", format!("j{}", o["j"].as_u64().unwrap()).as_str());
        let sig = || -> Option<AstroRunSignal> {
          let n = o["sg"].as_u64().unwrap_or(0) as usize;
          if n > 0 {
            Some(sigs[n - 1].clone())
          } else {
            hs.lock().unwrap()[o["h"].as_u64().unwrap() as usize].clone()
          }
        };
        match op {
          "register" => {
            let s = sig()?;
            call();
            mgr.register_signal(job(), s);
            Some(json!(""))
          }
          "unregister" => {
            call();
            mgr.unregister_signal(&job());
            Some(json!(""))
          }
          "cancel_job" => {
            call();
            Some(json!(if mgr.cancel_job(&job()).is_ok() { "ok" } else { "err" }))
          }
          "get" => {
            call();
            let s = mgr.get_signal(&job());
            let v = json!(if s.is_some() { "some" } else { "none" });
            hs.lock().unwrap()[o["h"].as_u64().unwrap() as usize] = s;
            Some(v)
          }
          _ => {
            let s = sig()?;
            call();
            Some(match op {
              "cancel" => json!(if s.cancel().is_ok() { "ok" } else { "err" }),
              "timeout" => json!(if s.timeout().is_ok() { "ok" } else { "err" }),
              "is_cancelled" => yes(s.is_cancelled()),
              "is_timeout" => yes(s.is_timeout()),
              "recv" => {
                let w = cx();
                let mut r = s.recv();
                match Pin::new(&mut r).poll(&mut Context::from_waker(&w)) {
                  Poll::Pending => json!("P"),
                  Poll::Ready(k) => json!(k.to_string()),
                }
              }
              x => panic!("operation {}", x),
            })
          }
        }
      }
      World::Sched(s) => match op {
        "schedule" => {
          let rs = metas(&o["rs"]);
          let mut cmd: astro_run::Command = astro_run::Step {
            id: step_id(o["st"].as_str().unwrap()),
            ..Default::default()
          }
          .into();
          if let Some(c) = o["c"].as_str().filter(|c| !c.is_empty()) {
            cmd.container = Some(astro_run::ContainerOptions { name: c.into(), volumes: None, security_opts: None });
          }
          let ctx = astro_run::Context {
            id: cmd.id.clone(),
            command: cmd,
            event: None,
            signal: AstroRunSignal::new(),
            payload: None,
          };
          call();
          let v = block(s.schedule(&rs, &ctx)).map(|r| r.id.clone());
          Some(json!(v.unwrap_or_default()))
        }
        "stepdone" => {
          call();
          s.on_step_completed(astro_run::StepRunResult {
            id: step_id(o["st"].as_str().unwrap()),
            state: astro_run::WorkflowState::Succeeded,
            exit_code: None,
            started_at: None,
            completed_at: None,
          });
          Some(json!(""))
        }
        "jobdone" => {
          call();
          s.on_job_completed(astro_run::JobRunResult {
            id: job_id(o["j"].as_str().unwrap()),
            state: astro_run::WorkflowState::Succeeded,
            started_at: None,
            completed_at: None,
            steps: vec![],
          });
          Some(json!(""))
        }
        _ => {
          call();
          let st = s.state.lock();
          let n = st.step_runners.len() + st.job_runners.len();
          let c: i64 = st.runs_count.values().map(|c| c.abs() as i64).sum();
          Some(json!(if n == 0 && c == 0 { "clean" } else { "left over" }))
        }
      },
    }
  }
}

fn block<F: Future>(f: F) -> F::Output {
  let clock = Arc::new(Clock::default());
  let w = waker(0, &clock);
  let mut f = Box::pin(f);
  for _ in 0..1000 {
    if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
      return v;
    }
    rt::thread::yield_now();
  }
  panic!("the scheduler does not answer")
}

fn run_ops(w: &World, th: usize, ops: &[Value], clock: &Arc<Clock>) -> Stamped {
  let mut out: Stamped = vec![];
  for o in ops {
    if o["op"] == "yield" {
      rt::thread::yield_now();
      continue;
    }
    let mut called = false;
    let (c, oo) = (clock.clone(), o.clone());
    let v = w.exec(o, clock, &mut || {
      called = true;
      out.push((c.at(), json!({"k": "call", "th": th, "o": oo.clone()})));
    });
    if called {
      out.push((clock.at(), json!({"k": "ret", "th": th, "v": v.unwrap()})));
    }
  }
  out
}

/// What is done by one thread after all others have ended.
fn finale(kind: &str) -> Vec<Value> {
  match kind {
    "stream" => vec![json!({"op": "result"}), json!({"op": "ended"})],
    "signal" => (1..4)
      .flat_map(|s| {
        vec![
          json!({"op": "is_cancelled", "sg": s}),
          json!({"op": "is_timeout", "sg": s}),
          json!({"op": "recv", "sg": s, "w": 900 + s}),
          json!({"op": "recv", "sg": s, "w": 910 + s}),
        ]
      })
      .chain((1..3).map(|j| json!({"op": "cancel_job", "j": j})))
      .collect(),
    _ => vec![json!({"op": "peek"})],
  }
}

/// One history: `prog[0]` is done first by one thread, the others at the same time.
pub fn history(kind: &str, prog: &[Vec<Value>]) -> Vec<Value> {
  let clock = Arc::new(Clock::default());
  let w = Arc::new(World::new(kind));
  // what thread 0 does before the others start and, after "then", once they have ended
  let cut = prog[0].iter().position(|o| o["op"] == "then").unwrap_or(prog[0].len());
  let mut all = run_ops(&w, 0, &prog[0][..cut], &clock);
  let go = rt::gate(prog.len() - 1);
  let hs: Vec<_> = prog[1..]
    .iter()
    .enumerate()
    .map(|(i, ops)| {
      let (w, ops, clock, go) = (w.clone(), ops.clone(), clock.clone(), go.clone());
      rt::thread::spawn(move || {
        rt::wait(&go);
        run_ops(&w, i + 1, &ops, &clock)
      })
    })
    .collect();
  for h in hs {
    all.extend(h.join().unwrap());
  }
  if cut < prog[0].len() {
    all.extend(run_ops(&w, 0, &prog[0][cut + 1..], &clock));
  }
  all.push((clock.at(), json!({"k": "joined"})));
  if kind == "stream" {
    for k in 0..5000u64 {
      let r = run_ops(&w, 0, &[json!({"op": "poll", "w": 1000 + k})], &clock);
      let stop = r[1].1["v"] == "P" || r[1].1["v"] == "N";
      all.extend(r);
      if stop {
        break;
      }
    }
  }
  all.extend(run_ops(&w, 0, &finale(kind), &clock));
  all.extend(clock.wakes.lock().unwrap().drain(..));
  all.sort_by_key(|x| x.0);
  let mut all: Vec<Value> = all.into_iter().map(|x| x.1).collect();
  if kind == "stream" {
    // where each line came out
    let mut at = std::collections::HashMap::new();
    let mut n = 0;
    for r in &all {
      if r["k"] == "ret" {
        if let Some(v) = r["v"].as_str().filter(|v| v.contains(':')) {
          n += 1;
          at.entry(v.to_string()).or_insert(n);
        }
      }
    }
    for r in &mut all {
      if r["o"]["op"] == "write" {
        let m = r["o"]["m"].as_str().unwrap().to_string();
        r["o"]["pos"] = json!(at.get(&m).copied().unwrap_or(0));
      }
    }
  }
  all
}

// ------------------------------------------------------------------ programs

fn results(r: &mut Rng) -> (String, u64) {
  match r.below(6) {
    0 => ("S".into(), r.below(2)),
    1 => ("C".into(), r.below(2)),
    2 => ("F123".into(), 2),
    3 => ("F0".into(), r.below(2)),
    _ => (format!("F{}", r.range(1, 300)), r.below(2)),
  }
}

pub fn program(kind: &str, r: &mut Rng) -> Vec<Vec<Value>> {
  match kind {
    "stream" => {
      let (mut n, mut w) = (0, 0);
      let mut write = |r: &mut Rng| {
        n += 1;
        json!({"op": "write", "m": format!("{}:{}", if r.chance(50) { "L" } else { "E" }, n)})
      };
      let end = |r: &mut Rng| {
        let (m, how) = results(r);
        json!({"op": "end", "m": m, "how": how})
      };
      let mut poll = |_: &mut Rng| {
        w += 1;
        json!({"op": "poll", "w": w})
      };
      let mut p = vec![vec![]];
      for _ in 0..r.below(3) {
        let o = if r.chance(60) { write(r) } else { poll(r) };
        p[0].push(o);
      }
      let producers = r.range(1, 3);
      let mut c = vec![];
      for _ in 0..r.range(1, 4) {
        c.push(match r.below(6) {
          0 => json!({"op": "result"}),
          1 => json!({"op": "ended"}),
          _ => poll(r),
        });
      }
      p.push(c);
      for _ in 0..producers {
        let mut t = vec![];
        for _ in 0..r.range(1, if producers > 2 { 2 } else { 3 }) {
          t.push(match r.below(7) {
            0..=3 => write(r),
            4 | 5 => end(r),
            _ => json!({"op": "ended"}),
          });
        }
        p.push(t);
      }
      p
    }
    "signal" => {
      let mut w = 0;
      let mut p = vec![vec![]];
      let nsig = r.range(1, 3);
      for j in 1..=2u64 {
        if r.chance(60) {
          p[0].push(json!({"op": "register", "j": j, "sg": r.range(1, nsig)}));
        }
      }
      let threads = r.range(2, 4);
      let reg = r.chance(50);
      for t in 0..threads {
        let mut ops = vec![];
        for _ in 0..r.range(1, if threads > 3 { 2 } else { 3 }) {
          let sg = r.range(1, nsig);
          let j = r.range(1, 2);
          let h = t.min(5) + 1;
          let o = match r.below(if reg { 11 } else { 7 }) {
            0 | 1 => json!({"op": "cancel", "sg": sg}),
            2 => json!({"op": "timeout", "sg": sg}),
            3 => json!({"op": "is_cancelled", "sg": sg}),
            4 => json!({"op": "is_timeout", "sg": sg}),
            5 | 6 => {
              w += 1;
              json!({"op": "recv", "sg": sg, "w": w})
            }
            7 => json!({"op": "register", "j": j, "sg": sg}),
            8 => json!({"op": "unregister", "j": j}),
            9 => json!({"op": "cancel_job", "j": j}),
            _ => {
              ops.push(json!({"op": "get", "j": j, "h": h}));
              json!({"op": r.pick(&["cancel", "timeout", "is_cancelled", "is_timeout"]), "sg": 0, "h": h})
            }
          };
          ops.push(o);
        }
        p.push(ops);
      }
      p
    }
    _ => sched_program(r),
  }
}

/// A long program: hundreds or thousands of operations by one or two threads.
#[allow(dead_code)]
pub fn big(kind: &str, r: &mut Rng) -> Vec<Vec<Value>> {
  match kind {
    "stream" => {
      let n = *r.pick(&[40u64, 150, 300, 1100, 2500]);
      let write = |r: &mut Rng, i: u64| {
        let m = format!("{}:{}", if r.chance(50) { "L" } else { "E" }, i);
        json!({"op": "write", "m": if r.chance(1) { format!("{}{}", m, "x".repeat(9000)) } else { m }})
      };
      let two = r.chance(50);
      let lag = *r.pick(&[0u64, 10, 45, 80]);
      let (mut a, mut b) = (vec![], vec![]);
      let mut w = 0;
      for i in 1..=n {
        a.push(write(r, i));
        while r.chance(lag) {
          w += 1;
          let q = if two { &mut b } else { &mut a };
          q.push(json!({"op": "poll", "w": w}));
          if r.chance(2) {
            q.push(json!({"op": *r.pick(&["result", "ended"])}));
          }
        }
      }
      let (m, how) = results(r);
      a.push(json!({"op": "end", "m": m, "how": how}));
      if two {
        vec![vec![], b, a]
      } else {
        vec![vec![], a]
      }
    }
    "signal" => {
      let mut t = vec![];
      for w in 1..=r.range(20, 400) {
        let (sg, j) = (r.range(1, 3), r.range(1, 2));
        t.push(match r.below(40) {
          0 => json!({"op": "cancel", "sg": sg}),
          1 => json!({"op": "timeout", "sg": sg}),
          2..=8 => json!({"op": "is_cancelled", "sg": sg}),
          9..=14 => json!({"op": "is_timeout", "sg": sg}),
          15..=24 => json!({"op": "recv", "sg": sg, "w": w}),
          25..=31 => json!({"op": "register", "j": j, "sg": sg}),
          32..=35 => json!({"op": "unregister", "j": j}),
          36 => json!({"op": "cancel_job", "j": j}),
          _ => json!({"op": "get", "j": j, "h": r.range(1, 6)}),
        });
      }
      vec![vec![], t]
    }
    _ => {
      // many runners, many jobs at once
      let rs: Vec<Value> = (1..=r.range(2, 20)).map(|i| runner(r, i)).collect();
      let mut t = vec![];
      let mut open: Vec<(u64, u64)> = vec![];
      let mut next = vec![0u64; 31];
      let mut live: Vec<u64> = vec![];
      let grow = r.range(40, 70);
      for _ in 0..r.range(50, 400) {
        if r.chance(grow) {
          let j = r.range(1, 30);
          let k = next[j as usize];
          next[j as usize] += 1;
          if !live.contains(&j) {
            live.push(j);
          }
          open.push((j, k));
          t.push(schedule(r, &rs, &format!("w/j{}/{}", j, k), j));
        } else if !open.is_empty() && r.chance(85) {
          let i = r.below(open.len() as u64) as usize;
          let (j, k) = open.remove(i);
          t.push(json!({"op": "stepdone", "st": format!("w/j{}/{}", j, k)}));
        } else if let Some(j) = live.iter().copied().find(|j| !open.iter().any(|o| o.0 == *j)) {
          live.retain(|x| *x != j);
          t.push(json!({"op": "jobdone", "j": format!("w/j{}", j)}));
        }
      }
      for (j, k) in open {
        t.push(json!({"op": "stepdone", "st": format!("w/j{}/{}", j, k)}));
      }
      for j in live {
        t.push(json!({"op": "jobdone", "j": format!("w/j{}", j)}));
      }
      vec![vec![], t]
    }
  }
}

fn runner(r: &mut Rng, i: u64) -> Value {
  json!({"id": format!("r{}", i), "os": *r.pick(&["linux", "linux", "macos", "windows"]),
         "arch": *r.pick(&["x86_64", "aarch64"]), "d": r.chance(75), "h": r.chance(60), "max": r.range(1, 5)})
}

/// One job per thread, its steps one after the other, as the engine does.
fn sched_program(r: &mut Rng) -> Vec<Vec<Value>> {
  let threads = r.range(1, 4);
  let n = if threads == 1 { r.range(0, 5) } else { r.range(2, 4) };
  let mut rs: Vec<Value> = (1..=n).map(|i| runner(r, i)).collect();
  if threads > 1 {
    for x in &mut rs {
      if r.chance(70) {
        x["d"] = json!(true);
      }
    }
  }
  let mut p = vec![vec![]];
  let long = threads == 1;
  if long {
    // one thread, any order of operations of several jobs
    let mut t: Vec<Value> = vec![];
    let jobs: Vec<u64> = (1..=r.range(1, 5)).collect();
    let mut open: Vec<String> = vec![];
    let mut steps = vec![0u64; 8];
    let mut live: Vec<u64> = vec![];
    let mut gone: Vec<u64> = vec![];
    for _ in 0..r.range(4, 40) {
      let j = *r.pick(&jobs);
      if gone.contains(&j) {
        continue;
      }
      match r.below(10) {
        0..=4 => {
          let st = format!("w/j{}/{}", j, steps[j as usize]);
          steps[j as usize] += 1;
          if !live.contains(&j) {
            live.push(j);
          }
          open.push(st.clone());
          t.push(schedule(r, &rs, &st, j));
        }
        5..=7 => {
          if !open.is_empty() {
            let k = r.below(open.len() as u64) as usize;
            let st = open.remove(k);
            t.push(json!({"op": "stepdone", "st": st}));
            if r.chance(10) {
              t.push(json!({"op": "stepdone", "st": st}));
            }
          }
        }
        8 => {
          let mine = format!("w/j{}/", j);
          if !open.iter().any(|s| s.starts_with(&mine)) {
            gone.push(j);
            live.retain(|x| *x != j);
            t.push(json!({"op": "jobdone", "j": format!("w/j{}", j)}));
          }
        }
        _ => t.push(json!({"op": "stepdone", "st": "w/j9/9"})),
      }
    }
    for st in open {
      t.push(json!({"op": "stepdone", "st": st}));
    }
    for j in live {
      t.push(json!({"op": "jobdone", "j": format!("w/j{}", j)}));
    }
    p.push(t);
    return p;
  }
  let late = r.chance(60);
  let mut after = vec![json!({"op": "then"})];
  for j in 1..=threads {
    let mut t = vec![];
    for k in 0..r.range(1, if threads > 2 { 1 } else { 2 }) {
      let st = format!("w/j{}/{}", j, k);
      t.push(schedule(r, &rs, &st, j));
      let done = json!({"op": "stepdone", "st": st});
      if late {
        after.push(done);
      } else {
        t.push(done);
      }
    }
    let done = json!({"op": "jobdone", "j": format!("w/j{}", j)});
    if late {
      after.push(done);
    } else {
      t.push(done);
    }
    p.push(t);
  }
  p[0].extend(after);
  p
}

fn schedule(r: &mut Rng, rs: &[Value], st: &str, j: u64) -> Value {
  let mut rs: Vec<Value> = rs.to_vec();
  if !rs.is_empty() && r.chance(15) {
    // one of the runners is away
    let k = r.below(rs.len() as u64) as usize;
    rs.remove(k);
  }
  if r.chance(30) {
    rs.reverse();
  }
  let (c, host, sys) = match r.below(10) {
    0..=3 => (String::new(), false, String::new()),
    4 => ((*r.pick(&["ubuntu", "host", "hosts/linux", "my/host/linux", "Host/linux"])).to_string(), false, String::new()),
    _ => {
      let s = if r.chance(8) {
        (*r.pick(&["", "linux-", "plan9", "linux-x86", "Linux"])).to_string()
      } else {
        let os = *r.pick(&["linux", "linux", "macos", "windows"]);
        if r.chance(50) { os.to_string() } else { format!("{}-{}", os, r.pick(&["x86_64", "aarch64"])) }
      };
      if r.chance(40) { (String::new(), false, String::new()) } else { (format!("host/{}", s), true, s) }
    }
  };
  json!({"op": "schedule", "st": st, "j": format!("w/j{}", j), "rs": rs, "c": c, "host": host, "sys": sys})
}

/// Output of one history as records of trace `tr`; identical histories of a program are left out.
pub struct Out {
  pub tr: u64,
  pub lines: Vec<String>,
  pub seen: std::collections::HashSet<u64>,
  pub runs: u64,
}

impl Out {
  pub fn new() -> Self {
    Out { tr: 0, lines: vec![], seen: Default::default(), runs: 0 }
  }
  pub fn add(&mut self, h: Vec<Value>) {
    use std::hash::{Hash, Hasher};
    self.runs += 1;
    let text: Vec<String> = h.iter().map(|x| x.to_string()).collect();
    let mut hs = std::collections::hash_map::DefaultHasher::new();
    text.hash(&mut hs);
    if !self.seen.insert(hs.finish()) {
      return;
    }
    self.tr += 1;
    let tr = self.tr;
    self.lines.push(format!("{{\"tr\":{},\"k\":\"new\"}}", tr));
    for t in text {
      self.lines.push(format!("{{\"tr\":{},{}", tr, &t[1..]));
    }
  }
}
