//! The engine suite: runs whole workflows on the real engine, with scripted runners and observers
//! whose every hook can be held and released, in an order chosen by the controller (random or a
//! schedule produced by TLC), under virtual time; records everything for EngineTrace.tla.
use crate::util::*;
use astro_run::*;
use parking_lot::Mutex;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::oneshot;

pub struct Gate {
  pub kind: String,
  pub e: String,
  pub a: String,
  pub r: String,
  pub tx: oneshot::Sender<bool>,
}

pub struct StepRt {
  pub sender: StreamSender,
  pub accepted: bool,
  pub ended: bool,
  pub nlog: usize,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
  /// hooks are held with this probability (percent) until the controller releases them
  Gated(u64),
  /// everything runs by itself, on several threads, with random small pauses
  Free,
  /// hooks of the kinds in `gate`, and the acceptance of steps, are held: driven by a schedule
  Schedule,
}

#[derive(Clone, Default)]
pub struct Observer {
  /// kinds of notification this observer fails on
  pub err: HashSet<String>,
  /// what it does to steps in its before-run hook
  pub before: HashMap<String, String>,
}

pub struct Shared {
  pub rec: Recorder,
  pub gates: Mutex<Vec<Gate>>,
  pub steps: Mutex<BTreeMap<String, StepRt>>,
  pub mode: Mode,
  pub rng: Mutex<Rng>,
  pub observers: HashMap<String, Observer>,
  pub refuse: HashSet<String>,
  /// steps on which the runner acts before it returns from `run`
  pub scripts: HashMap<String, Vec<Value>>,
  pub drain: Mutex<bool>,
  pub gate: HashSet<String>,
  /// the next notification of this kind is held
  pub once: Mutex<String>,
  /// the signals of the steps
  pub signals: Mutex<HashMap<String, AstroRunSignal>>,
}

impl Shared {
  /// The signal a step has been given.
  fn signal(&self, e: &str) -> &'static str {
    match self.signals.lock().get(e) {
      Some(s) if s.is_cancelled() => "cancel",
      Some(s) if s.is_timeout() => "timeout",
      Some(_) => "none",
      None => "?",
    }
  }

  async fn hold(&self, kind: &str, e: &str, a: &str, r: &str) -> bool {
    let once = {
      let mut once = self.once.lock();
      let hit = *once == kind;
      if hit {
        once.clear();
      }
      hit
    };
    match self.mode {
      Mode::Gated(_) | Mode::Schedule => {
        let held = !*self.drain.lock()
          && match self.mode {
            Mode::Gated(p) => once || (p > 0 && self.rng.lock().chance(p)),
            _ => kind == "st.exec" || self.gate.contains(kind),
          };
        if held {
          let (tx, rx) = oneshot::channel();
          self.gates.lock().push(Gate {
            kind: kind.into(),
            e: e.into(),
            a: a.into(),
            r: r.into(),
            tx,
          });
          rx.await.unwrap_or(true)
        } else {
          true
        }
      }
      Mode::Free => {
        let n = self.rng.lock().below(6);
        match n {
          0 => tokio::time::sleep(Duration::from_micros(300)).await,
          1 | 2 => tokio::task::yield_now().await,
          _ => {}
        }
        true
      }
    }
  }

  async fn deliver(&self, kind: &str, e: String, a: &str, r: &str, c: String, extra: Value) -> HookNoopResult {
    let mut v = json!({"k": kind, "e": e, "a": a, "r": r, "c": c});
    merge(&mut v, extra);
    self.rec.push(v);
    if self.rec.full() {
      std::future::pending::<()>().await;
    }
    self.hold(kind, &e, a, r).await;
    let fails = self.observers.get(r).map(|o| o.err.contains(kind)).unwrap_or(false);
    self.rec.push(json!({"k": "x.rel", "of": kind, "e": e, "r": r, "ok": !fails}));
    if fails {
      Err(Error::error("observer fails"))
    } else {
      Ok(())
    }
  }

  async fn before(&self, step: Step, r: &str) -> HookBeforeRunStepResult {
    let e = self.rec.id(&step.id);
    let (b, to) = step_body(&step);
    self.rec.push(json!({"k": "st.before", "e": e, "a": "", "r": r, "c": "", "body": b, "to": to}));
    self.hold("st.before", &e, "", r).await;
    self.change(step, r)
  }

  /// What the observer does to the step.
  fn change(&self, step: Step, r: &str) -> HookBeforeRunStepResult {
    let e = self.rec.id(&step.id);
    let op = self.observers.get(r).and_then(|o| o.before.get(&e)).cloned().unwrap_or_default();
    let fails = op == "err";
    let mut out = step.clone();
    match op.as_str() {
      "run" => out.run = format!("{} #{}", out.run, r),
      "name" => out.name = Some(format!("{}+{}", out.name.unwrap_or_default(), r)),
      "env" => {
        out.environments.insert(format!("BY_{}", r), format!("v-{}", r).into());
      }
      "secret" => out.secrets.push(format!("S-{}", r)),
      "timeout" => out.timeout = Duration::from_secs(7),
      "container" => {
        out.container = Some(ContainerOptions {
          name: format!("img-{}", r),
          volumes: Some(vec!["/a:/b".into()]),
          security_opts: None,
        })
      }
      "coe" => out.continue_on_error = !out.continue_on_error,
      "bare" => {
        out.name = None;
        out.container = None;
        out.environments.clear();
        out.secrets.clear();
      }
      "empty" => {
        out.run = String::new();
        out.name = Some(String::new());
        out.secrets.push(String::new());
        out.secrets.push(String::new());
        out.environments.insert("EMPTY".into(), String::new().into());
        out.environments.insert("NO".into(), astro_run::EnvironmentVariable::Boolean(false));
      }
      _ => {}
    }
    let (b, to) = step_body(if fails { &step } else { &out });
    self.rec.push(json!({"k": "x.rel", "of": "st.before", "e": e, "r": r, "ok": !fails, "body": b, "to": to}));
    if fails {
      Err(Error::error("observer fails"))
    } else {
      Ok(out)
    }
  }

  /// A notification to an observer that only has plain functions.
  fn deliver_now(&self, kind: &str, e: String, a: &str, r: &str, c: String, extra: Value) -> HookNoopResult {
    let mut v = json!({"k": kind, "e": e, "a": a, "r": r, "c": c});
    merge(&mut v, extra);
    self.rec.push(v);
    let fails = self.observers.get(r).map(|o| o.err.contains(kind)).unwrap_or(false);
    self.rec.push(json!({"k": "x.rel", "of": kind, "e": e, "r": r, "ok": !fails}));
    if fails {
      Err(Error::error("observer fails"))
    } else {
      Ok(())
    }
  }

  /// The job that is announced; what its task does from now on belongs to the run with this payload.
  fn job_started(&self, event: &RunJobEvent) -> String {
    self.rec.belongs_by(&payload_canon(&event.payload));
    self.rec.id(&event.source.id)
  }

  fn line(&self, e: &str, sender: &StreamSender, ty: &str, m: String) {
    self.rec.push(json!({"k": "x.log", "e": e, "ty": ty, "m": m}));
    if ty == "error" {
      sender.error(m)
    } else {
      sender.log(m)
    }
  }

  fn end(&self, e: &str, sender: &StreamSender, a: &str, code: i32) {
    let c = if a == "failed" { code } else { -999 };
    self.rec.push(json!({"k": "x.end", "e": e, "a": a, "code": c}));
    match a {
      "failed" if code == 123 => sender.timeout(),
      "failed" => sender.failed(code),
      "cancelled" => sender.cancelled(),
      _ => sender.succeeded(),
    }
  }
}

pub fn merge(v: &mut Value, extra: Value) {
  if let Value::Object(m) = extra {
    for (k, x) in m {
      v[k] = x;
    }
  }
}

fn pl_canon(p: &Option<String>) -> String {
  match p {
    None => String::new(),
    Some(p) => match serde_json::from_str::<Value>(p) {
      Ok(v) => v.to_string(),
      Err(_) => p.clone(),
    },
  }
}
fn payload_canon(p: &Option<ContextPayload>) -> String {
  match p {
    None => String::new(),
    Some(p) => canon(p),
  }
}

fn run_extra<T: Clone>(e: &RunEvent<T>) -> Value {
  json!({"ev": event_text(&e.trigger_event), "pl": payload_canon(&e.payload)})
}

fn state_parts(rec: &Recorder, e: &WorkflowStateEvent) -> (&'static str, String, &'static str) {
  match e {
    WorkflowStateEvent::WorkflowStateUpdated { id, state } => ("wf.state", rec.id(id), state_name(state)),
    WorkflowStateEvent::JobStateUpdated { id, state } => ("job.state", rec.id(id), state_name(state)),
    WorkflowStateEvent::StepStateUpdated { id, state } => ("st.state", rec.id(id), state_name(state)),
  }
}

macro_rules! observer {
  ($t:ident for $ty:ty { $($extra:tt)* }) => {
    #[astro_run::async_trait]
    impl $t for $ty {
    $($extra)*
    async fn on_run_workflow(&self, event: RunWorkflowEvent) -> HookNoopResult {
      let s = &self.s;
      s.deliver("wf.run", s.rec.id(&event.source.id), "", &self.r, canon(&event.source), run_extra(&event)).await
    }
    async fn on_run_job(&self, event: RunJobEvent) -> HookNoopResult {
      let s = &self.s;
      s.deliver("job.run", s.job_started(&event), "", &self.r, canon(&event.source), run_extra(&event)).await
    }
    async fn on_run_step(&self, event: RunStepEvent) -> HookNoopResult {
      let s = &self.s;
      let (b, to) = step_body(&event.source);
      let mut x = run_extra(&event);
      merge(&mut x, json!({"body": b, "to": to}));
      s.deliver("st.run", s.rec.id(&event.source.id), "", &self.r, canon(&event.source), x).await
    }
    async fn on_before_run_step(&self, step: Step) -> HookBeforeRunStepResult {
      self.s.before(step, &self.r).await
    }
    async fn on_state_change(&self, event: WorkflowStateEvent) -> HookNoopResult {
      let (k, e, a) = state_parts(&self.s.rec, &event);
      self.s.deliver(k, e, a, &self.r, canon(&event), json!({})).await
    }
    async fn on_log(&self, log: WorkflowLog) -> HookNoopResult {
      let ty = if log.is_error() { "error" } else { "log" };
      let e = self.s.rec.id(&log.step_id);
      let x = json!({"ty": ty, "m": log.message.clone(), "sg": self.s.signal(&e)});
      self.s.deliver("st.log", e, "", &self.r, canon(&log), x).await
    }
    async fn on_step_completed(&self, result: StepRunResult) -> HookNoopResult {
      let x = json!({"res": self.s.rec.step_result(&result)});
      self.s.deliver("st.done", self.s.rec.id(&result.id), "", &self.r, canon(&result), x).await
    }
    async fn on_job_completed(&self, result: JobRunResult) -> HookNoopResult {
      let x = json!({"res": self.s.rec.job_result(&result)});
      self.s.deliver("job.done", self.s.rec.id(&result.id), "", &self.r, canon(&result), x).await
    }
    async fn on_workflow_completed(&self, result: WorkflowRunResult) -> HookNoopResult {
      let (res, jobs) = self.s.rec.wf_result(&result);
      self.s.deliver("wf.done", self.s.rec.id(&result.id), "", &self.r, canon(&result), json!({"res": res, "jobs": jobs})).await
    }
    }
  };
}

pub struct VPlugin {
  pub s: Arc<Shared>,
  pub r: String,
}

observer!(Plugin for VPlugin {
  fn name(&self) -> &'static str {
    "observer"
  }
});

/// The same observer, made of functions.
fn built(s: &Arc<Shared>, r: &str) -> AstroRunPlugin {
  macro_rules! with {
    ($x:ident, $s:ident, $r:ident => $e:expr) => {{
      let ($s, $r) = (s.clone(), r.to_string());
      move |$x| $e
    }};
  }
  AstroRunPlugin::builder("observer")
    .on_run_workflow(with!(event, s, r => {
      s.deliver_now("wf.run", s.rec.id(&event.source.id), "", &r, canon(&event.source), run_extra(&event))
    }))
    .on_run_job(with!(event, s, r => {
      s.deliver_now("job.run", s.job_started(&event), "", &r, canon(&event.source), run_extra(&event))
    }))
    .on_run_step(with!(event, s, r => {
      let (b, to) = step_body(&event.source);
      let mut x = run_extra(&event);
      merge(&mut x, json!({"body": b, "to": to}));
      s.deliver_now("st.run", s.rec.id(&event.source.id), "", &r, canon(&event.source), x)
    }))
    .on_before_run_step(with!(step, s, r => {
      let step: Step = step;
      let (b, to) = step_body(&step);
      s.rec.push(json!({"k": "st.before", "e": s.rec.id(&step.id), "a": "", "r": r, "c": "", "body": b, "to": to}));
      s.change(step, &r)
    }))
    .on_state_change(with!(event, s, r => {
      let (k, e, a) = state_parts(&s.rec, &event);
      s.deliver_now(k, e, a, &r, canon(&event), json!({}))
    }))
    .on_log(with!(log, s, r => {
      let log: WorkflowLog = log;
      let ty = if log.is_error() { "error" } else { "log" };
      let e = s.rec.id(&log.step_id);
      let x = json!({"ty": ty, "m": log.message.clone(), "sg": s.signal(&e)});
      s.deliver_now("st.log", e, "", &r, canon(&log), x)
    }))
    .on_step_completed(with!(result, s, r => {
      let x = json!({"res": s.rec.step_result(&result)});
      s.deliver_now("st.done", s.rec.id(&result.id), "", &r, canon(&result), x)
    }))
    .on_job_completed(with!(result, s, r => {
      let x = json!({"res": s.rec.job_result(&result)});
      s.deliver_now("job.done", s.rec.id(&result.id), "", &r, canon(&result), x)
    }))
    .on_workflow_completed(with!(result, s, r => {
      let (res, jobs) = s.rec.wf_result(&result);
      s.deliver_now("wf.done", s.rec.id(&result.id), "", &r, canon(&result), json!({"res": res, "jobs": jobs}))
    }))
    .build()
}

#[derive(Clone)]
pub struct VRunner {
  pub s: Arc<Shared>,
  pub r: String,
}

observer!(Runner for VRunner {
  async fn run(&self, ctx: Context) -> RunResponse {
    let s = self.s.clone();
    let e = s.rec.id(&ctx.command.id);
    let b = body(&ctx.command);
    let to = ctx.command.timeout.as_millis() as i64;
    s.rec.push(json!({
      "k": "st.exec", "e": e, "a": "", "id": s.rec.id(&ctx.id), "body": b, "to": to,
      "ev": event_text(&ctx.event), "pl": pl_canon(&ctx.payload),
    }));
    if s.rec.full() {
      std::future::pending::<()>().await;
    }
    let refuse = s.refuse.contains(&e);
    s.signals.lock().insert(e.clone(), ctx.signal.clone());
    let (sender, receiver) = stream();
    if !refuse {
      s.steps.lock().insert(
        e.clone(),
        StepRt { sender: sender.clone(), accepted: false, ended: false, nlog: 0 },
      );
      let s2 = s.clone();
      let e2 = e.clone();
      let signal = ctx.signal.clone();
      tokio::spawn(async move {
        let sig = signal.recv().await;
        s2.rec.push(json!({"k": "x.sig", "e": e2, "a": sig.to_string()}));
      });
    }
    s.hold("st.exec", &e, "", "r").await;
    if s.mode == Mode::Free && !refuse {
      let script = s.scripts.get(&e).cloned().unwrap_or_default();
      let s2 = s.clone();
      let e2 = e.clone();
      let early = s.rng.lock().chance(20);
      let job = async move {
        for a in script {
          match a["k"].as_str().unwrap() {
            "log" => s2.line(&e2, &sender, a["ty"].as_str().unwrap(), a["m"].as_str().unwrap().into()),
            "end" => s2.end(&e2, &sender, a["a"].as_str().unwrap(), a["code"].as_i64().unwrap() as i32),
            "pause" => tokio::time::sleep(Duration::from_micros(a["us"].as_u64().unwrap())).await,
            _ => {}
          }
        }
      };
      if early {
        job.await;
      } else {
        tokio::spawn(job);
      }
    }
    if let Some(st) = s.steps.lock().get_mut(&e) {
      st.accepted = true;
    }
    s.rec.push(json!({"k": "x.acc", "e": e, "ok": !refuse}));
    if refuse {
      Err(Error::error("runner refuses the step"))
    } else {
      Ok(receiver)
    }
  }
});

// ------------------------------------------------------------------ scenarios

/// Generates a random scenario. `fam` selects what it concentrates on.
pub fn scenario(seed: u64, fam: &str) -> Value {
  let mut g = Rng::new(seed);
  let wide = fam == "wide" || fam == "freewide";
  let free = fam.starts_with("free");
  let nw = match fam {
    "deps" | "wide" | "freewide" | "long" => 1 + (g.chance(20) as u64),
    _ => 1 + (g.chance(35) as u64) + (g.chance(8) as u64),
  };
  let odd = [
    "build", "build-1", "a b", "é", "build.x", "0", "w1", "_", "Build", "深い", "job:1", "-", "a\"b", "null", "true", "build-1-0", "..",
  ];
  let is_odd = g.chance(20);
  let keys: Vec<String> = (0..40u8)
    .map(|i| {
      if is_odd && (i as usize) < odd.len() {
        return odd[i as usize].to_string();
      }
      let c = (b'a' + i % 26) as char;
      if i < 26 {
        c.to_string()
      } else {
        format!("{}{}", c, c)
      }
    })
    .collect();
  let mut wfs = vec![];
  for w in 0..nw {
    let nj = match fam {
      "deps" => g.range(2, 6),
      "steps" | "logs" | "chatty" | "long" | "bulk" | "freebulk" => g.range(1, 2),
      "wide" => g.range(7, 24),
      "freewide" => g.range(7, 40),
      "free" => g.range(1, 5),
      _ => g.range(1, 3),
    } as usize;
    let mut order: Vec<usize> = (0..nj).collect();
    for i in (1..nj).rev() {
      order.swap(i, g.below(i as u64 + 1) as usize);
    }
    let density = if wide { *g.pick(&[0, 3, 10, 40]) } else { *g.pick(&[10, 35, 60, 85]) };
    // one job that all others wait for, one that waits for all others, or a chain
    let shape = if wide || g.chance(10) { g.below(6) } else { 9 };
    let mut jobs = vec![];
    for (pos, &ji) in order.iter().enumerate() {
      let mut deps = vec![];
      for (dpos, &d) in order[..pos].iter().enumerate() {
        let always = match shape {
          0 => dpos == 0,
          1 => pos + 1 == nj,
          2 => dpos + 1 == pos,
          3 => (dpos == 0) != (pos + 1 == nj),
          _ => false,
        };
        if always || (shape > 3 && g.chance(density)) {
          deps.push(keys[d].clone());
        }
      }
      let ns = match fam {
        "deps" => g.range(1, 2),
        "steps" => g.range(2, 5),
        "long" => g.range(6, 30),
        "logs" | "bulk" | "freebulk" => g.range(1, 2),
        "wide" | "freewide" => *g.pick(&[1, 1, 1, 2]),
        "cancel" => g.range(1, 4),
        _ => g.range(1, 3),
      };
      let mut steps = vec![];
      for i in 0..ns {
        let mut st = json!({"run": format!("cmd-{}-{}", keys[ji], i)});
        if g.chance(if fam == "steps" { 45 } else { 25 }) {
          st["continue-on-error"] = json!(g.chance(85));
        }
        let to = match fam {
          "timeout" | "chatty" => *g.pick(&[1000i64, 2000, 3000, 5000, 8000, 250, 700, 1500, 2250, 90000, 0]),
          _ if free => *g.pick(&[-1i64, -1, 300000]),
          _ => *g.pick(&[-1i64, -1, -1, 3000, 20000, 5400000, 1728000000]),
        };
        if to >= 0 {
          st["timeout"] = json!(match (to % 1000, to % 60000) {
            (_, 0) => format!("{}m", to / 60000),
            (0, _) if to > 60000 => format!("{}m {}s", to / 60000, to / 1000 % 60),
            (0, _) => format!("{}s", to / 1000),
            _ if to > 1000 && g.chance(50) => format!("{}s {}ms", to / 1000, to % 1000),
            _ => format!("{}ms", to),
          });
          st["x-to"] = json!(to);
        }
        if g.chance(30) {
          st["name"] = json!(format!("step {} of {}", i, keys[ji]));
        }
        if g.chance(30) {
          st["environments"] = json!({"A": "x y", "N": 1.5, "B": true});
        }
        if g.chance(20) {
          st["secrets"] = if g.chance(75) { json!(["TOKEN", "K2"]) } else { json!(["", "TOKEN", "TOKEN", "b"]) };
        }
        if g.chance(25) {
          st["container"] = json!({"name": "img", "volumes": ["/v:/v"], "security-opts": ["o=1"]});
        } else if g.chance(25) {
          st["container"] = json!("host/linux");
        }
        steps.push(st);
      }
      let mut job = json!({"steps": steps, "key": keys[ji]});
      if !deps.is_empty() && (ns + pos as u64) % 5 == 0 {
        deps.push(deps[0].clone()); // said twice
      }
      if !deps.is_empty() {
        job["depends-on"] = json!(deps);
      }
      if g.chance(30) {
        job["name"] = json!(format!("job {}", keys[ji]));
      }
      jobs.push(job);
    }
    wfs.push(json!({
      "id": format!("w{}", w + 1),
      "jobs": jobs,
      "event": if g.chance(50) { if g.chance(70) { json!(true) } else { odd_event(&mut g) } } else { json!(false) },
      "payload": g.chance(50),
      "text": if g.chance(15) { json!(*g.pick(&["", " ", "é\n\"\\"])) } else { json!(false) },
    }));
  }
  conditions(&mut g.clone(), &mut wfs);
  let twins = fam.ends_with("twins");
  if twins {
    // the same workflow, several times
    let w = wfs[0].clone();
    wfs = (1..=g.range(2, 4))
      .map(|k| {
        let mut w = w.clone();
        w["id"] = json!(format!("w1~{}", k));
        w["payload"] = json!(true);
        w
      })
      .collect();
  }
  let nplug = match fam {
    "plugins" => *g.pick(&[1, 2, 3, 3, 5, 8]),
    "wide" | "freewide" | "chatty" | "bulk" | "freebulk" | "long" => *g.pick(&[0, 1, 1]),
    _ => *g.pick(&[0, 1, 1, 2]),
  };
  let kinds = [
    "wf.run", "wf.state", "wf.done", "job.run", "job.state", "job.done", "st.run", "st.state", "st.log", "st.done",
  ];
  let ops = ["run", "name", "env", "secret", "timeout", "container", "coe", "err", "bare", "empty"];
  let mut obs = serde_json::Map::new();
  let mut rec: Vec<String> = (1..=nplug).map(|i| format!("p{}", i)).collect();
  rec.push("r".into());
  for r in &rec {
    let mut err = vec![];
    let heavy = g.chance(if fam == "plugins" { 50 } else { 20 });
    for k in kinds {
      if heavy && g.chance(40) {
        err.push(k);
      }
    }
    let mut before = serde_json::Map::new();
    let touch = g.chance(if fam == "plugins" { 80 } else { 30 });
    for w in &wfs {
      for j in w["jobs"].as_array().unwrap() {
        for i in 0..j["steps"].as_array().unwrap().len() {
          if touch && g.chance(60) {
            let id = format!("{}/{}/{}", w["id"].as_str().unwrap(), j["key"].as_str().unwrap(), i);
            before.insert(id, json!(*g.pick(&ops)));
          }
        }
      }
    }
    obs.insert(r.clone(), json!({"err": err, "before": before}));
  }
  let mut refuse = vec![];
  let mut scripts = serde_json::Map::new();
  for w in &wfs {
    for j in w["jobs"].as_array().unwrap() {
      for i in 0..j["steps"].as_array().unwrap().len() {
        let id = format!("{}/{}/{}", w["id"].as_str().unwrap(), j["key"].as_str().unwrap(), i);
        if g.chance(7) {
          refuse.push(id.clone());
        }
        if free {
          let mut sc = vec![];
          let lines = if fam == "freebulk" { g.range(200, 700) } else { g.below(if wide { 2 } else { 8 }) };
          for n in 0..lines {
            let (ty, m) = random_line(&mut g, n as usize);
            sc.push(json!({"k": "log", "ty": ty, "m": m}));
            if g.chance(if lines > 100 { 1 } else { 20 }) {
              sc.push(json!({"k": "pause", "us": g.below(800)}));
            }
          }
          let (a, code) = random_end(&mut g);
          sc.push(json!({"k": "end", "a": a, "code": code}));
          scripts.insert(id, json!(sc));
        }
      }
    }
  }
  let sync: Vec<&String> = rec.iter().filter(|_| g.chance(25)).collect();
  json!({
    "seed": seed, "fam": fam, "token": if seed % 5 < 3 && !twins { json!("good") } else { Value::Null }, "rec": rec, "sync": sync, "wfs": wfs, "obs": obs, "refuse": refuse, "scripts": scripts,
    "gated": if free { -1 } else if fam == "chatty" { 0 } else { *g.pick(&[0i64, 15, 50, 90, 100]) },
  })
}

/// A trigger event with little in it, or much.
fn odd_event(g: &mut Rng) -> Value {
  let mut t = |l: &[&str]| json!(*g.pick(l));
  let mut e = json!({
    "event": t(&["push", "pull_request", "", "release"]),
    "repo_owner": t(&["", "o", "ö w"]),
    "repo_name": t(&["", "r"]),
    "sha": t(&["", "0", "sha \" x"]),
    "branch": t(&["", "féature/x", "main"]),
    "ref_name": t(&["", "refs/tags/v1"]),
  });
  e["pr_number"] = g.pick(&[json!(0), json!(1), json!(-1), json!(i64::MAX), Value::Null]).clone();
  e
}

/// Puts conditions on some of the workflows, jobs and steps; "x-match" tells what they say about the run's event.
fn conditions(g: &mut Rng, wfs: &mut [Value]) {
  if !g.chance(60) {
    return;
  }
  for w in wfs.iter_mut() {
    if g.chance(70) || w["event"].is_object() {
      w["event"] = json!(true);
    }
    let pull = g.chance(25);
    let kind = if pull { "pull_request" } else { "push" };
    if pull && w["event"] == true {
      w["event"] = json!("pull_request");
    }
    let (wp, jp, sp) = (*g.pick(&[0, 0, 5, 30]), *g.pick(&[0, 20, 50]), *g.pick(&[0, 20, 50]));
    let mut put = |g: &mut Rng, v: &mut Value, p: u64, often: u64| {
      if g.chance(p) {
        let m = g.chance(often);
        v["x-match"] = json!(m);
        v["on"] = if m {
          match g.below(4) {
            0 => json!([kind, "other"]),
            1 => json!({kind: {}}),
            2 => json!({kind: {"branches": ["dev", "ma*"]}}),
            _ => json!({kind: {"branches": ["main"], "paths": ["x", "src/**"]}}),
          }
        } else {
          match g.below(4) {
            0 => json!(["release"]),
            1 => json!({if pull { "push" } else { "pull_request" }: {}}),
            2 => json!({kind: {"branches": ["dev"]}}),
            _ => json!({kind: {"branches": ["main"], "paths": ["src/*.py"]}}),
          }
        };
      }
    };
    put(g, w, wp, 50);
    for j in w["jobs"].as_array_mut().unwrap() {
      put(g, j, jp, 40);
      for s in j["steps"].as_array_mut().unwrap() {
        put(g, s, sp, 40);
      }
    }
  }
}

/// Does the workflow have a condition anywhere?
fn conditional(w: &Value) -> bool {
  let on = |v: &Value| !v["on"].is_null();
  on(w) || w["jobs"].as_array().unwrap().iter().any(|j| on(j) || j["steps"].as_array().unwrap().iter().any(on))
}

pub fn random_line(g: &mut Rng, n: usize) -> (&'static str, String) {
  let ty = if g.chance(35) { "error" } else { "log" };
  let m = match if g.chance(2) { 9 } else { g.below(9) } {
    9 => "z".repeat(70000),
    0 => String::new(),
    1 => "same line".to_string(),
    2 => format!("  spaced {}\t", n),
    3 => format!("ünïcode-{}", n),
    4 => format!("{{\"json\": \"{}\"}}", n),
    5 => "y".repeat(1200),
    _ => format!("line {}", n),
  };
  (ty, m)
}

pub fn random_end(g: &mut Rng) -> (&'static str, i32) {
  match g.below(10) {
    0..=4 => ("succeeded", 0),
    5 | 6 => ("failed", *g.pick(&[1, 2, 127, 255, -1, 0])),
    7 => ("failed", 123),
    _ => ("cancelled", 0),
  }
}

/// Removes what only the specification is told ("x-…").
fn plain(v: &mut Value) {
  match v {
    Value::Object(m) => {
      m.retain(|k, _| !k.starts_with("x-"));
      m.values_mut().for_each(plain);
    }
    Value::Array(a) => a.iter_mut().for_each(plain),
    _ => {}
  }
}

pub fn wf_yaml(w: &Value) -> String {
  let mut jobs = serde_json::Map::new();
  for j in w["jobs"].as_array().unwrap() {
    let mut x = j.clone();
    let key = x["key"].as_str().unwrap().to_string();
    plain(&mut x);
    x.as_object_mut().unwrap().remove("key");
    jobs.insert(key, x);
  }
  let mut doc = json!({ "jobs": jobs });
  if !w["on"].is_null() {
    doc["on"] = w["on"].clone();
  }
  if !w["name"].is_null() {
    doc["name"] = w["name"].clone();
  }
  serde_yaml::to_string(&doc).unwrap()
}

fn strs(v: &Value) -> Vec<String> {
  v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}

fn parse_to(st: &Value) -> i64 {
  match (st["x-to"].as_i64(), st["timeout"].as_str()) {
    (Some(ms), _) => ms,
    (_, None) => 3600000,
    (_, Some(s)) => s.trim_end_matches('s').parse::<i64>().unwrap() * 1000,
  }
}

/// The configuration record for the specification, from the scenario.
pub fn config(sc: &Value, plans: &BTreeMap<String, Workflow>, events: &BTreeMap<String, (String, String)>) -> Value {
  let mut wfs = serde_json::Map::new();
  let mut jobs = serde_json::Map::new();
  let mut steps = serde_json::Map::new();
  for w in sc["wfs"].as_array().unwrap() {
    let wid = w["id"].as_str().unwrap();
    let active = sc["token"].is_string() && !events[wid].0.is_empty();
    let on = |v: &Value| !active || v["x-match"].as_bool().unwrap_or(true);
    let mut jl = vec![];
    for j in w["jobs"].as_array().unwrap() {
      let key = j["key"].as_str().unwrap();
      let jid = format!("{}/{}", wid, key);
      let mut sl = vec![];
      for (i, s) in j["steps"].as_array().unwrap().iter().enumerate() {
        let sid = format!("{}/{}", jid, i);
        let plan = &plans[wid].jobs[key].steps[i];
        let (b, _) = step_body(plan);
        steps.insert(
          sid.clone(),
          json!({"j": jid, "i": i, "coe": s["continue-on-error"].as_bool().unwrap_or(false),
                 "on": on(s), "to": parse_to(s), "body": b}),
        );
        sl.push(sid);
      }
      let deps: Vec<String> = strs(&j["depends-on"]).iter().map(|d| format!("{}/{}", wid, d)).collect();
      jobs.insert(
        jid.clone(),
        json!({"w": wid, "on": on(j), "deps": deps, "steps": sl}),
      );
      jl.push(jid);
    }
    let (ev, pl) = events[wid].clone();
    wfs.insert(wid.into(), json!({"on": on(w), "ev": ev, "pl": pl, "jobs": jl}));
  }
  json!({"rec": sc["rec"], "wfs": wfs, "jobs": jobs, "steps": steps})
}

pub struct World {
  pub s: Arc<Shared>,
  pub run: AstroRun,
  pub plans: BTreeMap<String, Workflow>,
  pub ctxs: BTreeMap<String, ExecutionContext>,
  pub cfg: Value,
}

pub async fn build(sc: &Value, rec: Recorder) -> Option<World> {
  let mode = match sc["gated"].as_i64().unwrap() {
    -1 => Mode::Free,
    -2 => Mode::Schedule,
    p => Mode::Gated(p as u64),
  };
  rec.twins.lock().on = sc["wfs"][0]["id"].as_str().unwrap().contains('~');
  let mut observers = HashMap::new();
  for (r, o) in sc["obs"].as_object().unwrap() {
    let before = o["before"]
      .as_object()
      .map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect())
      .unwrap_or_default();
    observers.insert(r.clone(), Observer { err: strs(&o["err"]).into_iter().collect(), before });
  }
  let s = Arc::new(Shared {
    rec,
    gates: Mutex::new(vec![]),
    steps: Mutex::new(BTreeMap::new()),
    mode,
    rng: Mutex::new(Rng::new(sc["seed"].as_u64().unwrap_or(0) ^ 0xABCD)),
    observers,
    refuse: strs(&sc["refuse"]).into_iter().collect(),
    scripts: sc["scripts"]
      .as_object()
      .map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_array().unwrap().clone())).collect())
      .unwrap_or_default(),
    drain: Mutex::new(false),
    gate: strs(&sc["gate"]).into_iter().collect(),
    once: Default::default(),
    signals: Default::default(),
  });
  let sync: HashSet<String> = strs(&sc["sync"]).into_iter().collect();
  let mut b = AstroRun::builder().runner(VRunner { s: s.clone(), r: "r".into() });
  for r in strs(&sc["rec"]) {
    if r != "r" {
      b = if sync.contains(&r) { b.plugin(built(&s, &r)) } else { b.plugin(VPlugin { s: s.clone(), r }) };
    }
  }
  if let Some(t) = sc["token"].as_str() {
    b = b.github_personal_token(t);
  }
  let run = b.build();
  load(sc, s, run).await
}

/// The id of the workflow of a run ("w1~2" is its second run).
fn base(run: &str) -> String {
  run.split('~').next().unwrap().to_string()
}

/// The workflows of a scenario, on a given engine.
pub async fn load(sc: &Value, s: Arc<Shared>, run: AstroRun) -> Option<World> {
  let mut plans = BTreeMap::new();
  let mut ctxs = BTreeMap::new();
  let mut events = BTreeMap::new();
  for w in sc["wfs"].as_array().unwrap() {
    let id = w["id"].as_str().unwrap().to_string();
    // a plan that cannot be built is for the plan suite to judge
    let Ok(plan) = Workflow::builder().id(base(&id)).config(wf_yaml(w)).build(&run).await else {
      return None;
    };
    let mut cb = run.execution_context();
    let mut ev = String::new();
    let mut pl = String::new();
    if w["event"] == true || w["event"].is_string() || w["event"].is_object() {
      let mut te = TriggerEvent {
        event: w["event"].as_str().unwrap_or("push").into(),
        repo_owner: format!("owner-{}", id),
        repo_name: "repo".into(),
        pr_number: if id == "w2" || w["event"].is_string() { Some(7) } else { None },
        sha: format!("sha-{}", id),
        branch: "main".into(),
        ref_name: "refs/heads/main".into(),
      };
      if w["event"].is_object() {
        te = serde_json::from_value(w["event"].clone()).unwrap();
      }
      ev = event_text(&Some(te.clone()));
      cb = cb.event(te);
    }
    let twins = id.contains('~');
    if w["payload"].as_bool().unwrap_or(false) {
      let text = w["text"].as_str().filter(|_| !twins).map(|t| t.to_string());
      let p = VPayload { text: text.unwrap_or_else(|| format!("payload of {} \"quoted\"", id)), n: id.len() as i64 };
      pl = payload_canon(&Some(ContextPayload::new(p.clone())));
      cb = cb.payload(p);
      if twins {
        s.rec.twins.lock().by_payload.insert(pl.clone(), id.clone());
      }
    }
    let ctx = cb.build();
    let free = matches!(s.mode, Mode::Free);
    if sc["token"].is_string() && !ev.is_empty() && conditional(w) && (!free || s.rng.lock().chance(50)) {
      // the changed files are looked up beforehand: in virtual time nothing can wait for an answer from outside
      let (run, ctx) = (run.clone(), ctx.clone());
      let known = std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let known = rt.block_on(async {
          let doc = r#"{"on": ["none"], "jobs": {"a": {"steps": [{"run": "x"}]}}}"#;
          let none = Workflow::builder().config(doc).build(&run).await.unwrap();
          none.should_skip(&ctx).await
        });
        rt.shutdown_background();
        known
      });
      if !known.join().unwrap_or(false) {
        return None;
      }
    }
    events.insert(id.clone(), (ev, pl));
    ctxs.insert(id.clone(), ctx);
    plans.insert(id, plan);
  }
  let cfg = config(sc, &plans, &events);
  Some(World { s, run, plans, ctxs, cfg })
}

impl World {
  fn start(&self, w: &str) -> tokio::task::JoinHandle<()> {
    let rec = self.s.rec.clone();
    let plan = self.plans[w].clone();
    let ctx = self.ctxs[w].clone();
    rec.push(json!({"k": "x.start", "e": w}));
    let w = w.to_string();
    tokio::spawn(async move {
      rec.belongs(&w);
      let result = plan.run(ctx).await;
      let (res, jobs) = rec.wf_result(&result);
      rec.push(json!({"k": "wf.ret", "e": w, "res": res, "jobs": jobs}));
    })
  }

  fn cancel(&self, j: &str, by_ctx: bool) {
    let id = match JobId::try_from(j) {
      Ok(id) => id,
      Err(_) => return,
    };
    let w = id.workflow_id().to_string();
    let ok = match (by_ctx, self.ctxs.get(&w)) {
      (true, Some(c)) => c.cancel_job(&id).is_ok(),
      _ => self.run.cancel_job(&id).is_ok(),
    };
    self.s.rec.push(json!({"k": "x.cancel", "e": j, "ok": ok}));
  }

  async fn quiet(&self) {
    tokio::time::sleep(Duration::from_millis(1)).await;
    self.s.rec.push(json!({"k": "x.quiet"}));
  }

  fn release(&self, i: usize) {
    let g = self.s.gates.lock().remove(i);
    g.tx.send(true).ok();
  }

  /// Ends everything that can still be ended and waits for the runs to return.
  async fn finish(&self, handles: &mut Vec<tokio::task::JoinHandle<()>>) {
    *self.s.drain.lock() = true;
    let mut idle = 0;
    for _ in 0..2000 {
      self.quiet().await;
      if handles.iter().all(|h| h.is_finished()) || self.s.rec.full() {
        break;
      }
      let mut did = false;
      while !self.s.gates.lock().is_empty() {
        self.release(0);
        did = true;
      }
      if !did {
        let mut steps = self.s.steps.lock();
        for (e, st) in steps.iter_mut() {
          if st.accepted && !st.ended {
            st.ended = true;
            let a = if self.s.rng.lock().chance(70) { "succeeded" } else { "failed" };
            self.s.end(e, &st.sender, a, 9);
            did = true;
          }
        }
      }
      idle = if did { 0 } else { idle + 1 };
      if idle > 3 {
        break;
      }
    }
    self.quiet().await;
    tokio::time::sleep(Duration::from_secs(3 * 3600)).await;
    self.s.rec.push(json!({"k": "x.fin"}));
  }
}

/// One gated run under virtual time, with a random controller.
pub async fn run_random(sc: Value, rec: Recorder) {
  *rec.start.lock() = Some(tokio::time::Instant::now());
  let seed = sc["seed"].as_u64().unwrap();
  let mut g = Rng::new(seed ^ 0x5555);
  let Some(mut w) = build(&sc, rec.clone()).await else {
    return;
  };
  if !random_round(&w, &sc, &rec, &mut g).await {
    return;
  }
  // the same engine runs more workflows, under the same ids
  let mut n = 0;
  while g.chance(if n == 0 { 20 } else { 50 }) && rec.records.lock().len() < 3000 {
    n += 1;
    let fam = sc["fam"].as_str().unwrap();
    let mut next = if g.chance(40) { sc.clone() } else { scenario(seed.wrapping_add(n * 7_919_000_003), fam) };
    next["rec"] = sc["rec"].clone();
    next["token"] = sc["token"].clone();
    w.s.steps.lock().clear();
    *w.s.drain.lock() = false;
    let Some(x) = load(&next, w.s.clone(), w.run.clone()).await else {
      return;
    };
    w = x;
    if !random_round(&w, &next, &rec, &mut g).await {
      return;
    }
  }
}

/// Runs the workflows of a scenario to their end; false if they didn't get there.
async fn random_round(w: &World, sc: &Value, rec: &Recorder, g: &mut Rng) -> bool {
  rec.push(json!({"k": "cfg", "cfg": w.cfg, "seed": sc["seed"], "fam": sc["fam"]}));
  let fam = sc["fam"].as_str().unwrap().to_string();
  let (wc, wa, wl) = match fam.as_str() {
    "cancel" => (14, 5, 10),
    "timeout" => (4, 35, 25),
    "twins" => (0, 6, 12),
    "chatty" => (2, 4, 6),
    "logs" => (3, 5, 50),
    "bulk" => (2, 3, 60),
    "wide" | "long" => (2, 4, 8),
    _ => (4, 6, 12),
  };
  let mut flood = if fam == "chatty" { 2 } else { 0 };
  let mut bulk = if fam == "bulk" { 1800usize } else { 0 };
  let mut all_jobs: Vec<String> = w.cfg["jobs"].as_object().unwrap().keys().cloned().collect();
  all_jobs.push("w1/nope".into());
  all_jobs.push("w9/a".into());
  let mut waiting: Vec<String> = w.plans.keys().cloned().collect();
  let mut handles = vec![];
  let first = waiting.remove(0);
  handles.push(w.start(&first));
  let max = if fam == "long" { g.range(60, 300) } else { g.range(20, 160) };
  let mut burst = false;
  for _ in 0..max {
    if !burst {
      w.quiet().await;
    }
    if rec.full() || (waiting.is_empty() && handles.iter().all(|h| h.is_finished())) {
      break;
    }
    burst = g.chance(15);
    let mut acts: Vec<(u64, u8)> = vec![];
    let ngates = w.s.gates.lock().len();
    if ngates > 0 {
      acts.push((50, 0));
    }
    let running: Vec<String> = w
      .s
      .steps
      .lock()
      .iter()
      .filter(|(_, s)| !s.ended && (s.accepted || g.clone().chance(15)))
      .map(|(e, _)| e.clone())
      .collect();
    if !running.is_empty() {
      acts.push((wl, 1));
      acts.push((if fam == "long" { 60 } else { 14 }, 2));
      acts.push((if fam == "wide" { 20 } else { 1 }, 6));
      if flood > 0 && !burst && ngates == 0 {
        acts.push((40, 7));
      }
    }
    if wc > 0 {
      acts.push((wc, 3));
    }
    let late = |k: &str, a: &str| k == "st.log" || k == "st.done" || (k == "st.state" && a != "queued" && a != "in_progress");
    if !burst && !w.s.gates.lock().iter().any(|x| late(&x.kind, &x.a)) {
      acts.push((wa, 4));
    }
    if !waiting.is_empty() {
      acts.push((6, 5));
    }
    if acts.is_empty() {
      continue;
    }
    let total: u64 = acts.iter().map(|a| a.0).sum();
    let mut x = g.below(total);
    let mut act = acts[0].1;
    for (wt, a) in &acts {
      if x < *wt {
        act = *a;
        break;
      }
      x -= wt;
    }
    match act {
      0 => w.release(g.below(ngates as u64) as usize),
      1 => {
        let e = g.pick(&running).clone();
        let mut n = *g.pick(&[1usize, 1, 2, 5]);
        if bulk > 0 && g.chance(40) {
          n = (*g.pick(&[40usize, 130, 300, 1100])).min(bulk);
          bulk -= n;
        }
        let (sender, base) = {
          let mut steps = w.s.steps.lock();
          let st = steps.get_mut(&e).unwrap();
          st.nlog += n;
          (st.sender.clone(), st.nlog - n)
        };
        for i in 0..n {
          let (ty, m) = random_line(g, base + i);
          w.s.line(&e, &sender, ty, m);
        }
        if g.chance(20) {
          let (a, code) = random_end(g);
          w.s.end(&e, &sender, a, code);
          w.s.steps.lock().get_mut(&e).unwrap().ended = true;
        }
      }
      2 => {
        let e = g.pick(&running).clone();
        let (a, code) = random_end(g);
        let sender = {
          let mut steps = w.s.steps.lock();
          let st = steps.get_mut(&e).unwrap();
          st.ended = true;
          st.sender.clone()
        };
        w.s.end(&e, &sender, a, code);
        if g.chance(10) {
          // a second end changes nothing
          let (a, code) = random_end(g);
          w.s.end(&e, &sender, a, code);
        }
      }
      3 => {
        let j = g.pick(&all_jobs).clone();
        w.cancel(&j, g.chance(30));
        if g.chance(20) {
          w.cancel(&j, false);
        }
      }
      4 => {
        let ms = *g.pick(&[200u64, 500, 1000, 1500, 2500, 4000]);
        tokio::time::sleep(Duration::from_millis(ms)).await;
      }
      7 => {
        // a step that writes a lot, with an observer that takes its time over the first line; meanwhile the step
        // is cancelled or its time is up
        flood -= 1;
        let e = g.pick(&running).clone();
        let n = g.range(150, 350) as usize;
        let (sender, base) = {
          let mut steps = w.s.steps.lock();
          let st = steps.get_mut(&e).unwrap();
          st.nlog += n;
          (st.sender.clone(), st.nlog - n)
        };
        *w.s.once.lock() = "st.log".into();
        w.s.line(&e, &sender, "log", format!("line {}", base));
        w.quiet().await;
        for i in 1..n {
          w.s.line(&e, &sender, "log", format!("line {}", base + i));
        }
        if g.chance(50) {
          w.cancel(e.rsplit_once('/').unwrap().0, g.chance(30));
        } else {
          tokio::time::sleep(Duration::from_secs(g.range(1, 12))).await;
        }
        w.s.once.lock().clear();
      }
      6 => {
        // everything that runs ends at once
        for e in &running {
          if g.chance(90) {
            let (a, code) = random_end(g);
            let sender = {
              let mut steps = w.s.steps.lock();
              let st = steps.get_mut(e).unwrap();
              st.ended = true;
              st.sender.clone()
            };
            w.s.end(e, &sender, a, code);
          }
        }
      }
      _ => {
        let i = g.below(waiting.len() as u64) as usize;
        let id = waiting.remove(i);
        handles.push(w.start(&id));
      }
    }
  }
  for id in waiting {
    handles.push(w.start(&id));
  }
  w.finish(&mut handles).await;
  handles.iter().all(|h| h.is_finished()) && w.s.gates.lock().is_empty() && !rec.full()
}

/// One run left to itself on several threads (real time).
pub async fn run_free(sc: Value, rec: Recorder) {
  let Some(w) = build(&sc, rec.clone()).await else {
    return;
  };
  rec.push(json!({"k": "cfg", "cfg": w.cfg, "seed": sc["seed"], "fam": sc["fam"]}));
  *rec.start.lock() = Some(tokio::time::Instant::now());
  let handles: Vec<_> = w.plans.keys().cloned().collect::<Vec<_>>().iter().map(|id| w.start(id)).collect();
  let mut last = 0;
  let mut same = 0;
  loop {
    tokio::time::sleep(Duration::from_millis(5)).await;
    if handles.iter().all(|h| h.is_finished()) {
      break;
    }
    let n = rec.records.lock().len();
    same = if n == last { same + 1 } else { 0 };
    last = n;
    if same > 1000 {
      break;
    }
  }
  tokio::time::sleep(Duration::from_millis(10)).await;
  rec.push(json!({"k": "x.quiet"}));
  rec.push(json!({"k": "x.fin"}));
}

/// One run under virtual time that follows a schedule of environment actions produced by TLC.
pub async fn run_schedule(sc: Value, path: Vec<Value>, rec: Recorder) {
  *rec.start.lock() = Some(tokio::time::Instant::now());
  let Some(w) = build(&sc, rec.clone()).await else {
    return;
  };
  rec.push(json!({"k": "cfg", "cfg": w.cfg, "fam": sc["name"]}));
  let mut handles = vec![];
  let mut started = HashSet::new();
  for (i, a) in path.iter().enumerate() {
    let f = |n: usize| a[n].as_str().unwrap_or("").to_string();
    let mut done = true;
    match f(0).as_str() {
      "start" => {
        handles.push(w.start(&f(1)));
        started.insert(f(1));
      }
      "rel" | "acc" => {
        let (k, e, r) = if f(0) == "acc" { ("st.exec".to_string(), f(1), "r".to_string()) } else { (f(1), f(2), f(3)) };
        let at = w.s.gates.lock().iter().position(|g| g.kind == k && g.e == e && g.r == r);
        match at {
          Some(i) => w.release(i),
          None => done = false,
        }
      }
      "log" | "end" => {
        let e = f(1);
        let sender = match w.s.steps.lock().get_mut(&e) {
          Some(st) if !st.ended => {
            st.nlog += 1;
            st.ended = f(0) == "end";
            Some((st.sender.clone(), st.nlog))
          }
          _ => None,
        };
        match sender {
          Some((s, n)) if f(0) == "log" => w.s.line(&e, &s, if n % 2 == 0 { "error" } else { "log" }, format!("line {}", n)),
          Some((s, _)) => w.s.end(&e, &s, &f(2), 3),
          None => done = false,
        }
      }
      "cancel" => w.cancel(&f(1), i % 2 == 0),
      "tick" => tokio::time::sleep(Duration::from_millis(1000)).await,
      _ => done = false,
    }
    if !done {
      // the engine took another of the branches the specification leaves open
      rec.push(json!({"k": "x.off", "at": i}));
      break;
    }
    w.quiet().await;
  }
  for id in w.plans.keys() {
    if !started.contains(id) {
      handles.push(w.start(id));
    }
  }
  w.finish(&mut handles).await;
}
