//! Suite S6: remote runners. Real gRPC servers and the real client over loopback TCP, with a cuttable proxy in between.
use crate::util::*;
use astro_run::{
  stream, AstroRun, AstroRunSignal, Command, Context, Error, HookBeforeRunStepResult, HookNoopResult,
  JobId, JobRunResult, Plugin, RunJobEvent, RunResponse, RunResult, RunStepEvent, RunWorkflowEvent, Runner, Signal, Step,
  StepId, StepRunResult, TriggerEvent, Workflow, WorkflowLog, WorkflowRunResult, WorkflowStateEvent,
};
use astro_run_protocol::remote_runner::{RemoteRunnerExt, RemoteRunnerServer};
use astro_run_protocol::{tonic, Empty, ProtocolEvent, RunnerMetadata};
use astro_run_remote_runner::{AstroRunRemoteRunnerClient, AstroRunRemoteRunnerServer, VERSION};
use astro_run_scheduler::{DefaultScheduler, Scheduler};
use parking_lot::Mutex;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::net::{TcpListener, TcpStream};

static ADDR: AtomicUsize = AtomicUsize::new(1);
fn address() -> String {
  let n = ADDR.fetch_add(1, Ordering::SeqCst);
  let pid = std::process::id() as usize;
  format!("127.{}.{}.{}:{}", 10 + pid % 200, (n / 250) % 250, n % 250 + 1, 7000 + (pid / 200) % 50000)
}

/// What happened, in order; contents are numbered.
pub struct Log {
  log: Mutex<(Vec<Value>, HashMap<String, usize>)>,
  last: Mutex<Instant>,
}
impl Log {
  pub fn new() -> Self {
    Log { log: Mutex::new((vec![], HashMap::new())), last: Mutex::new(Instant::now()) }
  }
  pub fn idle(&self) -> Duration {
    self.last.lock().elapsed()
  }
  pub fn records(&self) -> Vec<Value> {
    self.log.lock().0.clone()
  }
  pub fn push(&self, v: Value) {
    let mut l = self.log.lock();
    *self.last.lock() = Instant::now();
    if l.0.len() < LIMIT {
      l.0.push(v);
    }
  }
  /// Numbers the contents and writes the record in one go.
  pub fn with(&self, mut v: Value, contents: &[(&str, String)]) {
    let mut l = self.log.lock();
    *self.last.lock() = Instant::now();
    for (k, c) in contents {
      let n = l.1.len() + 1;
      v[*k] = json!(*l.1.entry(c.clone()).or_insert(n));
    }
    if l.0.len() < LIMIT {
      l.0.push(v);
    }
  }
  pub fn number(&self, c: &str) -> usize {
    let mut l = self.log.lock();
    let n = l.1.len() + 1;
    *l.1.entry(c.to_string()).or_insert(n)
  }
}

pub fn line(s: &str) -> String {
  if s.len() <= 120 {
    return s.to_string();
  }
  let mut h: u64 = 0xcbf29ce484222325;
  for b in s.bytes() {
    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
  }
  format!("{} bytes {:x}", s.len(), h)
}

pub fn kind_of(e: bool) -> &'static str {
  if e {
    "error"
  } else {
    "log"
  }
}

pub fn res_json(r: &RunResult) -> Value {
  match r {
    RunResult::Succeeded => json!({"state": "succeeded", "code": -999}),
    RunResult::Failed { exit_code } => json!({"state": "failed", "code": exit_code}),
    RunResult::Cancelled => json!({"state": "cancelled", "code": -999}),
  }
}

fn result(a: &Value) -> RunResult {
  match a[1].as_str().unwrap() {
    "succeeded" => RunResult::Succeeded,
    "cancelled" => RunResult::Cancelled,
    _ => RunResult::Failed { exit_code: a[2].as_i64().unwrap() as i32 },
  }
}

pub fn ctx_text(c: &Context) -> String {
  format!("{}\n{}\n{:?}", canon(&c.command), event_text(&c.event), c.payload)
}
fn cmd_text(s: &Step) -> String {
  canon(&crate::util::command_of(s))
}

// ------------------------------------------------------------------ the connection between client and runner

struct Proxy {
  conns: Mutex<Vec<tokio::task::AbortHandle>>,
}
impl Proxy {
  async fn start(to: String) -> (String, Arc<Proxy>) {
    let p = Arc::new(Proxy { conns: Mutex::new(vec![]) });
    let (addr, l) = listen().await;
    let q = p.clone();
    let h = tokio::spawn(async move {
      while let Ok((mut a, _)) = l.accept().await {
        let to = to.clone();
        let h = tokio::spawn(async move {
          if let Ok(mut b) = TcpStream::connect(&to).await {
            a.set_nodelay(true).ok();
            b.set_nodelay(true).ok();
            tokio::io::copy_bidirectional(&mut a, &mut b).await.ok();
          }
        });
        q.conns.lock().push(h.abort_handle());
      }
    });
    p.conns.lock().push(h.abort_handle());
    (addr, p)
  }
  /// Nothing gets through any more and nobody answers any more.
  fn cut(&self) {
    for h in self.conns.lock().drain(..) {
      h.abort();
    }
  }
}

async fn listen() -> (String, TcpListener) {
  for _ in 0..50 {
    let a = address();
    if let Ok(l) = TcpListener::bind(&a).await {
      return (a, l);
    }
  }
  panic!("no address to listen on");
}

// ------------------------------------------------------------------ the remote side

struct World {
  log: Arc<Log>,
  done: Mutex<std::collections::HashSet<String>>,
  turn: AtomicUsize,
  waiting: AtomicUsize,
  sc: Value,
  proxies: Mutex<HashMap<usize, Arc<Proxy>>>,
  run: Mutex<Option<AstroRun>>,
}
impl World {
  fn script(&self, s: &StepId) -> Value {
    self.sc["scripts"].get(s.to_string()).cloned().unwrap_or(json!([["end", "succeeded", 0]]))
  }
  /// Waits for the n-th turn of the schedule (not for ever: the schedule may not be possible).
  async fn turn(&self, n: usize) {
    let t0 = Instant::now();
    while self.turn.load(Ordering::SeqCst) < n && t0.elapsed() < Duration::from_millis(400) {
      tokio::time::sleep(Duration::from_millis(1)).await;
    }
    // what came before gets to where it is going, as far as it can
    if n > 0 {
      tokio::time::sleep(Duration::from_millis(self.sc["gap"].as_u64().unwrap_or(0))).await;
    }
  }
  fn took(&self, n: usize) {
    self.turn.fetch_max(n + 1, Ordering::SeqCst);
  }
  fn cut(&self, i: usize) {
    self.log.push(json!({"k": "x.cut", "i": i}));
    if let Some(p) = self.proxies.lock().get(&i) {
      p.cut();
    }
  }
  fn cancel(&self, j: &JobId) {
    let r = self.run.lock().clone();
    let ok = r.map(|r| r.cancel_job(j).is_ok()).unwrap_or(false);
    self.log.push(json!({"k": "x.cancel", "e": j.to_string(), "ok": ok}));
  }
}

/// One observer on a runner: a plugin or, last, the runner itself.
struct Obs {
  w: Arc<World>,
  i: usize,
  o: usize,
  delay: u64,
  fail: Vec<String>,
  hang: String,
  before: String,
  last: bool,
}
impl Obs {
  async fn see(&self, kind: &str, c: String) -> HookNoopResult {
    self.w.log.with(json!({"k": "d", "i": self.i, "o": self.o, "kind": kind}), &[("c", c)]);
    if self.delay > 0 {
      tokio::time::sleep(Duration::from_millis(self.delay)).await;
    }
    if self.hang == kind {
      // this one never returns: as good as lost, to the other runners at least
      self.w.log.push(json!({"k": "x.cut", "i": self.i}));
      std::future::pending::<()>().await;
    }
    if self.fail.iter().any(|f| f == kind) {
      return Err(Error::error("this hook fails"));
    }
    Ok(())
  }
  async fn before(&self, step: Step) -> HookBeforeRunStepResult {
    let was = cmd_text(&step);
    let mut step = step;
    match self.before.as_str() {
      "run" => step.run = format!("{}|{}.{}", step.run, self.i, self.o),
      "env" => {
        step.environments.insert(format!("E{}{}", self.i, self.o), astro_run::EnvironmentVariable::Number(0.5));
        step.timeout += Duration::from_millis(1500);
      }
      "all" => {
        step.name = Some(format!("n{}{}", self.i, self.o));
        step.secrets.push(format!("s{}{}", self.i, self.o));
        step.container = Some(serde_json::from_value(json!({"name": "é/x", "volumes": ["a:b"], "security_opts": null})).unwrap());
        step.continue_on_error = !step.continue_on_error;
      }
      _ => {}
    }
    let fails = self.before == "fail";
    let rec = json!({"k": "r.bef", "i": self.i, "o": self.o, "e": step.id.to_string(), "ok": !fails, "last": self.last});
    let now = if fails { was.clone() } else { cmd_text(&step) };
    self.w.log.with(rec, &[("c", was), ("c2", now)]);
    if fails {
      return Err(Error::error("this hook fails"));
    }
    Ok(step)
  }
}

#[astro_run::async_trait]
impl Plugin for Obs {
  fn name(&self) -> &'static str {
    "observer"
  }
  async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult {
    self.see("wf.run", canon(&e)).await
  }
  async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
    self.see("job.run", canon(&e)).await
  }
  async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult {
    self.see("st.run", canon(&e)).await
  }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
    self.see("state", canon(&e)).await
  }
  async fn on_log(&self, e: WorkflowLog) -> HookNoopResult {
    self.see("log", canon(&e)).await
  }
  async fn on_step_completed(&self, e: StepRunResult) -> HookNoopResult {
    self.see("st.done", canon(&e)).await
  }
  async fn on_job_completed(&self, e: JobRunResult) -> HookNoopResult {
    self.see("job.done", canon(&e)).await
  }
  async fn on_workflow_completed(&self, e: WorkflowRunResult) -> HookNoopResult {
    self.see("wf.done", canon(&e)).await
  }
  async fn on_before_run_step(&self, step: Step) -> HookBeforeRunStepResult {
    self.before(step).await
  }
}

#[astro_run::async_trait]
impl Runner for Obs {
  async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult {
    self.see("wf.run", canon(&e)).await
  }
  async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
    self.see("job.run", canon(&e)).await
  }
  async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult {
    self.see("st.run", canon(&e)).await
  }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
    self.see("state", canon(&e)).await
  }
  async fn on_log(&self, e: WorkflowLog) -> HookNoopResult {
    self.see("log", canon(&e)).await
  }
  async fn on_step_completed(&self, e: StepRunResult) -> HookNoopResult {
    self.see("st.done", canon(&e)).await
  }
  async fn on_job_completed(&self, e: JobRunResult) -> HookNoopResult {
    self.see("job.done", canon(&e)).await
  }
  async fn on_workflow_completed(&self, e: WorkflowRunResult) -> HookNoopResult {
    self.see("wf.done", canon(&e)).await
  }
  async fn on_before_run_step(&self, step: Step) -> HookBeforeRunStepResult {
    self.before(step).await
  }

  async fn run(&self, ctx: Context) -> RunResponse {
    let (w, i, id) = (self.w.clone(), self.i, ctx.id.clone());
    w.log.with(json!({"k": "r.run", "i": i, "e": id.to_string()}), &[("c", ctx_text(&ctx))]);
    let script = w.script(&id);
    let mut acts = script.as_array().unwrap().clone();
    let mut turn = None;
    if acts[0][0] == "at" && acts[1][0] == "refuse" {
      turn = acts.remove(0)[1].as_u64();
      w.turn(turn.unwrap() as usize).await;
    }
    match acts[0][0].as_str().unwrap() {
      "refuse" => {
        w.log.push(json!({"k": "r.no", "i": i, "e": id.to_string()}));
        turn.map(|n| w.took(n as usize));
        return Err(Error::error("refused"));
      }
      "panic" => {
        w.log.push(json!({"k": "r.no", "i": i, "e": id.to_string()}));
        panic!("the runner panics");
      }
      _ => {}
    }
    let (tx, rx) = stream();
    let got = Arc::new(tokio::sync::Notify::new());
    let (w2, id2, got2, sig) = (w.clone(), id.clone(), got.clone(), ctx.signal.clone());
    let watch = tokio::spawn(async move {
      let s = sig.recv().await;
      w2.log.push(json!({"k": "r.sig", "i": i, "e": id2.to_string(), "a": s.to_string()}));
      got2.notify_one();
    });
    tokio::spawn(async move {
      let write = |err: bool, text: String| {
        w.log.push(json!({"k": "r.log", "i": i, "e": id.to_string(), "a": kind_of(err), "c": line(&text)}));
        if err {
          tx.error(text)
        } else {
          tx.log(text)
        }
      };
      let mut turn = None;
      for a in acts {
        if let Some(n) = turn.take() {
          w.turn(n).await;
          turn = Some(n);
        }
        match a[0].as_str().unwrap() {
          "at" => turn = a[1].as_u64().map(|n| n as usize),
          "log" => write(false, a[1].as_str().unwrap().into()),
          "err" => write(true, a[1].as_str().unwrap().into()),
          "big" => write(false, "Ab\"\n".repeat(a[1].as_u64().unwrap() as usize / 4)),
          "many" => {
            for n in 0..a[1].as_u64().unwrap() {
              write(n % 5 == 4, format!("{} {}", id.to_string(), n));
            }
          }
          "pause" => tokio::time::sleep(Duration::from_millis(a[1].as_u64().unwrap())).await,
          "cut" => {
            w.cut(i);
            tokio::time::sleep(Duration::from_millis(20)).await;
          }
          "cancel" => {
            w.cancel(&id.job_id());
          }
          "hold" => {
            let held = tokio::time::timeout(Duration::from_secs(20), got.notified()).await.is_err();
            if held {
              w.log.push(json!({"k": "r.unsignalled", "i": i, "e": id.to_string()}));
            }
          }
          _ => {
            let res = result(&a);
            // a signal may still be on its way to the record
            if !ctx.signal.is_cancelled() && !ctx.signal.is_timeout() {
              watch.abort();
            } else {
              tokio::time::sleep(Duration::from_millis(1)).await;
            }
            w.log.push(json!({"k": "r.end", "i": i, "e": id.to_string(), "res": res_json(&res)}));
            tx.end(res);
            if a.get(3).is_some() {
              w.cut(i);
            }
            turn.map(|n| w.took(n));
            return;
          }
        }
        if a[0] != "at" {
          turn.take().map(|n| w.took(n));
        }
      }
    });
    Ok(rx)
  }
}

/// A server that is not one of ours: another version.
struct Fake {
  o: Obs,
  meta: RunnerMetadata,
}
#[tonic::async_trait]
impl RemoteRunnerExt for Fake {
  type RunStream = tokio_stream::wrappers::ReceiverStream<tonic::Result<astro_run_protocol::RunResponse>>;
  async fn run(&self, r: tonic::Request<Context>) -> Result<tonic::Response<Self::RunStream>, tonic::Status> {
    let c = r.into_inner();
    self.o.w.log.with(json!({"k": "r.run", "i": self.o.i, "e": c.id.to_string()}), &[("c", ctx_text(&c))]);
    let script = self.o.w.script(&c.id).as_array().unwrap().clone();
    if script[0][0] == "refuse" || script[0][0] == "panic" {
      self.o.w.log.push(json!({"k": "r.no", "i": self.o.i, "e": c.id.to_string()}));
      return Err(tonic::Status::internal("no"));
    }
    let (tx, rx) = tokio::sync::mpsc::channel(1);
    let (w, i, e) = (self.o.w.clone(), self.o.i, c.id.clone());
    tokio::spawn(async move {
      for a in script {
        match a[0].as_str().unwrap() {
          "log" | "err" => {
            let text = a[1].as_str().unwrap();
            w.log.push(json!({"k": "r.log", "i": i, "e": e.to_string(), "a": kind_of(a[0] == "err"), "c": line(text)}));
            let l = if a[0] == "err" { astro_run::Log::error(text) } else { astro_run::Log::log(text) };
            tx.send(Ok(astro_run_protocol::RunResponse::log(e.clone(), l))).await.ok();
          }
          "pause" => tokio::time::sleep(Duration::from_millis(a[1].as_u64().unwrap())).await,
          "cut" => {
            w.cut(i);
            return;
          }
          "end" => {
            let res = result(&a);
            w.log.push(json!({"k": "r.end", "i": i, "e": e.to_string(), "res": res_json(&res)}));
            tx.send(Ok(astro_run_protocol::RunResponse::result(e.clone(), res))).await.ok();
            // the result is there: what happens to the connection now is of no importance
            let t0 = Instant::now();
            while !w.done.lock().contains(&e.to_string()) && t0.elapsed() < Duration::from_millis(a.get(4).and_then(|m| m.as_u64()).unwrap_or(5000))
            {
              tokio::time::sleep(Duration::from_millis(1)).await;
            }
            if a.get(3).is_some() {
              w.log.push(json!({"k": "r.kept", "i": i, "e": e.to_string()}));
              w.cut(i);
            }
            return;
          }
          _ => {}
        }
      }
    });
    Ok(tonic::Response::new(tokio_stream::wrappers::ReceiverStream::new(rx)))
  }
  async fn send_event(&self, r: tonic::Request<ProtocolEvent>) -> Result<tonic::Response<Empty>, tonic::Status> {
    let (kind, c) = match r.into_inner() {
      ProtocolEvent::RunStep(e) => ("st.run", canon(&e)),
      ProtocolEvent::RunJob(e) => ("job.run", canon(&e)),
      ProtocolEvent::RunWorkflow(e) => ("wf.run", canon(&e)),
      ProtocolEvent::StepCompleted(e) => ("st.done", canon(&e)),
      ProtocolEvent::JobCompleted(e) => ("job.done", canon(&e)),
      ProtocolEvent::WorkflowCompleted(e) => ("wf.done", canon(&e)),
      ProtocolEvent::StepLog(e) => ("log", canon(&e)),
      ProtocolEvent::StateChange(e) => ("state", canon(&e)),
      ProtocolEvent::Signal(e) => {
        self.o.w.log.push(json!({"k": "r.sig", "i": self.o.i, "e": e.step_id.to_string(), "a": e.signal.to_string()}));
        return Ok(tonic::Response::new(Empty {}));
      }
    };
    self.o.see(kind, c).await.ok();
    Ok(tonic::Response::new(Empty {}))
  }
  async fn get_runner_metadata(&self, _r: tonic::Request<Empty>) -> Result<tonic::Response<RunnerMetadata>, tonic::Status> {
    if self.meta.version == "error" {
      return Err(tonic::Status::unavailable("not now"));
    }
    Ok(tonic::Response::new(self.meta.clone()))
  }
  async fn call_before_run_step_hook(&self, r: tonic::Request<Command>) -> Result<tonic::Response<Command>, tonic::Status> {
    let c = self.o.before(r.into_inner().into()).await;
    c.map(|s| tonic::Response::new(s.into())).map_err(|_| tonic::Status::internal("no"))
  }
}

async fn server(w: &Arc<World>, i: usize) -> String {
  let d = w.sc["servers"][i].clone();
  let id = d["id"].as_str().unwrap().to_string();
  let n = d["plugins"].as_u64().unwrap_or(0) as usize;
  let strs = |v: &Value| -> Vec<String> { v.as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().into()).collect()).unwrap_or_default() };
  let obs = |o: usize| Obs {
    w: w.clone(),
    i,
    o,
    delay: d["delay"].as_u64().unwrap_or(0),
    fail: strs(&d["fail"][o.to_string()]),
    hang: d["hang"][o.to_string()].as_str().unwrap_or("").into(),
    before: d["before"][o.to_string()].as_str().unwrap_or("").into(),
    last: o == n + 1,
  };
  match d["how"].as_str().unwrap() {
    "dead" => return format!("http://{}", address()),
    "badurl" => return d["url"].as_str().unwrap().into(),
    "mute" => {
      let (a, l) = listen().await;
      tokio::spawn(async move {
        let mut held = vec![];
        while let Ok((c, _)) = l.accept().await {
          held.push(c);
        }
      });
      return format!("http://{}", a);
    }
    "garbage" => {
      let (a, l) = listen().await;
      tokio::spawn(async move {
        while let Ok((mut c, _)) = l.accept().await {
          use tokio::io::AsyncWriteExt;
          c.write_all(b"HTTP/1.1 400 Bad Request\r\n\r\nno").await.ok();
        }
      });
      return format!("http://{}", a);
    }
    how => {
      for _ in 0..20 {
        let a = address();
        let (how, d, id) = (how.to_string(), d.clone(), id.clone());
        let (o, ps): (Obs, Vec<Obs>) = (obs(n + 1), (1..=n).map(obs).collect());
        let addr = a.clone();
        let h = tokio::spawn(async move {
          if how == "good" {
            let mut b = AstroRunRemoteRunnerServer::builder()
              .id(id)
              .runner(o);
            for p in ps {
              b = b.plugin(p);
            }
            let found = d["found"].as_str().unwrap_or("").to_string();
            if found.is_empty() {
              b = b.support_docker(d["docker"] == true).support_host(d["host"] == true).max_runs(d["max"].as_i64().unwrap_or(5) as i32);
            }
            let built = tokio::task::spawn_blocking(move || find_docker(&found, || b.build().unwrap())).await.unwrap();
            built.serve(&addr).await.ok();
          } else {
            let meta = RunnerMetadata {
              id,
              os: d["os"].as_str().unwrap_or("linux").into(),
              arch: d["arch"].as_str().unwrap_or("x86_64").into(),
              support_docker: d["docker"] == true,
              support_host: d["host"] == true,
              version: if d["version"] == "same" { VERSION.into() } else { d["version"].as_str().unwrap().into() },
              max_runs: d["max"].as_i64().unwrap_or(5) as i32,
            };
            let s = RemoteRunnerServer::new(Fake { o, meta });
            tonic::transport::Server::builder().add_service(s).serve(addr.parse().unwrap()).await.ok();
          }
        });
        // until it answers (or its address was taken)
        for _ in 0..500 {
          if h.is_finished() || TcpStream::connect(&a).await.is_ok() {
            break;
          }
          tokio::time::sleep(Duration::from_millis(2)).await;
        }
        if !h.is_finished() {
          let (front, p) = Proxy::start(a).await;
          w.proxies.lock().insert(i, p);
          return format!("http://{}", front);
        }
      }
      panic!("no server");
    }
  }
}

// ------------------------------------------------------------------ the local side

struct RecScheduler {
  w: Arc<World>,
  inner: Option<DefaultScheduler>,
  rng: Mutex<Rng>,
  seen: Arc<Mutex<Option<Vec<Value>>>>,
}
impl RecScheduler {
  fn told(&self, kind: &str, c: String) {
    self.w.log.with(json!({"k": "told", "kind": kind}), &[("c", c)]);
  }
}
#[astro_run::async_trait]
impl Scheduler for RecScheduler {
  fn on_run_workflow(&self, x: Workflow) {
    self.told("wf.run", canon(&x));
  }
  fn on_run_job(&self, x: astro_run::Job) {
    self.told("job.run", canon(&x));
  }
  fn on_run_step(&self, x: Step) {
    self.told("st.run", canon(&x));
  }
  fn on_step_completed(&self, x: StepRunResult) {
    self.told("st.done", canon(&x));
    if let Some(i) = &self.inner {
      i.on_step_completed(x);
    }
  }
  fn on_job_completed(&self, x: JobRunResult) {
    self.told("job.done", canon(&x));
    if let Some(i) = &self.inner {
      i.on_job_completed(x);
    }
  }
  fn on_workflow_completed(&self, x: WorkflowRunResult) {
    self.told("wf.done", canon(&x));
    if let Some(i) = &self.inner {
      i.on_workflow_completed(x);
    }
  }
  async fn schedule<'a, 'b: 'a>(&'b self, runners: &'a [RunnerMetadata], ctx: &Context) -> Option<&'a RunnerMetadata> {
    let mut l: Vec<Value> = runners.iter().map(|r| json!(self.w.log.number(&canon(r)))).collect();
    l.sort_by_key(|v| v.as_u64());
    if ctx.id.workflow_id().inner() == "probe" {
      *self.seen.lock() = Some(l);
      return None;
    }
    let turn = self.w.sc["turns"].get(ctx.id.to_string()).and_then(|n| n.as_u64()).map(|n| n as usize);
    self.w.waiting.fetch_add(1, Ordering::SeqCst);
    if let Some(n) = turn {
      self.w.turn(n).await;
    }
    let pick = match &self.inner {
      Some(i) => i.schedule(runners, ctx).await,
      None => {
        let mut g = self.rng.lock();
        let fixed = self.w.sc["pick"].get(ctx.id.to_string()).and_then(|p| p.as_str()).map(|s| s.to_string());
        match fixed {
          Some(p) if p.is_empty() => None,
          Some(p) => runners.iter().find(|r| r.id == p),
          None if runners.is_empty() || g.below(15) == 0 => None,
          None => Some(&runners[g.below(runners.len() as u64) as usize]),
        }
      }
    };
    let p = pick.map(|r| r.id.clone()).unwrap_or_default();
    self.w.log.push(json!({"k": "sch", "e": ctx.id.to_string(), "l": l, "id": p}));
    turn.map(|n| self.w.took(n));
    pick
  }
}

struct Local {
  w: Arc<World>,
  inner: AstroRunRemoteRunnerClient,
  n: AtomicUsize,
}
impl Local {
  fn raise(&self, kind: &str, c: String, src: String) -> usize {
    let mut l = self.w.log.log.lock();
    let n = self.n.fetch_add(1, Ordering::SeqCst) + 1;
    *self.w.log.last.lock() = Instant::now();
    let mut num = |c: String| {
      let k = l.1.len() + 1;
      *l.1.entry(c).or_insert(k)
    };
    let (c, src) = (num(c), num(src));
    l.0.push(json!({"k": "h.b", "n": n, "kind": kind, "c": c, "c2": src}));
    n
  }
  fn raised(&self, n: usize) {
    self.w.log.push(json!({"k": "h.e", "n": n}));
  }
}

#[astro_run::async_trait]
impl Runner for Local {
  async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult {
    let n = self.raise("wf.run", canon(&e), canon(&e.source));
    let r = self.inner.on_run_workflow(e).await;
    self.raised(n);
    r
  }
  async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
    let n = self.raise("job.run", canon(&e), canon(&e.source));
    let r = self.inner.on_run_job(e).await;
    self.raised(n);
    r
  }
  async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult {
    let n = self.raise("st.run", canon(&e), canon(&e.source));
    let r = self.inner.on_run_step(e).await;
    self.raised(n);
    r
  }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
    let n = self.raise("state", canon(&e), String::new());
    let r = self.inner.on_state_change(e).await;
    self.raised(n);
    r
  }
  async fn on_job_completed(&self, e: JobRunResult) -> HookNoopResult {
    let n = self.raise("job.done", canon(&e), canon(&e));
    let r = self.inner.on_job_completed(e).await;
    self.raised(n);
    r
  }
  async fn on_workflow_completed(&self, e: WorkflowRunResult) -> HookNoopResult {
    let n = self.raise("wf.done", canon(&e), canon(&e));
    let r = self.inner.on_workflow_completed(e).await;
    self.raised(n);
    r
  }

  async fn on_log(&self, e: WorkflowLog) -> HookNoopResult {
    let err = e.log_type == astro_run::WorkflowLogType::Error;
    self.w.log.push(json!({"k": "line", "e": e.step_id.to_string(), "a": kind_of(err), "c": line(&e.message)}));
    let n = self.raise("log", canon(&e), String::new());
    let r = self.inner.on_log(e).await;
    self.raised(n);
    if let Some(ms) = self.w.sc["lag"].as_u64() {
      tokio::time::sleep(Duration::from_millis(ms)).await;
    }
    r
  }
  async fn on_step_completed(&self, e: StepRunResult) -> HookNoopResult {
    let res = json!({"state": state_name(&e.state), "code": e.exit_code.unwrap_or(-999)});
    self.w.done.lock().insert(e.id.to_string());
    self.w.log.push(json!({"k": "res", "e": e.id.to_string(), "res": res}));
    let n = self.raise("st.done", canon(&e), canon(&e));
    let r = self.inner.on_step_completed(e).await;
    self.raised(n);
    r
  }
  async fn on_before_run_step(&self, step: Step) -> HookBeforeRunStepResult {
    let e = step.id.to_string();
    let was = cmd_text(&step);
    self.w.log.with(json!({"k": "bef.b", "e": e}), &[("c", was.clone())]);
    let r = self.inner.on_before_run_step(step).await;
    let now = r.as_ref().map(cmd_text).unwrap_or(was);
    self.w.log.with(json!({"k": "bef.e", "e": e, "ok": r.is_ok()}), &[("c", now)]);
    r
  }

  async fn run(&self, ctx: Context) -> RunResponse {
    let e = ctx.id.to_string();
    self.w.log.with(json!({"k": "run", "e": e}), &[("c", ctx_text(&ctx)), ("c2", canon(&ctx.command))]);
    for a in self.w.sc["pre"].get(&e).and_then(|a| a.as_array()).cloned().unwrap_or_default() {
      match a[0].as_str().unwrap() {
        "cut" => self.w.cut(a[1].as_u64().unwrap() as usize),
        _ => self.w.cancel(&ctx.id.job_id()),
      }
    }
    // what the step is signalled is seen on its way to the client
    let mut inner = ctx.clone();
    inner.signal = AstroRunSignal::new();
    let (w, sig, pass) = (self.w.clone(), ctx.signal.clone(), inner.signal.clone());
    let id = e.clone();
    tokio::spawn(async move {
      let s = sig.recv().await;
      w.log.push(json!({"k": "sig", "e": id, "a": s.to_string()}));
      match s {
        Signal::Cancel => pass.cancel().ok(),
        Signal::Timeout => pass.timeout().ok(),
      }
    });
    let r = self.inner.run(inner).await;
    self.w.log.push(json!({"k": "run.ret", "e": e, "ok": r.is_ok()}));
    r
  }
}

/// Does something while there is a docker that answers, one that does not, or none.
fn find_docker<T>(found: &str, f: impl FnOnce() -> T) -> T {
  static ONE: Mutex<()> = Mutex::new(());
  if found.is_empty() {
    return f();
  }
  let _one = ONE.lock();
  let docker = std::path::Path::new(&std::env::var("DOCKER_DIR").unwrap()).join("docker");
  std::fs::remove_file(&docker).ok();
  if found != "missing" {
    std::os::unix::fs::symlink(if found == "ok" { "/bin/true" } else { "/bin/false" }, &docker).unwrap();
  }
  f()
}

// ------------------------------------------------------------------ one trace

/// What the scheduler is told of.
const TOLD: [&str; 6] = ["wf.run", "job.run", "st.run", "wf.done", "job.done", "st.done"];

pub async fn trace(sc: Value, log: Arc<Log>) {
  let w = Arc::new(World { log: log.clone(), done: Mutex::default(), turn: AtomicUsize::new(0), waiting: AtomicUsize::new(0), sc: sc.clone(), proxies: Mutex::new(HashMap::new()), run: Mutex::new(None) });
  let mut urls = vec![];
  let mut servers = vec![];
  for (i, d) in sc["servers"].as_array().unwrap().iter().enumerate() {
    urls.push(server(&w, i).await);
    let ours = d["how"] == "good";
    let good = ours || (d["how"] == "fake" && d["version"] == "same");
    let m = RunnerMetadata {
      id: d["id"].as_str().unwrap().into(),
      os: if ours { std::env::consts::OS } else { d["os"].as_str().unwrap_or("linux") }.into(),
      arch: if ours { std::env::consts::ARCH } else { d["arch"].as_str().unwrap_or("x86_64") }.into(),
      support_docker: d["docker"] == true,
      support_host: d["host"] == true,
      version: VERSION.into(),
      max_runs: d["max"].as_i64().unwrap_or(5) as i32,
    };
    let n = d["plugins"].as_u64().unwrap_or(0) + 1;
    let meta = log.number(&canon(&m));
    servers.push(json!({"id": d["id"], "how": d["how"], "good": good, "obs": n, "meta": meta}));
  }
  log.log.lock().0.insert(0, json!({"k": "cfg", "c": {"servers": servers, "starts": sc["starts"]}}));
  let seen = Arc::new(Mutex::new(None));
  let client = AstroRunRemoteRunnerClient::builder()
    .scheduler(RecScheduler {
      w: w.clone(),
      inner: if sc["sched"] == "default" { Some(DefaultScheduler::new()) } else { None },
      rng: Mutex::new(Rng::new(sc["seed"].as_u64().unwrap_or(1))),
      seen: seen.clone(),
    })
    .build()
    .unwrap();
  let mut tasks = vec![];
  let mut wanted = sc["used"].as_array().unwrap().iter().map(|l| l.as_u64().unwrap() as usize);
  for part in sc["starts"].as_array().unwrap() {
    let l: Vec<String> = part.as_array().unwrap().iter().map(|i| urls[i.as_u64().unwrap() as usize].clone()).collect();
    let mut c = client.clone();
    tasks.push(tokio::spawn(async move {
      c.start(l).await.ok();
    }));
    // the runners the client knows, asked until there are as many as there should be
    let n = wanted.next().unwrap();
    let t0 = Instant::now();
    loop {
      let mut p = Context {
        id: StepId::new("probe", "probe", 0),
        signal: AstroRunSignal::new(),
        command: Command::default(),
        event: None,
        payload: None,
      };
      p.command.id = p.id.clone();
      astro_run::Runner::run(&client, p).await.ok();
      if seen.lock().as_ref().map(|l: &Vec<Value>| l.len()).unwrap_or(0) >= n || t0.elapsed() > Duration::from_secs(45) {
        break;
      }
      tokio::time::sleep(Duration::from_millis(3)).await;
    }
    if sc["settle"].as_u64().unwrap_or(0) > 0 {
      tokio::time::sleep(Duration::from_millis(sc["settle"].as_u64().unwrap())).await;
      let mut p = Context { id: StepId::new("probe", "probe", 0), signal: AstroRunSignal::new(), command: Command::default(), event: None, payload: None };
      p.command.id = p.id.clone();
      astro_run::Runner::run(&client, p).await.ok();
    }
    log.push(json!({"k": "known", "l": seen.lock().clone().unwrap_or_default()}));
  }
  let local = Local { w: w.clone(), inner: client.clone(), n: AtomicUsize::new(0) };
  let ar = AstroRun::builder().runner(local).build();
  *w.run.lock() = Some(ar.clone());
  if let Some(l) = sc["driver"].as_array().cloned() {
    let w = w.clone();
    tasks.push(tokio::spawn(async move {
      for a in l {
        let n = a[0].as_u64().unwrap() as usize;
        let t0 = Instant::now();
        while w.waiting.load(Ordering::SeqCst) < w.sc["scripts"].as_object().unwrap().len() && t0.elapsed() < Duration::from_secs(2) {
          tokio::time::sleep(Duration::from_millis(1)).await;
        }
        w.turn(n).await;
        match a[1].as_str().unwrap() {
          "cut" => w.cut(a[2].as_u64().unwrap() as usize),
          _ => w.cancel(&StepId::try_from(a[2].as_str().unwrap()).unwrap().job_id()),
        }
        w.took(n);
      }
    }));
  }
  for round in sc["rounds"].as_array().unwrap() {
    let mut hs = vec![];
    for wf in round.as_array().unwrap() {
      let built = Workflow::builder().id(wf["id"].as_str().unwrap()).config(wf["doc"].to_string()).build(&ar).await.expect("builds");
      let mut c = ar.execution_context();
      if wf["event"].is_object() {
        c = c.event(serde_json::from_value(wf["event"].clone()).unwrap());
      }
      if wf["event"] == true {
        c = c.event(TriggerEvent { sha: format!("sha {}", wf["id"]), pr_number: Some(3), ..Default::default() });
      }
      if wf["payload"] == true {
        c = c.payload(VPayload { text: format!("payload \"of\" {}", wf["id"]), n: 7 });
      }
      let ctx = c.build();
      hs.push(tokio::spawn(async move {
        built.run(ctx).await;
      }));
    }
    let t0 = Instant::now();
    for h in hs {
      let left = Duration::from_secs(60).saturating_sub(t0.elapsed());
      let r = tokio::time::timeout(left, h).await;
      log.push(json!({"k": "ret", "ok": matches!(r, Ok(Ok(())))}));
    }
  }
  let mute = sc["servers"].as_array().unwrap().iter().any(|s| s["how"] == "mute");
  let patience = Duration::from_secs(std::env::var("PATIENCE").ok().and_then(|p| p.parse().ok()).unwrap_or(if mute { 15 } else { 6 }));
  // until nothing is missing any more, or nothing has happened for a while: on a busy
  // machine, where the wait between two looks is longer than it should be, for a longer while
  let watched: Vec<(u64, usize)> = sc["watch"].as_array().unwrap().iter().map(|i| (i.as_u64().unwrap(), servers[i.as_u64().unwrap() as usize]["obs"].as_u64().unwrap() as usize)).collect();
  let (mut looks, mut seen) = (0, 0);
  loop {
    tokio::time::sleep(Duration::from_millis(4)).await;
    let idle = log.last.lock().elapsed();
    let complete = {
      let l = log.log.lock();
      if l.0.len() != seen {
        (looks, seen) = (0, l.0.len());
      }
      looks += 1;
      let raised = l.0.iter().filter(|r| r["k"] == "h.b").count();
      let told = l.0.iter().filter(|r| r["k"] == "told").count();
      let owed = l.0.iter().filter(|r| r["k"] == "h.b" && TOLD.contains(&r["kind"].as_str().unwrap_or(""))).count();
      let cut: Vec<u64> = l.0.iter().filter(|r| r["k"] == "x.cut").map(|r| r["i"].as_u64().unwrap()).collect();
      let mut got: HashMap<u64, usize> = HashMap::new();
      for r in l.0.iter().filter(|r| r["k"] == "d") {
        *got.entry(r["i"].as_u64().unwrap()).or_default() += 1;
      }
      told >= owed && watched.iter().all(|(i, obs)| cut.contains(i) || got.get(i).copied().unwrap_or(0) >= raised * obs)
    };
    if (complete && idle > Duration::from_millis(25)) || (idle > patience && looks as u128 > patience.as_millis() / 6) {
      break;
    }
  }
  log.push(json!({"k": "quiet"}));
  for t in tasks {
    t.abort();
  }
}

pub fn remote(opts: &HashMap<String, String>) {
  let input = std::fs::read_to_string(&opts["in"]).unwrap();
  let scs: Vec<Value> = input.lines().map(|l| serde_json::from_str(l).unwrap()).collect();
  let par: usize = opts.get("par").and_then(|p| p.parse().ok()).unwrap_or(12);
  let next = Arc::new(AtomicUsize::new(0));
  // the only place where a docker is looked for
  let bin = std::path::Path::new(&opts["out"]).with_file_name("bin");
  std::fs::create_dir_all(&bin).unwrap();
  std::env::set_var("DOCKER_DIR", &bin);
  std::env::set_var("PATH", &bin);
  let scs = Arc::new(scs);
  let watch = crate::pool::Watch::new(scs.len(), par);
  for _ in 0..par {
    let (next, watch, scs) = (next.clone(), watch.clone(), scs.clone());
    std::thread::spawn(move || loop {
      let i = next.fetch_add(1, Ordering::SeqCst);
      if i >= scs.len() {
        return;
      }
      if !watch.begin(i) {
        continue;
      }
      // a runtime each: ending it ends every server and connection
      let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
      let (sc, log) = (scs[i].clone(), watch.logs[i].clone());
      let r = rt.block_on(async move { tokio::spawn(trace(sc, log)).await });
      watch.end(i, r.is_ok());
      rt.shutdown_background();
    });
  }
  let traces = watch.wait();
  crate::pool::write_traces(&opts["out"], &traces);
  println!("slow {}", watch.slow.load(Ordering::SeqCst));
  std::process::exit(0);
}
