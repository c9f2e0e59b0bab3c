//! Small helpers shared by the suites: a seeded generator, the event log, conversions to JSON.
use astro_run::{
  Command, ContextPayloadExt, JobRunResult, Step, StepRunResult, TriggerEvent, WorkflowRunResult,
  WorkflowState,
};
use parking_lot::Mutex;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

pub use crate::rng::Rng;

/// The event log of one run: records in the order they happened.
#[derive(Clone)]
pub struct Recorder {
  pub records: Arc<Mutex<Vec<Value>>>,
  pub base: SystemTime,
  pub start: Arc<Mutex<Option<tokio::time::Instant>>>,
  pub limit: usize,
  pub twins: Arc<Mutex<Twins>>,
}

/// Runs of the same workflow at the same time: the ids of both are the same, so what happens is attributed by the
/// task it happens in. The run of a job's task is told by the payload of the job's announcement.
#[derive(Default)]
pub struct Twins {
  pub on: bool,
  pub by_task: HashMap<tokio::task::Id, String>,
  pub by_payload: HashMap<String, String>,
  /// something could not be attributed
  pub lost: bool,
}

pub const LIMIT: usize = 20000;

impl Recorder {
  pub fn new() -> Self {
    Recorder {
      records: Arc::new(Mutex::new(vec![])),
      base: SystemTime::now(),
      start: Arc::new(Mutex::new(None)),
      limit: LIMIT,
      twins: Default::default(),
    }
  }
  pub fn push(&self, mut v: Value) {
    let mut r = self.records.lock();
    if r.len() >= self.limit {
      return;
    }
    let t = self
      .start
      .lock()
      .map(|s| tokio::time::Instant::now().saturating_duration_since(s).as_millis() as i64)
      .unwrap_or(0);
    v["t"] = json!(t);
    v["u"] = json!(self.micros(SystemTime::now()));
    r.push(v);
  }
  /// The id of a workflow, job or step; of twins with the mark of the run it belongs to.
  pub fn id<T: ToString>(&self, id: &T) -> String {
    let id = id.to_string();
    let mut twins = self.twins.lock();
    if !twins.on {
      return id;
    }
    match tokio::task::try_id().and_then(|t| twins.by_task.get(&t).cloned()) {
      Some(run) => match id.split_once('/') {
        Some((_, rest)) => format!("{}/{}", run, rest),
        None => run,
      },
      None => {
        twins.lost = true;
        id
      }
    }
  }
  /// What the current task does belongs to this run.
  pub fn belongs(&self, run: &str) {
    let mut twins = self.twins.lock();
    if let (true, Some(t)) = (twins.on, tokio::task::try_id()) {
      // a task that works for several runs tells nothing
      if twins.by_task.entry(t).or_insert(run.to_string()) != run {
        twins.lost = true;
      }
    }
  }
  pub fn belongs_by(&self, payload: &str) {
    let run = self.twins.lock().by_payload.get(payload).cloned();
    if let Some(run) = run {
      self.belongs(&run);
    }
  }
  pub fn full(&self) -> bool {
    self.records.lock().len() >= self.limit
  }
  pub fn micros(&self, t: SystemTime) -> i64 {
    match t.duration_since(self.base) {
      Ok(d) => d.as_micros() as i64,
      Err(e) => -(e.duration().as_micros() as i64) - 10,
    }
  }
  pub fn time(&self, t: &Option<chrono::DateTime<chrono::Utc>>) -> i64 {
    match t {
      None => -1,
      Some(t) => self.micros(SystemTime::from(*t)),
    }
  }

  pub fn step_result(&self, r: &StepRunResult) -> Value {
    json!({
      "id": self.id(&r.id),
      "state": state_name(&r.state),
      "code": r.exit_code.unwrap_or(-999),
      "s0": self.time(&r.started_at),
      "c0": self.time(&r.completed_at),
    })
  }
  pub fn job_result(&self, r: &JobRunResult) -> Value {
    json!({
      "id": self.id(&r.id),
      "state": state_name(&r.state),
      "s0": self.time(&r.started_at),
      "c0": self.time(&r.completed_at),
      "steps": r.steps.iter().map(|s| self.step_result(s)).collect::<Vec<_>>(),
    })
  }
  pub fn wf_result(&self, r: &WorkflowRunResult) -> (Value, Value) {
    let mut jobs = serde_json::Map::new();
    let wid = self.id(&r.id);
    for (k, j) in &r.jobs {
      jobs.insert(format!("{}/{}", wid, k), self.job_result(j));
    }
    (
      json!({
        "id": self.id(&r.id),
        "state": state_name(&r.state),
        "s0": self.time(&r.started_at),
        "c0": self.time(&r.completed_at),
      }),
      Value::Object(jobs),
    )
  }
}

pub fn state_name(s: &WorkflowState) -> &'static str {
  match s {
    WorkflowState::Pending => "pending",
    WorkflowState::Queued => "queued",
    WorkflowState::InProgress => "in_progress",
    WorkflowState::Succeeded => "succeeded",
    WorkflowState::Failed => "failed",
    WorkflowState::Cancelled => "cancelled",
    WorkflowState::Skipped => "skipped",
  }
}

/// A canonical text of any serialisable value (object keys sorted).
pub fn canon<T: serde::Serialize>(v: &T) -> String {
  let v = serde_json::to_value(v).unwrap_or(Value::Null);
  serde_json::to_string(&v).unwrap()
}

/// Everything of a command except its timeout.
pub fn body(c: &Command) -> String {
  let mut c = c.clone();
  c.timeout = Duration::from_secs(0);
  canon(&c)
}

/// The command a step stands for, taken over part by part.
pub fn command_of(s: &Step) -> Command {
  let s = s.clone();
  Command {
    id: s.id,
    name: s.name,
    container: s.container,
    run: s.run,
    continue_on_error: s.continue_on_error,
    environments: s.environments,
    secrets: s.secrets,
    timeout: s.timeout,
  }
}

pub fn step_body(s: &Step) -> (String, i64) {
  (body(&command_of(s)), s.timeout.as_millis() as i64)
}

pub fn event_text(e: &Option<TriggerEvent>) -> String {
  match e {
    None => String::new(),
    Some(e) => canon(e),
  }
}

#[derive(serde::Serialize, serde::Deserialize, Clone)]
pub struct VPayload {
  pub text: String,
  pub n: i64,
}

#[typetag::serde]
impl ContextPayloadExt for VPayload {
  fn as_any(&self) -> &dyn std::any::Any {
    self
  }
}
