//! Suite S4: trigger conditions, decided directly and in whole runs (with a stand-in for GitHub behind HTTPS_PROXY).
use astro_run::{
  stream, AstroRun, Condition, ConditionPayload, Context, RunResponse, RunResult, Runner,
  TriggerEvent, Workflow,
};
use parking_lot::Mutex;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::Arc;

pub fn text(v: &Value) -> String {
  v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
fn texts(v: &Value) -> Vec<String> {
  v.as_array().unwrap().iter().map(text).collect()
}
fn entry(v: &Value) -> Option<Value> {
  v.as_array().unwrap().first().map(|e| {
    let mut m = Map::new();
    for k in ["branches", "paths"] {
      if let Some(l) = e[k].as_array().unwrap().first() {
        m.insert(k.into(), json!(texts(l)));
      }
    }
    Value::Object(m)
  })
}
/// The condition as it is written in a workflow file.
fn written(c: &Value) -> Value {
  if c["k"] == "events" {
    return json!(texts(&c["l"]));
  }
  let mut m = Map::new();
  if let Some(e) = entry(&c["push"]) {
    m.insert("push".into(), e);
  }
  if let Some(e) = entry(&c["pull"]) {
    m.insert("pull_request".into(), e);
  }
  Value::Object(m)
}

struct Outcomes {
  execs: Arc<Mutex<Vec<Value>>>,
}

#[astro_run::async_trait]
impl Runner for Outcomes {
  async fn run(&self, ctx: Context) -> RunResponse {
    let (tx, rx) = stream();
    self.execs.lock().push(json!([ctx.command.id.job_key(), ctx.command.id.step_number().to_string()]));
    tx.end(if ctx.command.run == "fail" { RunResult::Failed { exit_code: 3 } } else { RunResult::Succeeded });
    Ok(rx)
  }
}

async fn whole_run(r: &Value, key: &str) -> Value {
  let mut doc = json!({"jobs": {}});
  if let Some(c) = r["on"].as_array().unwrap().first() {
    doc["on"] = written(c);
  }
  for (k, j) in r["jobs"].as_object().unwrap() {
    let mut job = json!({"steps": []});
    if let Some(c) = j["on"].as_array().unwrap().first() {
      job["on"] = written(c);
    }
    if j["deps"].as_array().is_some_and(|d| !d.is_empty()) {
      job["depends-on"] = j["deps"].clone();
    }
    for s in j["steps"].as_array().unwrap() {
      let mut step = json!({"run": if s["fails"] == true { "fail" } else { "ok" }, "continue-on-error": s["coe"]});
      if let Some(c) = s["on"].as_array().unwrap().first() {
        step["on"] = written(c);
      }
      job["steps"].as_array_mut().unwrap().push(step);
    }
    doc["jobs"][k] = job;
  }
  let execs = Arc::new(Mutex::new(vec![]));
  let mut b = AstroRun::builder().runner(Outcomes { execs: execs.clone() });
  if let Some(a) = r["auth"].as_array().unwrap().first() {
    b = if a["k"] == "app" {
      b.github_app(a["id"].as_u64().unwrap(), key.to_string())
    } else {
      b.github_personal_token(a["token"].as_str().unwrap())
    };
  }
  let ar = b.build();
  let wf = match Workflow::builder().config(doc.to_string()).build(&ar).await {
    Ok(w) => w,
    Err(e) => return json!({"state": format!("not built: {}", e), "jobs": {}, "execs": []}),
  };
  let mut c = ar.execution_context();
  if let Some(e) = r["event"].as_array().unwrap().first() {
    c = c.event(TriggerEvent {
      event: text(&e["event"]),
      branch: text(&e["branch"]),
      sha: e["sha"].as_str().unwrap().into(),
      pr_number: e["pr"].as_array().unwrap().first().map(|n| n.as_i64().unwrap()),
      repo_owner: format!("t{}", r["tr"]),
      repo_name: "repo".into(),
      ref_name: "refs/heads/x".into(),
    });
  }
  let res = wf.run(c.build()).await;
  let jobs: Map<String, Value> = res
    .jobs
    .iter()
    .map(|(k, j)| {
      let steps: Vec<Value> = j.steps.iter().map(|s| json!(crate::util::state_name(&s.state))).collect();
      (k.clone(), json!({"state": crate::util::state_name(&j.state), "steps": steps}))
    })
    .collect();
  let execs = execs.lock().clone();
  json!({"state": crate::util::state_name(&res.state), "jobs": jobs, "execs": execs})
}

pub fn cond(opts: &HashMap<String, String>) {
  let key = opts.get("key").map(|k| std::fs::read_to_string(k).unwrap()).unwrap_or_default();
  let input = std::fs::read_to_string(&opts["in"]).unwrap();
  let mut recs: Vec<Value> = input.lines().map(|l| serde_json::from_str(l).unwrap()).collect();
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
  let par = Arc::new(tokio::sync::Semaphore::new(12));
  let mut runs = vec![];
  for (i, r) in recs.iter_mut().enumerate() {
    match r["k"].as_str().unwrap() {
      "match" => {
        let c: Condition = serde_json::from_value(written(&r["c"])).unwrap();
        let p = ConditionPayload { event: text(&r["event"]), branch: text(&r["branch"]), paths: texts(&r["files"]) };
        r["ok"] = json!(std::panic::catch_unwind(|| c.is_match(&p)).map(Value::Bool).unwrap_or(json!("panic")));
      }
      "glob" => {
        let c: Condition = serde_json::from_value(json!({"push": {"branches": [text(&r["p"])]}})).unwrap();
        let mut oks = vec![];
        for (n, v) in r["vals"].as_array().unwrap().iter().enumerate() {
          let p = ConditionPayload { event: "push".into(), branch: text(v), paths: vec![] };
          if c.is_match(&p) {
            oks.push(n + 1);
          }
        }
        r["oks"] = json!(oks);
      }
      _ => {
        let (r, par, key) = (r.clone(), par.clone(), key.clone());
        runs.push((i, rt.spawn(async move {
          let _p = par.acquire_owned().await.unwrap();
          match tokio::time::timeout(std::time::Duration::from_secs(60), whole_run(&r, &key)).await {
            Ok(v) => v,
            Err(_) => json!({"state": "no end", "jobs": {}, "execs": []}),
          }
        })));
      }
    }
  }
  let until = tokio::time::Instant::now() + std::time::Duration::from_secs(180);
  for (i, h) in runs {
    recs[i]["out"] = match rt.block_on(async { tokio::time::timeout_at(until, h).await }) {
      Ok(Ok(v)) => v,
      Ok(Err(_)) => json!({"state": "panic", "jobs": {}, "execs": []}),
      Err(_) => json!({"state": "no end", "jobs": {}, "execs": []}),
    };
  }
  let text: String = recs.iter().map(|r| r.to_string() + "\n").collect();
  std::fs::write(&opts["out"], text).unwrap();
  std::process::exit(0);
}
