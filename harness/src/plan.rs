//! Suite S3: builds workflow files and writes down the resulting plans.
use astro_run::{
  Action, ActionSteps, AstroRun, Context, EnvironmentVariable, Error, Plugin, RunResponse, Runner, UserActionStep,
  UserCommandStep, UserStep, Workflow,
};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::Arc;

struct NoRunner;

#[astro_run::async_trait]
impl Runner for NoRunner {
  async fn run(&self, _ctx: Context) -> RunResponse {
    Err(Error::error("nothing is run"))
  }
}

/// An action (or a supplied one) as described by the file.
#[derive(Clone)]
struct Given(Value);

fn opt(v: &Value) -> Option<Value> {
  v.as_array().and_then(|a| a.first().cloned())
}
fn opt_str(v: &Value) -> Option<String> {
  opt(v).map(|x| x.as_str().unwrap().to_string())
}

fn user_step(v: &Value, echo: Option<&str>) -> UserStep {
  let secrets = opt(&v["secrets"]).map(|l| l.as_array().unwrap().iter().map(|s| s.as_str().unwrap().into()).collect());
  let environments = opt(&v["env"]).map(|l| {
    l.as_array()
      .unwrap()
      .iter()
      .map(|e| {
        let t = e[2].as_str().unwrap().to_string();
        let x = match e[1].as_str().unwrap() {
          "s" => EnvironmentVariable::String(t),
          "n" => EnvironmentVariable::Number(t.parse().unwrap()),
          _ => EnvironmentVariable::Boolean(t == "true"),
        };
        (e[0].as_str().unwrap().to_string(), x)
      })
      .collect::<HashMap<_, _>>()
  });
  let on = opt_str(&v["on"]).map(|t| serde_json::from_str(&t).unwrap());
  if v["k"] == "act" {
    return UserStep::Action(UserActionStep {
      name: opt_str(&v["name"]),
      uses: v["uses"].as_str().unwrap().into(),
      on,
      ..Default::default()
    });
  }
  let mut run = v["run"].as_str().unwrap().to_string();
  if let Some(e) = echo {
    run = format!("{}|{}", run, e);
  }
  UserStep::Command(UserCommandStep {
    name: opt_str(&v["name"]),
    container: opt(&v["container"]).map(|c| {
      if c["short"] == true {
        astro_run::Container::Name(c["name"].as_str().unwrap().into())
      } else {
        let l = |x: &Value| opt(x).map(|l| l.as_array().unwrap().iter().map(|s| s.as_str().unwrap().into()).collect());
        astro_run::Container::Options(astro_run::ContainerOptions {
          name: c["name"].as_str().unwrap().into(),
          volumes: l(&c["volumes"]),
          security_opts: l(&c["security"]),
        })
      }
    }),
    run,
    on,
    continue_on_error: opt(&v["coe"]).map(|b| b.as_bool().unwrap()),
    environments,
    secrets,
    timeout: opt_str(&v["timeout"]),
  })
}

impl Action for Given {
  fn normalize(&self, step: UserActionStep) -> astro_run::Result<ActionSteps> {
    let a = &self.0;
    if a["k"] == "error" {
      return Err(Error::error(a["says"].as_str().unwrap()));
    }
    let raw = serde_json::to_string(&serde_json::to_value(&step).unwrap()).unwrap();
    let echo = if a["echo"] == true { Some(raw.as_str()) } else { None };
    Ok(ActionSteps {
      pre: opt(&a["pre"]).map(|s| user_step(&s, echo)),
      run: user_step(&a["run"][0], echo),
      post: opt(&a["post"]).map(|s| user_step(&s, echo)),
    })
  }
}

struct Supplier(Value);

/// The same supplier, made of a function.
fn supplier(v: Value) -> astro_run::AstroRunPlugin {
  astro_run::AstroRunPlugin::builder("supplier")
    .on_resolve_dynamic_action(move |step: UserActionStep| match v.get(&step.uses) {
      None => Ok(None),
      Some(a) if a["k"] == "none" => Ok(None),
      Some(a) if a["k"] == "fail" => Err(Error::error("the plugin fails")),
      Some(a) => Ok(Some(Box::new(Given(a.clone())) as Box<dyn Action>)),
    })
    .build()
}

#[astro_run::async_trait]
impl Plugin for Supplier {
  fn name(&self) -> &'static str {
    "supplier"
  }
  async fn on_resolve_dynamic_action(&self, step: UserActionStep) -> astro_run::HookResolveActionResult {
    match self.0.get(&step.uses) {
      None => Ok(None),
      Some(a) if a["k"] == "none" => Ok(None),
      Some(a) if a["k"] == "fail" => Err(Error::error("the plugin fails")),
      Some(a) => Ok(Some(Box::new(Given(a.clone())))),
    }
  }
}

fn o<T: serde::Serialize>(x: &Option<T>) -> Value {
  match x {
    None => json!([]),
    Some(x) => json!([x]),
  }
}
fn o_text<T: serde::Serialize>(x: &Option<T>) -> Value {
  match x {
    None => json!([]),
    Some(x) => json!([crate::util::canon(x)]),
  }
}

pub fn plan_json(w: &Workflow) -> Value {
  let mut jobs = Map::new();
  for (k, j) in &w.jobs {
    let steps: Vec<Value> = j
      .steps
      .iter()
      .map(|s| {
        let mut env: Vec<(String, &str, String)> = s
          .environments
          .iter()
          .map(|(k, v)| {
            let t = match v {
              EnvironmentVariable::String(_) => "s",
              EnvironmentVariable::Number(_) => "n",
              EnvironmentVariable::Boolean(_) => "b",
            };
            (k.clone(), t, v.to_string())
          })
          .collect();
        env.sort();
        let ms = s.timeout.as_millis() as i64;
        json!({
          "id": [s.id.workflow_id().inner(), s.id.job_key(), s.id.step_number().to_string()],
          "name": o(&s.name), "on": o_text(&s.on), "run": s.run,
          "container": s.container.as_ref().map(|c| json!([{"name": c.name, "volumes": o(&c.volumes), "security": o(&c.security_opts)}])).unwrap_or(json!([])),
          "coe": s.continue_on_error, "env": env, "secrets": s.secrets, "timeout": ms.min(2_000_000_000),
        })
      })
      .collect();
    jobs.insert(
      k.clone(),
      json!({"id": [j.id.workflow_id().inner(), j.id.job_key()], "name": o(&j.name), "on": o_text(&j.on),
             "deps": j.depends_on, "wd": j.working_directories, "steps": steps}),
    );
  }
  json!({"id": w.id.inner(), "name": o(&w.name), "on": o_text(&w.on), "jobs": jobs})
}

fn built(v: &Value) -> Value {
  let f = &v["f"];
  let r = std::panic::catch_unwind(|| {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
      let mut b = AstroRun::builder().runner(NoRunner);
      for (i, p) in f["plugins"].as_array().unwrap().iter().enumerate() {
        b = if (i as i64 + v["tr"].as_i64().unwrap()) % 3 == 0 { b.plugin(supplier(p.clone())) } else { b.plugin(Supplier(p.clone())) };
      }
      if let Some(a) = f["actions"].as_object() {
        for (k, a) in a {
          b = b.action(k.clone(), Given(a.clone()));
        }
      }
      let astro = b.build();
      let mut wb = Workflow::builder().config(v["yaml"].as_str().unwrap());
      if f["id"] != "" {
        wb = wb.id(f["id"].as_str().unwrap());
      }
      wb.build(&astro).await
    })
  });
  match r {
    Err(_) => json!({"ok": true, "err": "panic", "plan": "panic"}),
    Ok(Err(e)) => json!({"ok": false, "err": e.to_string(), "plan": ""}),
    Ok(Ok(w)) => json!({"ok": true, "err": "", "plan": plan_json(&w)}),
  }
}

/// Builds every file; a build that does not come to an end is given up (`hang`), and after a few of
/// them so are the files that are left.
pub fn plan(opts: &HashMap<String, String>) {
  let text = std::fs::read_to_string(&opts["in"]).unwrap();
  let files: Arc<Vec<Value>> = Arc::new(text.lines().map(|l| serde_json::from_str(l).unwrap()).collect());
  let mut lines = vec![];
  let mut hung = 0;
  let (mut tx, mut rx) = std::sync::mpsc::channel();
  let mut alive = false;
  for n in 0..files.len() {
    if !alive {
      let (files, to) = (files.clone(), tx.clone());
      std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        for v in &files[n..] {
          if to.send(built(v)).is_err() {
            break;
          }
        }
      }).unwrap();
      alive = true;
    }
    let out = match rx.recv_timeout(std::time::Duration::from_secs(20)) {
      Ok(out) => out,
      Err(_) => {
        hung += 1;
        alive = false;
        (tx, rx) = std::sync::mpsc::channel();
        json!({"ok": true, "err": "hang", "plan": "hang"})
      }
    };
    lines.push(json!({"tr": files[n]["tr"], "k": "plan", "f": files[n]["f"], "out": out}).to_string());
    if hung >= 4 {
      break;
    }
  }
  std::fs::write(&opts["out"], lines.join("\n") + "\n").unwrap();
  std::process::exit(0);
}
