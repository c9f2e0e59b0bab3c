//! Suite S7: the runner itself. Commands are this program again (`child`), told step by step what to print and how to
//! end; `docker` stands in for docker. Runs as an unprivileged user in a scratch directory.
use crate::remote::{ctx_text, kind_of, line, res_json, Log};
use astro_run::{
  stream, AstroRun, AstroRunSignal, Command, Context, ContainerOptions, EnvironmentVariable, Error, HookNoopResult,
  RunResponse, Runner, Signal, StepId, StreamReceiver, TriggerEvent, Workflow, WorkflowId, WorkflowRunResult, WorkflowState,
};
use astro_runner::AstroRunner;
use parking_lot::Mutex;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::UnixStream;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::io::{AsyncBufReadExt, AsyncWriteExt};
use tokio::net::unix::OwnedWriteHalf;
use tokio::sync::mpsc;

// ------------------------------------------------------------------ the command

fn marked_env() -> BTreeMap<String, String> {
  std::env::vars_os()
    .filter(|(k, _)| k.to_string_lossy().starts_with("V_"))
    .map(|(k, v)| (k.to_string_lossy().into(), v.to_string_lossy().into()))
    .collect()
}

fn files_in(dir: &str) -> Vec<String> {
  let l = std::fs::read_dir(dir).map(|d| d.flatten().map(|f| f.file_name().to_string_lossy().into()).collect());
  let mut files: Vec<String> = l.unwrap_or_default();
  files.sort();
  files
}

/// A command: does what it is told over the socket.
pub fn child(key: &str) {
  let Ok(s) = UnixStream::connect(std::env::var("VSOCK").unwrap()) else { std::process::exit(99) };
  let mut w = s.try_clone().unwrap();
  let files = files_in(".");
  let cwd = std::env::current_dir().map(|d| d.to_string_lossy().to_string()).unwrap_or_default();
  let docker = std::env::var("VDOCKER").ok().map(|d| serde_json::from_str::<Value>(&d).unwrap());
  let hello = json!({"hello": key, "cwd": cwd, "env": marked_env(), "files": files, "docker": docker});
  writeln!(w, "{}", hello).ok();
  let mut out = Some(std::io::stdout());
  let mut err = Some(std::io::stderr());
  for l in BufReader::new(s).lines() {
    let Ok(l) = l else { break };
    let v: Value = serde_json::from_str(&l).unwrap();
    match v[0].as_str().unwrap() {
      "out" => {
        let b: Vec<u8> = v[2].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
        if v[1] == "o" {
          out.as_mut().map(|o| o.write_all(&b).and_then(|_| o.flush()));
        } else {
          err.as_mut().map(|o| o.write_all(&b).and_then(|_| o.flush()));
        }
      }
      "close" => {
        use std::os::fd::{FromRawFd, OwnedFd};
        let fd = if v[1] == "o" { 1 } else { 2 };
        if v[1] == "o" {
          out = None;
        } else {
          err = None;
        }
        // the descriptor is not used any more
        drop(unsafe { OwnedFd::from_raw_fd(fd) });
      }
      "touch" => {
        std::fs::write(v[1].as_str().unwrap(), "x").ok();
      }
      "link" => {
        std::os::unix::fs::symlink(v[2].as_str().unwrap(), v[1].as_str().unwrap()).ok();
      }
      "exit" => std::process::exit(v[1].as_i64().unwrap() as i32),
      "abort" => std::process::abort(),
      _ => {}
    }
    if w.write_all(b"ok\n").is_err() {
      break;
    }
  }
  std::process::exit(98);
}

/// Stands in for docker: `run` runs the entrypoint in the directory that is mounted as the working directory.
pub fn docker(args: Vec<String>) {
  let Ok(mut s) = UnixStream::connect(std::env::var("VSOCK").unwrap()) else { std::process::exit(99) };
  let mut answer = BufReader::new(s.try_clone().unwrap()).lines();
  if args[0] == "kill" {
    writeln!(s, "{}", json!({"kill": args[1]})).ok();
    let ok = answer.next().map(|l| l.unwrap_or_default() == "ok").unwrap_or(false);
    std::process::exit(if ok { 0 } else { 1 });
  }
  let (mut env, mut vols, mut opts, mut flags) = (BTreeMap::new(), vec![], vec![], vec![]);
  let (mut wd, mut entry, mut name, mut image) = (String::new(), String::new(), String::new(), String::new());
  let mut it = args.iter().skip(1).cloned();
  while let Some(a) = it.next() {
    match a.as_str() {
      "-e" => {
        let kv = it.next().unwrap_or_default();
        let (k, v) = kv.split_once('=').unwrap_or((&kv, ""));
        env.insert(k.to_string(), v.to_string());
      }
      "-v" => vols.push(it.next().unwrap_or_default()),
      "--security-opt" => opts.push(it.next().unwrap_or_default()),
      "-w" => wd = it.next().unwrap_or_default(),
      "--entrypoint" => entry = it.next().unwrap_or_default(),
      "--name" => name = it.next().unwrap_or_default(),
      _ if a.starts_with('-') => flags.push(a),
      _ if image.is_empty() => image = a,
      _ => flags.push(a),
    }
  }
  if !is_container_name(&name) {
    eprintln!("docker: invalid container name ({})", name);
    std::process::exit(125);
  }
  let host = |inside: &str| vols.iter().filter_map(|v| v.split_once(':')).find(|(_, i)| *i == inside).map(|(h, _)| h.to_string());
  let (entry, dir) = (host(&entry).unwrap_or_default(), host(&wd).unwrap_or_default());
  let caches = host("/home/work/caches").unwrap_or_default();
  std::fs::create_dir_all(&dir).ok();
  std::fs::create_dir_all(&caches).ok();
  let script = std::fs::read_to_string(&entry).unwrap_or_default();
  let info = json!({"image": image, "env": env, "vols": vols, "opts": opts, "name": name, "script": script, "caches": caches,
    "rm": flags.iter().any(|f| f == "--rm"), "flags": flags});
  if image.starts_with("broken") {
    let key = script.split("\"$VH\" child ").nth(1).and_then(|k| k.split_whitespace().next()).unwrap_or("?");
    let cwd = std::fs::canonicalize(&dir).unwrap_or_default();
    writeln!(s, "{}", json!({"hello": key, "cwd": cwd, "env": {}, "files": files_in(&dir), "docker": info})).ok();
    answer.next();
    eprintln!("docker: no such image");
    std::process::exit(125);
  }
  let mut c = std::process::Command::new(&entry);
  c.env_clear().envs(&env).current_dir(&dir).env("VDOCKER", info.to_string());
  for k in ["VSOCK", "VH", "PATH"] {
    c.env(k, std::env::var(k).unwrap());
  }
  match c.status() {
    Ok(s) => std::process::exit(s.code().unwrap_or_else(|| 128 + s.signal().unwrap_or(0))),
    Err(e) => {
      eprintln!("docker: {}", e);
      std::process::exit(125);
    }
  }
}

/// What docker accepts as the name of a container.
fn is_container_name(name: &str) -> bool {
  let ok = |c: char| c.is_ascii_alphanumeric() || "_.-".contains(c);
  name.len() > 1 && name.starts_with(|c: char| c.is_ascii_alphanumeric()) && name.chars().all(ok)
}

// ------------------------------------------------------------------ the controlling side

/// A command that has reported, and the way to tell it what to do.
struct Conn {
  hello: Value,
  w: tokio::sync::Mutex<OwnedWriteHalf>,
  acks: tokio::sync::Mutex<mpsc::UnboundedReceiver<()>>,
}
type Waiting = Arc<Mutex<HashMap<String, mpsc::UnboundedSender<Arc<Conn>>>>>;

struct Hub {
  waiting: Waiting,
  containers: Mutex<HashMap<String, tokio::sync::oneshot::Sender<()>>>,
  killed: Mutex<Vec<String>>,
}
impl Hub {
  fn start(path: String) -> Arc<Hub> {
    let hub = Arc::new(Hub { waiting: Arc::default(), containers: Mutex::default(), killed: Mutex::default() });
    let h = hub.clone();
    let l = tokio::net::UnixListener::bind(path).unwrap();
    tokio::spawn(async move {
      while let Ok((s, _)) = l.accept().await {
        let h = h.clone();
        tokio::spawn(async move {
          let (r, mut w) = s.into_split();
          let mut r = tokio::io::BufReader::new(r).lines();
          let Ok(Some(l)) = r.next_line().await else { return };
          let v: Value = serde_json::from_str(&l).unwrap();
          if let Some(name) = v["kill"].as_str() {
            h.killed.lock().push(name.to_string());
            let k = h.containers.lock().remove(name);
            let ok = k.map(|k| k.send(()).is_ok()).unwrap_or(false);
            w.write_all(if ok { b"ok\n" } else { b"no\n" }).await.ok();
            return;
          }
          let key = v["hello"].as_str().unwrap().to_string();
          let (tx, rx) = mpsc::unbounded_channel();
          let name = v["docker"]["name"].as_str().map(|s| s.to_string());
          let c = Arc::new(Conn { hello: v, w: tokio::sync::Mutex::new(w), acks: tokio::sync::Mutex::new(rx) });
          let (dtx, mut die) = tokio::sync::oneshot::channel();
          if let Some(name) = name {
            h.containers.lock().insert(name, dtx);
          } else {
            std::mem::forget(dtx);
          }
          if let Some(t) = h.waiting.lock().get(&key) {
            t.send(c.clone()).ok();
          }
          let weak = Arc::downgrade(&c);
          drop(c);
          loop {
            tokio::select! {
              l = r.next_line() => match l {
                Ok(Some(_)) => {
                  tx.send(()).ok();
                }
                _ => break,
              },
              k = &mut die => {
                if k.is_ok() {
                  // the container is killed
                  if let Some(c) = weak.upgrade() {
                    c.w.lock().await.shutdown().await.ok();
                  }
                }
                std::future::pending::<()>().await;
              }
            }
          }
        });
      }
    });
    hub
  }
}

impl Conn {
  /// Tells the command something and waits until it is done.
  async fn tell(&self, v: &Value) -> bool {
    let mut acks = self.acks.lock().await;
    let mut w = self.w.lock().await;
    if w.write_all(format!("{}\n", v).as_bytes()).await.is_ok() {
      drop(w);
      return matches!(tokio::time::timeout(Duration::from_millis(1500), acks.recv()).await, Ok(Some(())));
    }
    false
  }
  async fn last(&self, v: &Value) {
    self.w.lock().await.write_all(format!("{}\n", v).as_bytes()).await.ok();
  }
  /// Ends the command, if it is still there, without any word about how.
  async fn dismiss(&self) {
    self.w.lock().await.shutdown().await.ok();
  }
}

struct World {
  log: Arc<Log>,
  sc: Value,
  hub: Arc<Hub>,
  wd: PathBuf,
  signals: Mutex<HashMap<String, AstroRunSignal>>,
  ended: Mutex<HashMap<String, Arc<Mutex<StreamReceiver>>>>,
  over: Mutex<HashMap<String, tokio::sync::watch::Sender<bool>>>,
  names: Mutex<HashMap<String, String>>,
  hooks: usize,
  afters: AtomicUsize,
  run: Mutex<Option<AstroRun>>,
}
impl World {
  fn step(&self, e: &str) -> Value {
    self.sc["steps"][e].clone()
  }
  fn signal(&self, e: &str, a: &str, pre: bool) {
    let s = self.signals.lock().get(e).cloned();
    if let Some(s) = s {
      self.log.push(json!({"k": "sig", "e": e, "a": a, "pre": pre}));
      if a == "cancel" {
        s.cancel().ok();
      } else {
        s.timeout().ok();
      }
    }
  }
  /// Waits until the step has ended.
  async fn over(&self, e: &str, ms: u64) {
    let r = self.over.lock().get(e).map(|t| t.subscribe());
    if let Some(mut r) = r {
      tokio::time::timeout(Duration::from_millis(ms), r.wait_for(|o| *o)).await.ok();
    }
  }
  fn wfdir(&self, w: &Value) -> String {
    match w["event"].as_array() {
      Some(a) => format!("{}/{}/{}", a[0].as_str().unwrap(), a[1].as_str().unwrap(), w["id"].as_str().unwrap()),
      None => w["id"].as_str().unwrap().to_string(),
    }
  }
}

/// What is to be run for this context, in a form that can be compared with what was.
fn exec_text(ctx: &Context) -> String {
  let env: BTreeMap<String, String> = ctx.command.environments.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
  let os = std::env::consts::OS;
  let c = ctx.command.container.clone();
  if let Some(c) = &c {
    if c.name == format!("host/{}", os) || c.name == format!("host/{}-{}", os, std::env::consts::ARCH) {
      // the shell does not pass on what it cannot have as a variable
      let env: BTreeMap<String, String> = env.into_iter().filter(|(k, _)| k.starts_with("V_")).collect();
      return json!({"host": env}).to_string();
    }
  }
  let run = &ctx.command.run;
  let script = if run.starts_with("#!") { run.clone() } else { format!("#!/bin/sh\n{}", run) };
  let mut vols = c.as_ref().and_then(|c| c.volumes.clone()).unwrap_or_default();
  vols.sort();
  let opts = c.as_ref().and_then(|c| c.security_opts.clone()).unwrap_or_default();
  json!({"env": env, "image": c.map(|c| c.name).unwrap_or("ubuntu".into()), "script": script, "vols": vols, "opts": opts}).to_string()
}
fn exec_seen(hello: &Value) -> String {
  let d = &hello["docker"];
  if d.is_null() {
    return json!({"host": hello["env"]}).to_string();
  }
  let ours = ["/home/work/runner/entrypoint", "/home/runner/work", "/home/work/caches"];
  let mut vols: Vec<String> = d["vols"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();
  vols.retain(|v| !ours.iter().any(|o| v.ends_with(&format!(":{}", o))));
  vols.sort();
  json!({"env": d["env"], "image": d["image"], "script": d["script"], "vols": vols, "opts": d["opts"]}).to_string()
}

/// The runner's own plugins.
struct Hook {
  w: Arc<World>,
  p: usize,
}
#[astro_run::async_trait]
impl astro_runner::Plugin for Hook {
  fn name(&self) -> &'static str {
    "hook"
  }
  async fn on_before_run(&self, ctx: Context) -> astro_run::Result<Context> {
    let e = ctx.id.to_string();
    let was = ctx_text(&ctx);
    let mode = self.w.step(&e)["hook"][self.p.to_string()].as_str().unwrap_or("").to_string();
    let mut ctx = ctx;
    let p = self.p;
    match mode.as_str() {
      "env" => {
        ctx.command.environments.insert(format!("V_H{}", p), EnvironmentVariable::String(format!("by {}", p)));
        ctx.command.environments.insert("V_A".into(), EnvironmentVariable::Number(p as f64 + 0.5));
      }
      "run" => ctx.command.run = format!("{} # {}", ctx.command.run, p),
      "host" | "image" => {
        let c = ContainerOptions { name: if mode == "host" { "host/linux".into() } else { format!("image{}", p) }, volumes: None, security_opts: None };
        ctx.command.container = Some(c);
      }
      "sleep" => tokio::time::sleep(Duration::from_millis(20)).await,
      "cancel" | "timeout" => self.w.signal(&e, &mode, false),
      _ => {}
    }
    let ok = mode != "fail";
    let (now, x) = (ctx_text(&ctx), exec_text(&ctx));
    let rec = json!({"k": "bef", "e": e, "p": p, "ok": ok});
    if ok {
      self.w.log.with(rec, &[("c", was), ("c2", now), ("x2", x)]);
      Ok(ctx)
    } else {
      self.w.log.with(rec, &[("c", was.clone()), ("c2", was), ("x2", x)]);
      Err(Error::error("this hook fails"))
    }
  }
  async fn on_after_run(&self, ctx: Context) -> HookNoopResult {
    let e = ctx.id.to_string();
    // the step may be over before `run` of the wrapper has got its stream
    let t0 = Instant::now();
    while !self.w.ended.lock().contains_key(&e) && t0.elapsed() < Duration::from_secs(20) {
      tokio::time::sleep(Duration::from_millis(1)).await;
    }
    let r = self.w.ended.lock().get(&e).cloned();
    let ended = r.map(|r| r.lock().result().is_some()).unwrap_or(false);
    self.w.log.with(json!({"k": "after", "e": e, "p": self.p, "ended": ended}), &[("c", ctx_text(&ctx))]);
    self.w.afters.fetch_add(1, Ordering::SeqCst);
    if self.w.step(&e)["after"][self.p.to_string()] == "fail" {
      return Err(Error::error("this hook fails"));
    }
    Ok(())
  }
}

/// The runner under test, with everything that passes it written down.
struct Wrap {
  w: Arc<World>,
  inner: AstroRunner,
}
#[astro_run::async_trait]
impl Runner for Wrap {
  async fn on_workflow_completed(&self, r: WorkflowRunResult) -> HookNoopResult {
    let id = r.id.inner();
    self.w.log.push(json!({"k": "wfdone", "w": id}));
    let out = self.inner.on_workflow_completed(r).await;
    let mut left = vec![];
    for w in self.w.sc["wfs"].as_array().unwrap() {
      if self.w.wd.join(self.w.wfdir(w)).exists() {
        left.push(w["id"].clone());
      }
    }
    let kept: Vec<&Value> = self.w.sc["keep"].as_array().unwrap().iter().filter(|k| self.w.wd.join(k.as_str().unwrap()).exists()).collect();
    self.w.log.push(json!({"k": "gone", "w": id, "left": left, "kept": kept.len()}));
    out
  }
  async fn run(&self, ctx: Context) -> RunResponse {
    let e = ctx.id.to_string();
    let w = self.w.clone();
    let repo = ctx.event.as_ref().map(|e| format!("{}/{}/", e.repo_owner, e.repo_name)).unwrap_or_default();
    let dir = format!("{}{}/{}/data", repo, ctx.id.workflow_id().inner(), ctx.id.job_key());
    let rec = json!({"k": "run", "e": e, "dir": dir, "caches": format!("{}caches", repo)});
    self.w.log.with(rec, &[("c", ctx_text(&ctx)), ("x", exec_text(&ctx))]);
    let mut inner = ctx.clone();
    inner.signal = AstroRunSignal::new();
    w.signals.lock().insert(e.clone(), inner.signal.clone());
    let pre = w.step(&e)["pre"].as_str().unwrap_or("").to_string();
    if !pre.is_empty() {
      w.signal(&e, &pre, true);
    }
    let (tx, rx) = stream();
    let over = tokio::sync::watch::channel(false).0;
    w.over.lock().insert(e.clone(), over);
    // what the engine signals, on its way to the runner
    {
      let (w, e, sig) = (w.clone(), e.clone(), ctx.signal.clone());
      tokio::spawn(async move {
        let s = sig.recv().await;
        w.signal(&e, if let Signal::Cancel = s { "cancel" } else { "timeout" }, false);
      });
    }
    let (conn_tx, conn_rx) = mpsc::unbounded_channel();
    let control = w.step(&e)["script"].as_bool() != Some(true);
    if control {
      w.hub.waiting.lock().insert(w.step(&e)["key"].as_str().unwrap().to_string(), conn_tx);
      tokio::spawn(drive(w.clone(), e.clone(), conn_rx));
    } else {
      for r in w.step(&e)["prints"].as_array().unwrap() {
        let mut r = r.clone();
        r["e"] = json!(e);
        w.log.push(r);
      }
    }
    let r = self.inner.run(inner).await;
    let inner = match r {
      Ok(r) => r,
      Err(err) => {
        w.log.push(json!({"k": "ret", "e": e, "ok": false}));
        return Err(err);
      }
    };
    let inner = Arc::new(Mutex::new(inner));
    w.ended.lock().insert(e.clone(), inner.clone());
    w.log.push(json!({"k": "ret", "e": e, "ok": true}));
    tokio::spawn(async move {
      let mut since = 0;
      loop {
        let next = std::future::poll_fn(|cx| {
          use tokio_stream::Stream;
          std::pin::Pin::new(&mut *inner.lock()).poll_next(cx)
        })
        .await;
        let Some(l) = next else { break };
        w.log.push(json!({"k": "line", "e": e, "a": kind_of(l.is_error()), "c": line(&l.message)}));
        if l.is_error() {
          tx.error(l.message);
        } else {
          tx.log(l.message);
        }
        since += 1;
        if since % 64 == 0 {
          tokio::task::yield_now().await;
        }
      }
      let r = inner.lock().result();
      if let Some(name) = w.names.lock().get(&e) {
        w.log.push(json!({"k": "kill", "e": e, "killed": w.hub.killed.lock().contains(name)}));
      }
      w.log.push(json!({"k": "res", "e": e, "res": r.as_ref().map(res_json).unwrap_or(json!({"state": "none", "code": 0}))}));
      if let Some(o) = w.over.lock().get(&e) {
        o.send_replace(true);
      }
      tx.end(r.unwrap_or(astro_run::RunResult::Cancelled));
    });
    Ok(rx)
  }
}

/// Tells the command of a step what to do.
async fn drive(w: Arc<World>, e: String, mut conns: mpsc::UnboundedReceiver<Arc<Conn>>) {
  // it may never come
  let c = tokio::select! {
    c = conns.recv() => c,
    _ = w.over(&e, 30000) => tokio::time::timeout(Duration::from_millis(300), conns.recv()).await.ok().flatten(),
  };
  let Some(c) = c else { return };
  let rel = |p: &Value| -> String {
    let p = p.as_str().unwrap_or_default();
    let wd = w.wd.to_string_lossy().to_string();
    p.strip_prefix(&wd).map(|p| p.trim_start_matches('/').to_string()).unwrap_or(p.to_string())
  };
  let h = &c.hello;
  let d = &h["docker"];
  let rec = json!({"k": "start", "e": e, "dir": rel(&h["cwd"]), "files": h["files"], "docker": !d.is_null(),
    "name": d["name"].as_str().unwrap_or(""), "rm": d["rm"] == true, "caches": rel(&d["caches"])});
  if let Some(name) = d["name"].as_str() {
    w.names.lock().insert(e.clone(), name.to_string());
  }
  w.log.with(rec, &[("x", exec_seen(h))]);
  if d["image"].as_str().unwrap_or("").starts_with("broken") {
    w.log.push(json!({"k": "out", "e": e, "s": "e", "c": "docker: no such image", "fin": true}));
    w.log.push(json!({"k": "exit", "e": e, "code": 125}));
    c.last(&json!(["go"])).await;
    return;
  }
  let mut turn = 0;
  for a in w.step(&e)["acts"].as_array().unwrap() {
    match a[0].as_str().unwrap() {
      "at" => {
        turn = a[1].as_u64().unwrap() as usize;
        wait_turn(&w, turn).await;
        continue;
      }
      "out" => {
        let fin = a[3].as_str().unwrap();
        let bytes: Vec<u8> = match a[2].as_array() {
          Some(b) => b.iter().map(|b| b.as_u64().unwrap() as u8).collect(),
          None => a[2].as_str().unwrap().as_bytes().to_vec(),
        };
        let text = String::from_utf8_lossy(&bytes).to_string();
        let mut all = bytes.clone();
        all.extend_from_slice(match fin {
          "nl" => b"\n",
          "crlf" => b"\r\n",
          _ => b"",
        });
        w.log.push(json!({"k": "out", "e": e, "s": a[1], "c": if fin == "" { text } else { line(&text) }, "fin": fin != ""}));
        c.tell(&json!(["out", a[1], all])).await;
      }
      "lines" => {
        // many lines at once
        let n = a[2].as_u64().unwrap();
        let mut all = vec![];
        for k in 0..n {
          w.log.push(json!({"k": "out", "e": e, "s": a[1], "c": k.to_string(), "fin": true}));
          all.extend_from_slice(format!("{}\n", k).as_bytes());
        }
        c.tell(&json!(["out", a[1], all])).await;
      }
      "close" => {
        w.log.push(json!({"k": "close", "e": e, "s": a[1]}));
        c.tell(a).await;
      }
      "touch" => {
        w.log.push(json!({"k": "touch", "e": e, "c": a[1]}));
        if c.tell(a).await {
          w.log.push(json!({"k": "touched", "e": e, "c": a[1]}));
        }
      }
      "link" => {
        // a way out of the directory, to something that has to stay
        w.log.push(json!({"k": "touch", "e": e, "c": a[1]}));
        if c.tell(&json!(["link", a[1], w.wd.join("own/rep/other")])).await {
          w.log.push(json!({"k": "touched", "e": e, "c": a[1]}));
        }
      }
      "pause" => tokio::time::sleep(Duration::from_millis(a[1].as_u64().unwrap())).await,
      "cancel" | "timeout" => w.signal(&e, a[0].as_str().unwrap(), false),
      "canceljob" => {
        let r = w.run.lock().clone();
        r.map(|r| r.cancel_job(&StepId::try_from(e.as_str()).unwrap().job_id()));
      }
      "hold" => {
        w.over(&e, 8000).await;
        break;
      }
      "exit" => {
        w.log.push(json!({"k": "exit", "e": e, "code": a[1]}));
        c.last(a).await;
        break;
      }
      "abort" => {
        w.log.push(json!({"k": "exit", "e": e, "code": if d.is_null() { -1 } else { 134 }}));
        c.last(a).await;
        break;
      }
      _ => panic!("{}", a),
    }
    took_turn(&w, turn);
  }
  took_turn(&w, turn);
  w.over(&e, 8000).await;
  c.dismiss().await;
}

static TURNS: Mutex<Option<HashMap<usize, Arc<AtomicUsize>>>> = Mutex::new(None);
fn turns(w: &World) -> Arc<AtomicUsize> {
  TURNS.lock().get_or_insert_with(HashMap::new).entry(w as *const World as usize).or_default().clone()
}
async fn wait_turn(w: &World, n: usize) {
  let (t, t0) = (turns(w), Instant::now());
  while t.load(Ordering::SeqCst) < n && t0.elapsed() < Duration::from_millis(500) {
    tokio::time::sleep(Duration::from_millis(1)).await;
  }
  if n > 0 {
    tokio::time::sleep(Duration::from_millis(w.sc["gap"].as_u64().unwrap_or(0))).await;
  }
}
fn took_turn(w: &World, n: usize) {
  turns(w).fetch_max(n + 1, Ordering::SeqCst);
}

fn context(w: &World, wf: &Value, e: &str) -> Context {
  let st = w.step(e);
  let mut c = Command { id: StepId::try_from(e).unwrap(), run: st["run"].as_str().unwrap().into(), timeout: Duration::from_secs(3600), ..Default::default() };
  if let Some(n) = st["image"].as_str() {
    let strs = |v: &Value| v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>());
    c.container = Some(ContainerOptions { name: n.into(), volumes: strs(&st["volumes"]), security_opts: strs(&st["opts"]) });
  }
  for (k, v) in st["env"].as_object().cloned().unwrap_or_default() {
    c.environments.insert(k, serde_json::from_value(v).unwrap());
  }
  let event = wf["event"].as_array().map(|a| TriggerEvent { repo_owner: a[0].as_str().unwrap().into(), repo_name: a[1].as_str().unwrap().into(), ..Default::default() });
  Context { id: c.id.clone(), signal: AstroRunSignal::new(), command: c, event, payload: None }
}

async fn workflow(w: Arc<World>, wrap: Arc<Wrap>, wf: Value) {
  let id = wf["id"].as_str().unwrap().to_string();
  w.log.push(json!({"k": "wf", "w": id}));
  let mut hs = vec![];
  for (j, n) in wf["jobs"].as_object().unwrap() {
    let (w, wrap, wf, j, n, id) = (w.clone(), wrap.clone(), wf.clone(), j.clone(), n.as_u64().unwrap(), id.clone());
    hs.push(tokio::spawn(async move {
      for k in 0..n {
        let e = format!("{}/{}/{}", id, j, k);
        if let Some(t) = w.step(&e)["turn"].as_u64() {
          wait_turn(&w, t as usize).await;
        }
        let r = wrap.run(context(&w, &wf, &e)).await;
        if let Some(t) = w.step(&e)["turn"].as_u64() {
          took_turn(&w, t as usize);
        }
        if let Ok(mut r) = r {
          use astro_run::StreamExt;
          let t = tokio::time::timeout(Duration::from_secs(20), async { while r.next().await.is_some() {} }).await;
          if t.is_err() {
            w.log.push(json!({"k": "stuck", "e": e}));
          }
        }
      }
    }));
  }
  for h in hs {
    h.await.ok();
  }
  let now = chrono::Utc::now();
  let r = WorkflowRunResult { id: WorkflowId::new(id), state: WorkflowState::Succeeded, started_at: Some(now), completed_at: Some(now), jobs: Default::default() };
  wrap.on_workflow_completed(r).await.ok();
}

/// Waits until all hooks have been called, or nothing happens any more.
async fn settled(w: &World) {
  let runs = w.log.records().iter().filter(|r| r["k"] == "run").count();
  // on a busy machine the wait between two looks is longer than it should be
  let mut looks = 0;
  loop {
    tokio::time::sleep(Duration::from_millis(3)).await;
    looks = if w.log.idle() < Duration::from_millis(20) { 0 } else { looks + 1 };
    if (w.afters.load(Ordering::SeqCst) >= runs * w.hooks && w.log.idle() > Duration::from_millis(20)) || (w.log.idle() > Duration::from_secs(4) && looks > 800) {
      break;
    }
  }
}

pub async fn trace(sc: Value, hub: Arc<Hub2>, scratch: PathBuf, log: Arc<Log>) {
  let wd = scratch.join(sc["wd"].as_str().unwrap());
  std::fs::create_dir_all(&wd).unwrap();
  for k in sc["keep"].as_array().unwrap() {
    let f = wd.join(k.as_str().unwrap());
    std::fs::create_dir_all(f.parent().unwrap()).unwrap();
    std::fs::write(f, "kept").unwrap();
  }
  for k in sc["block"].as_array().cloned().unwrap_or_default() {
    let f = wd.join(k.as_str().unwrap());
    std::fs::create_dir_all(f.parent().unwrap()).unwrap();
    std::fs::write(f, "in the way").unwrap();
  }
  let hooks = sc["hooks"].as_u64().unwrap() as usize;
  let w = Arc::new(World {
    log: log.clone(),
    sc: sc.clone(),
    hub: hub.0.clone(),
    wd: wd.clone(),
    signals: Mutex::default(),
    ended: Mutex::default(),
    over: Mutex::default(),
    names: Mutex::default(),
    hooks,
    afters: AtomicUsize::new(0),
    run: Mutex::new(None),
  });
  let mut b = AstroRunner::builder().working_directory(wd.clone());
  for p in 1..=hooks {
    b = b.plugin(Hook { w: w.clone(), p });
  }
  let wrap = Arc::new(Wrap { w: w.clone(), inner: b.build().unwrap() });
  let mut steps = serde_json::Map::new();
  for (e, s) in sc["steps"].as_object().unwrap() {
    let id = StepId::try_from(e.as_str()).unwrap();
    let (wf, job) = (id.workflow_id().inner(), id.job_key());
    let mut name = format!("{}-{}-{}", wf, job, id.step_number());
    if !is_container_name(&name) {
      name.clear();
    }
    steps.insert(e.clone(), json!({"wf": wf, "job": format!("{}/{}", wf, job), "name": name, "bad": s["bad"] == true}));
  }
  log.push(json!({"k": "cfg", "c": {"hooks": hooks, "steps": steps, "keep": sc["keep"].as_array().unwrap().len()}}));
  if sc["engine"] == true {
    let ar = AstroRun::builder().runner(Wrap { w: w.clone(), inner: wrap.inner.clone() }).build();
    *w.run.lock() = Some(ar.clone());
    let mut hs = vec![];
    for wf in sc["rounds"][0].as_array().unwrap() {
      let wf = sc["wfs"][wf.as_u64().unwrap() as usize].clone();
      let id = wf["id"].as_str().unwrap().to_string();
      let mut jobs = serde_json::Map::new();
      for (j, n) in wf["jobs"].as_object().unwrap() {
        let l: Vec<Value> = (0..n.as_u64().unwrap())
          .map(|k| {
            let s = w.step(&format!("{}/{}/{}", id, j, k));
            let mut d = json!({"run": s["run"], "environments": s["env"], "continue-on-error": true});
            if s["timeout"].is_string() {
              d["timeout"] = s["timeout"].clone();
            }
            if s["image"].is_string() {
              d["container"] = json!({"name": s["image"]});
              if s["volumes"].is_array() {
                d["container"]["volumes"] = s["volumes"].clone();
              }
              if s["opts"].is_array() {
                d["container"]["security-opts"] = s["opts"].clone();
              }
            }
            d
          })
          .collect();
        jobs.insert(j.clone(), json!({ "steps": l }));
      }
      let built = Workflow::builder().id(id.as_str()).config(json!({ "jobs": jobs }).to_string()).build(&ar).await.expect("builds");
      let mut c = ar.execution_context();
      if let Some(a) = wf["event"].as_array() {
        c = c.event(TriggerEvent { repo_owner: a[0].as_str().unwrap().into(), repo_name: a[1].as_str().unwrap().into(), ..Default::default() });
      }
      let ctx = c.build();
      log.push(json!({"k": "wf", "w": id}));
      hs.push(tokio::spawn(async move {
        built.run(ctx).await;
      }));
    }
    for h in hs {
      if tokio::time::timeout(Duration::from_secs(40), h).await.is_err() {
        log.push(json!({"k": "stuck", "e": "run"}));
      }
    }
  } else {
    if let Some(l) = sc["driver"].as_array().cloned() {
      let w = w.clone();
      tokio::spawn(async move {
        for a in l {
          let n = a[0].as_u64().unwrap() as usize;
          wait_turn(&w, n).await;
          w.signal(a[2].as_str().unwrap(), a[1].as_str().unwrap(), false);
          took_turn(&w, n);
        }
      });
    }
    for round in sc["rounds"].as_array().unwrap() {
      let mut hs = vec![];
      for wf in round.as_array().unwrap() {
        let wf = sc["wfs"][wf.as_u64().unwrap() as usize].clone();
        hs.push(tokio::spawn(workflow(w.clone(), wrap.clone(), wf)));
      }
      for h in hs {
        h.await.ok();
      }
      settled(&w).await;
    }
  }
  settled(&w).await;
  log.push(json!({"k": "quiet"}));
  TURNS.lock().as_mut().map(|t| t.remove(&(&*w as *const World as usize)));
  for s in sc["steps"].as_object().unwrap().values() {
    if let Some(k) = s["key"].as_str() {
      w.hub.waiting.lock().remove(k);
    }
  }
  *w.run.lock() = None;
}
pub struct Hub2(Arc<Hub>);

pub fn host(opts: &HashMap<String, String>) {
  let input = std::fs::read_to_string(&opts["in"]).unwrap();
  let scs: Vec<Value> = input.lines().map(|l| serde_json::from_str(l).unwrap()).collect();
  let par: usize = opts.get("par").and_then(|p| p.parse().ok()).unwrap_or(8);
  let scratch = PathBuf::from(&opts["scratch"]);
  let n = scs.len();
  let mut b = tokio::runtime::Builder::new_multi_thread();
  let busy = opts.contains_key("busy");
  if busy {
    // file operations have to wait
    b.max_blocking_threads(2);
  }
  let rt = b.worker_threads(8).enable_all().build().unwrap();
  let watch = crate::pool::Watch::new(n, par);
  let all = watch.clone();
  rt.spawn(async move {
    if busy {
      for _ in 0..6 {
        tokio::spawn(async {
          loop {
            tokio::task::spawn_blocking(|| std::thread::sleep(Duration::from_millis(8))).await.ok();
          }
        });
      }
    }
    let hub = Arc::new(Hub2(Hub::start(std::env::var("VSOCK").unwrap())));
    let sem = Arc::new(tokio::sync::Semaphore::new(par));
    for (i, sc) in scs.into_iter().enumerate() {
      let (hub, sem, scratch, watch) = (hub.clone(), sem.clone(), scratch.clone(), all.clone());
      tokio::spawn(async move {
        let _p = sem.acquire().await.unwrap();
        if watch.begin(i) {
          let r = tokio::spawn(trace(sc, hub, scratch, watch.logs[i].clone())).await;
          watch.end(i, r.is_ok());
        }
      });
    }
  });
  let traces = watch.wait();
  crate::pool::write_traces(&opts["out"], &traces);
  println!("slow {}", watch.slow.load(Ordering::SeqCst));
  std::process::exit(0);
}
