From e85ebc6824b8757e902fbbd182828869a23421e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 01/29] fix: start a job once even when other jobs complete
 while it is running

A job with dependencies stayed in the waiting list while it was running, so
the completion of any other job started it a second time.
---
 crates/astro-run/src/workflow/mod.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/crates/astro-run/src/workflow/mod.rs b/crates/astro-run/src/workflow/mod.rs
index 4e7c511..e09086e 100644
--- a/crates/astro-run/src/workflow/mod.rs
+++ b/crates/astro-run/src/workflow/mod.rs
@@ -96,7 +96,6 @@ impl Workflow {
         workflow_state = WorkflowState::Cancelled;
       }
 
-      waiting_jobs.retain(|(k, _)| k != &key);
       job_results.insert(key, job_result);
 
       if job_results.len() == total_jobs {
@@ -106,21 +105,19 @@ impl Workflow {
         break;
       }
 
-      for (job_id, job) in waiting_jobs.iter() {
-        if !job.depends_on.is_empty() {
-          let mut all_finished = true;
-          for depends_on_key in &job.depends_on {
-            if !job_results.contains_key(depends_on_key) {
-              all_finished = false;
-              break;
-            }
-          }
+      // A job leaves the waiting list as soon as it is started, so that it is started only once
+      waiting_jobs.retain(|(job_id, job)| {
+        let all_finished = job
+          .depends_on
+          .iter()
+          .all(|depends_on_key| job_results.contains_key(depends_on_key));
 
-          if all_finished {
-            self.run_job(job_id.clone(), job.clone(), ctx.clone(), sender.clone());
-          }
+        if all_finished {
+          self.run_job(job_id.clone(), job.clone(), ctx.clone(), sender.clone());
         }
-      }
+
+        !all_finished
+      });
     }
 
     let completed_at = chrono::Utc::now();
-- 
2.43.0


From 49edff40d7c7c2deeebb468517e8900ed0c59718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 02/29] fix: count the timeout of a step from its start, not
 from its last log line

The timer was created anew for every received log line and signal, so a step
that keeps logging never timed out.
---
 crates/astro-run/src/execution_context/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index fb4ea6e..b24764f 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -105,10 +105,16 @@ impl ExecutionContext {
 
     self.call_on_state_change(event).await;
 
+    // The timeout is counted once, from the start of the step
+    let timeout = time::sleep(timeout);
+    tokio::pin!(timeout);
+    let mut is_timeout = false;
+
     loop {
       tokio::select! {
         // Timeout
-        _ = time::sleep(timeout) => {
+        _ = &mut timeout, if !is_timeout => {
+          is_timeout = true;
           // Ignore error
           signal.timeout().ok();
         }
-- 
2.43.0


From 34731f318344b00808e25262c03271bbe5aa6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 03/29] fix: do not start further steps of a job that has been
 cancelled

A cancellation was lost if the running step ended without being cancelled, or
if it arrived between two steps: the rest of the job was run.
---
 crates/astro-run/src/execution_context/mod.rs | 7 +++++++
 crates/astro-run/src/workflow/job.rs          | 8 +++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index b24764f..7d86d4c 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -205,6 +205,13 @@ impl ExecutionContext {
     self.signal_manager.cancel_job(job_id)
   }
 
+  pub(crate) fn is_job_cancelled(&self, job_id: &JobId) -> bool {
+    self
+      .signal_manager
+      .get_signal(job_id)
+      .map_or(false, |signal| signal.is_cancelled())
+  }
+
   pub(crate) async fn is_match(&self, condition: &Condition) -> bool {
     self.condition_matcher.is_match(condition).await
   }
diff --git a/crates/astro-run/src/workflow/job.rs b/crates/astro-run/src/workflow/job.rs
index f12604a..4335feb 100644
--- a/crates/astro-run/src/workflow/job.rs
+++ b/crates/astro-run/src/workflow/job.rs
@@ -50,8 +50,14 @@ impl Job {
     let mut steps = Vec::new();
 
     for step in self.steps.iter().cloned() {
+      // The job may be cancelled while no step receives the signal
+      let is_cancelled = ctx.is_job_cancelled(&self.id);
+      if is_cancelled && job_state.is_in_progress() {
+        job_state = WorkflowState::Cancelled;
+      }
+
       let mut skipped = match job_state {
-        WorkflowState::Failed => !step.continue_on_error,
+        WorkflowState::Failed => is_cancelled || !step.continue_on_error,
         WorkflowState::Cancelled | WorkflowState::Skipped => true,
         _ => false,
       };
-- 
2.43.0


From d6652ba8d5b09fa49f4d05d2595e0b32b5860f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 04/29] fix: keep the first result of a stream when it is ended
 concurrently

The check and the update were made under separate locks.
---
 crates/astro-run/src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/astro-run/src/stream.rs b/crates/astro-run/src/stream.rs
index 0223139..d0d1081 100644
--- a/crates/astro-run/src/stream.rs
+++ b/crates/astro-run/src/stream.rs
@@ -104,12 +104,12 @@ impl StreamSender {
   }
 
   pub fn end(&self, result: RunResult) {
-    if self.is_ended() {
+    let mut state = self.state.lock();
+    if state.result.is_some() {
       log::trace!("StreamSender: already ended");
       return;
     }
 
-    let mut state = self.state.lock();
     state.result = Some(result);
 
     if let Some(waker) = state.waker.take() {
-- 
2.43.0


From a2e9625fef764545e8994f4cc00e263fb37f0fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 05/29] fix: do not give a host step to the job's last runner
 if it offers no host

Operator precedence: the check for host support did not apply to container
names with an architecture.
---
 crates/scheduler/src/default.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/scheduler/src/default.rs b/crates/scheduler/src/default.rs
index 8ca7251..d3b4797 100644
--- a/crates/scheduler/src/default.rs
+++ b/crates/scheduler/src/default.rs
@@ -62,8 +62,9 @@ impl Scheduler for DefaultScheduler {
         if r.id == last_used_id {
           if is_runs_on_host {
             let container_name = container_name.clone().unwrap();
-            return r.support_host && container_name == format!("host/{}", r.os)
-              || container_name == format!("host/{}-{}", r.os, r.arch);
+            return r.support_host
+              && (container_name == format!("host/{}", r.os)
+                || container_name == format!("host/{}-{}", r.os, r.arch));
           }
 
           return true;
-- 
2.43.0


From 942cd193c49574c7b4cf2d262548fb17af0832a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 06/29] fix: finish the execution of a step whose command
 succeeded

The branch of the command was only taken for errors, so after a successful
command the executor kept waiting for a signal: the after-run hooks were never
called and the step directory was never removed. The data directory of a job
on the host is no longer removed by each of its steps (which so far happened
only for failed and cancelled ones), as the following steps need it.
---
 crates/runner/src/executors/docker.rs |  6 ++++--
 crates/runner/src/executors/host.rs   | 10 +++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 8623861..73dcd60 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -48,8 +48,10 @@ impl Executor for DockerExecutor {
 
       // Run the command
       tokio::select! {
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        res = command.run(sender.clone()) => {
+          if let Err(err) = res {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           log::trace!("Killing running docker: {}", metadata.docker_name);
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index fb1f244..cb4ddc6 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -37,8 +37,10 @@ impl Executor for HostExecutor {
 
       tokio::select! {
         // Run the command
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        res = command.run(sender.clone()) => {
+          if let Err(err) = res {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           // TODO: cancel the command
@@ -51,9 +53,7 @@ impl Executor for HostExecutor {
         }
       }
 
-      // Clean up working directory
-      fs::remove_dir_all(&metadata.job_data_directory).await?;
-
+      // The directory is shared with the other steps of the job: it is cleaned up with the workflow
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
-- 
2.43.0


From 155cb5e6c9ad78ff92378ba92a3ea41a238ca9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 07/29] fix: report a step signalled before its command started
 as cancelled or timed out

It was reported as failed with exit code 1.
---
 crates/runner/src/executors/docker.rs | 5 +++++
 crates/runner/src/executors/host.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 73dcd60..7c543fc 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -75,6 +75,11 @@ impl Executor for DockerExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step is already completed");
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index cb4ddc6..a5a26ad 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -57,6 +57,11 @@ impl Executor for HostExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
-- 
2.43.0


From ac1da6d4e84abb440d1dbedd8114a7ef39137ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 08/29] fix: report the whole output of a command when one of
 its streams is closed first

Reading stopped at the end of the first stream, and lines of the other were lost.
---
 crates/runner/src/command.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index bfff992..c4947f5 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -79,33 +79,37 @@ impl Command {
     let mut lines = out.lines();
     let mut errors = err.lines();
 
-    loop {
+    // Read both streams to their end, whichever is closed first
+    let mut is_out_closed = false;
+    let mut is_err_closed = false;
+
+    while !is_out_closed || !is_err_closed {
       tokio::select! {
-        line = lines.next_line() => {
+        line = lines.next_line(), if !is_out_closed => {
           match line {
             Ok(Some(line)) => {
               sender.log(line);
             }
             Ok(None) => {
-                break;
+              is_out_closed = true;
             }
             Err(err) => {
               sender.error(err.to_string());
-              break;
+              is_out_closed = true;
             }
           }
         }
-        error = errors.next_line() => {
+        error = errors.next_line(), if !is_err_closed => {
           match error {
             Ok(Some(error)) => {
               sender.error(error);
             }
             Ok(None) => {
-              break;
+              is_err_closed = true;
             }
             Err(err) => {
               sender.error(err.to_string());
-              break;
+              is_err_closed = true;
             }
           }
         }
-- 
2.43.0


From a06ec5003ceb3a89c5fd399d89cf775236d1adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 09/29] fix: forget the trigger event of a workflow when it has
 completed

A later run of the workflow without an event was cleaned up in the directory of
the repository of the earlier run, and its own directory was left.
---
 crates/runner/src/astro_runner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/runner/src/astro_runner.rs b/crates/runner/src/astro_runner.rs
index 749c753..9072f82 100644
--- a/crates/runner/src/astro_runner.rs
+++ b/crates/runner/src/astro_runner.rs
@@ -98,7 +98,7 @@ impl AstroRunner {
   }
 
   fn cleanup_workflow_working_directory(&self, result: astro_run::WorkflowRunResult) -> Result<()> {
-    let event = self.state.lock().workflow_events.get(&result.id).cloned();
+    let event = self.state.lock().workflow_events.remove(&result.id);
 
     let mut directory = self.working_directory.clone();
 
-- 
2.43.0


From f6b19fa71e52e466c12a43656dd94044a13750a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 10/29] fix: tell the scheduler about started and completed
 workflows, jobs and steps

Its hooks were never called, so the runs counted for a runner never went down
and jobs and steps were remembered for ever.
---
 crates/remote-runner/src/client.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index b06dee4..1f52c25 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -72,6 +72,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_step_completed(&self, result: astro_run::StepRunResult) -> HookNoopResult {
+    self.scheduler.on_step_completed(result.clone());
+
     let event = ProtocolEvent::StepCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -82,6 +84,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_job_completed(&self, result: astro_run::JobRunResult) -> HookNoopResult {
+    self.scheduler.on_job_completed(result.clone());
+
     let event = ProtocolEvent::JobCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -92,6 +96,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_workflow_completed(&self, result: astro_run::WorkflowRunResult) -> HookNoopResult {
+    self.scheduler.on_workflow_completed(result.clone());
+
     let event = ProtocolEvent::WorkflowCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -112,6 +118,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_step(&self, event: astro_run::RunStepEvent) -> HookNoopResult {
+    self.scheduler.on_run_step(event.source.clone());
+
     let event = ProtocolEvent::RunStep(event);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -122,6 +130,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_job(&self, event: astro_run::RunJobEvent) -> HookNoopResult {
+    self.scheduler.on_run_job(event.source.clone());
+
     let event = ProtocolEvent::RunJob(event);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -132,6 +142,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_workflow(&self, event: astro_run::RunWorkflowEvent) -> HookNoopResult {
+    self.scheduler.on_run_workflow(event.source.clone());
+
     let event = ProtocolEvent::RunWorkflow(event);
 
     if let Err(err) = self.event_sender.send(event) {
-- 
2.43.0


From 91256f13022663d4ce281710f2029072cb90e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 11/29] fix: forward every event to the remote runners when
 they are slow

With more than 30 events waiting the forwarding stopped for good.
---
 crates/remote-runner/src/client.rs | 35 +++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 1f52c25..481d877 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -6,7 +6,7 @@ use astro_run_protocol::{ProtocolEvent, RunResponse};
 use astro_run_scheduler::Scheduler;
 use parking_lot::Mutex;
 use std::{collections::HashMap, sync::Arc};
-use tokio::sync::broadcast;
+use tokio::sync::mpsc;
 use tokio_stream::StreamExt;
 
 type GRPCClient = RemoteRunnerClient<tonic::transport::Channel>;
@@ -18,11 +18,36 @@ struct Client {
   client: GRPCClient,
 }
 
+/// Passes every event to every subscriber, however far it is behind
+#[derive(Clone, Default)]
+struct EventSender {
+  subscribers: Arc<Mutex<Vec<mpsc::UnboundedSender<ProtocolEvent>>>>,
+}
+
+impl EventSender {
+  fn subscribe(&self) -> mpsc::UnboundedReceiver<ProtocolEvent> {
+    let (sender, receiver) = mpsc::unbounded_channel();
+    self.subscribers.lock().push(sender);
+    receiver
+  }
+
+  fn send(&self, event: ProtocolEvent) -> Result<()> {
+    let mut subscribers = self.subscribers.lock();
+    subscribers.retain(|subscriber| subscriber.send(event.clone()).is_ok());
+
+    if subscribers.is_empty() {
+      return Err(Error::internal_runtime_error("No active subscribers"));
+    }
+
+    Ok(())
+  }
+}
+
 #[derive(Clone)]
 pub struct AstroRunRemoteRunnerClient {
   clients: Arc<Mutex<HashMap<String, Client>>>,
   scheduler: Arc<Box<dyn Scheduler>>,
-  event_sender: broadcast::Sender<ProtocolEvent>,
+  event_sender: EventSender,
 }
 
 #[astro_run::async_trait]
@@ -203,7 +228,7 @@ impl AstroRunRemoteRunnerClient {
       }
     }
 
-    while let Ok(event) = receiver.recv().await {
+    while let Some(event) = receiver.recv().await {
       let clients = self.clients.lock().clone();
       for (_, mut client) in clients {
         if let Err(err) = client.client.send_event(event.clone()).await {
@@ -336,11 +361,9 @@ impl AstroRunRemoteRunnerClientBuilder {
       .scheduler
       .unwrap_or_else(|| Box::new(astro_run_scheduler::DefaultScheduler::new()));
 
-    let (event_sender, _) = broadcast::channel(30);
-
     Ok(AstroRunRemoteRunnerClient {
       scheduler: Arc::new(scheduler),
-      event_sender,
+      event_sender: EventSender::default(),
       clients: Arc::new(Mutex::new(HashMap::new())),
     })
   }
-- 
2.43.0


From 53b12a9b47da40727b0663af38271371e9d7252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 12/29] fix: reject workflow files with circular job
 dependencies

A cycle among some of the jobs, or a job depending on itself, was accepted and
the run of the workflow never ended.
---
 crates/astro-run/src/user_config.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/user_config.rs b/crates/astro-run/src/user_config.rs
index 20e07ff..41587b2 100644
--- a/crates/astro-run/src/user_config.rs
+++ b/crates/astro-run/src/user_config.rs
@@ -1,6 +1,6 @@
 use crate::{Condition, EnvironmentVariables, Error, Id, Result};
 use serde::{Deserialize, Serialize};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 #[derive(Debug, Clone, Deserialize, Serialize)]
 pub struct ContainerOptions {
@@ -113,6 +113,29 @@ impl UserWorkflow {
       ));
     }
 
+    // Every job must be reachable: repeatedly take the jobs whose dependencies are all satisfied
+    let mut pending: Vec<(&Id, &UserJob)> = workflow.jobs.iter().collect();
+    let mut satisfied: HashSet<&Id> = HashSet::new();
+
+    while !pending.is_empty() {
+      let (ready, blocked): (Vec<_>, Vec<_>) = pending
+        .into_iter()
+        .partition(|(_, job)| job.depends_on.iter().flatten().all(|key| satisfied.contains(key)));
+
+      if ready.is_empty() {
+        let mut jobs: Vec<&str> = blocked.iter().map(|(key, _)| key.as_str()).collect();
+        jobs.sort_unstable();
+
+        return Err(Error::workflow_config_error(format!(
+          "Dependencies of jobs {} can never be satisfied",
+          jobs.join(", ")
+        )));
+      }
+
+      satisfied.extend(ready.into_iter().map(|(key, _)| key));
+      pending = blocked;
+    }
+
     Ok(())
   }
 }
-- 
2.43.0


From bb9b4814136afd81c89be7705c0e64388d40171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 13/29] fix: pick and record the runner of a step in one go, so
 that steps scheduled at the same time see each other

---
 crates/scheduler/src/default.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/scheduler/src/default.rs b/crates/scheduler/src/default.rs
index d3b4797..ea3a5f9 100644
--- a/crates/scheduler/src/default.rs
+++ b/crates/scheduler/src/default.rs
@@ -55,7 +55,10 @@ impl Scheduler for DefaultScheduler {
 
     log::trace!("Is runs on host: {}", is_runs_on_host);
 
-    let last_used_id = self.state.lock().job_runners.get(&job_id).cloned();
+    // Held until the runner is recorded, steps scheduled at the same time would not see each other otherwise
+    let mut state = self.state.lock();
+
+    let last_used_id = state.job_runners.get(&job_id).cloned();
 
     if let Some(last_used_id) = last_used_id {
       runner = runners.iter().find(|r| {
@@ -77,12 +80,11 @@ impl Scheduler for DefaultScheduler {
     }
 
     if runner.is_none() {
-      runner = self.pick_runner(runners, container_name);
+      runner = self.pick_runner(runners, container_name, &state.runs_count);
       log::trace!("Picked runner: {:?}", runner);
     }
 
     if let Some(runner) = &runner {
-      let mut state = self.state.lock();
       state
         .step_runners
         .insert(ctx.command.id.clone(), runner.id.clone());
@@ -134,6 +136,7 @@ impl DefaultScheduler {
     &'b self,
     runners: &'a [RunnerMetadata],
     container: Option<String>,
+    runs_count: &HashMap<String, i32>,
   ) -> Option<&'a RunnerMetadata> {
     let is_runs_on_host = container
       .clone()
@@ -143,19 +146,19 @@ impl DefaultScheduler {
     if is_runs_on_host {
       self.pick_host_runner(runners, container.unwrap())
     } else {
-      self.pick_docker_runner(runners)
+      self.pick_docker_runner(runners, runs_count)
     }
   }
 
   fn pick_docker_runner<'a, 'b: 'a>(
     &'b self,
     runners: &'a [RunnerMetadata],
+    runs_count: &HashMap<String, i32>,
   ) -> Option<&'a RunnerMetadata> {
-    let runs_count = self.state.lock().runs_count.clone();
     let min_runs = runners
       .iter()
       .filter(|r| r.support_docker)
-      .min_by_key(|r| runs_count.get(&r.id).unwrap_or(&0));
+      .min_by_key(|r| runs_count.get(&r.id).copied().unwrap_or(0));
 
     min_runs
   }
-- 
2.43.0


From 079faac3e5afa552cdc6489f292785b8a3bd517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 14/29] fix: take the changed files of large commits and pull
 requests into account completely

---
 .../execution_context/condition_matcher.rs    | 83 +++++++++++++------
 1 file changed, 59 insertions(+), 24 deletions(-)

diff --git a/crates/astro-run/src/execution_context/condition_matcher.rs b/crates/astro-run/src/execution_context/condition_matcher.rs
index 3249f17..713d481 100644
--- a/crates/astro-run/src/execution_context/condition_matcher.rs
+++ b/crates/astro-run/src/execution_context/condition_matcher.rs
@@ -1,5 +1,5 @@
 use crate::{Condition, ConditionPayload, Error, GithubAuthorization, Result, TriggerEvent};
-use octocrate::{APIConfig, AppAuthorization, GitHubAPI, PersonalAccessToken};
+use octocrate::{pulls, repos, APIConfig, AppAuthorization, GitHubAPI, PersonalAccessToken};
 use parking_lot::Mutex;
 use std::sync::Arc;
 
@@ -87,17 +87,28 @@ impl ConditionMatcher {
     } = self.event.as_ref().unwrap();
     let github_api = self.get_github_api_by_repo(repo_owner, repo_name).await?;
 
-    let commit = github_api
-      .repos
-      .get_commit(repo_owner, repo_name, sha)
-      .send()
-      .await
-      .map_err(|e| Error::internal_runtime_error(format!("Failed to get commit: {}", e)))?;
+    let mut files = vec![];
+
+    // The files of a large commit are spread over several pages
+    for page in 1i64.. {
+      let response = github_api
+        .repos
+        .get_commit(repo_owner, repo_name, sha)
+        .query(&repos::get_commit::Query::builder().page(page).build())
+        .send_with_response()
+        .await
+        .map_err(|e| Error::internal_runtime_error(format!("Failed to get commit: {}", e)))?;
 
-    let files: Vec<String> = commit
-      .files
-      .map(|files| files.iter().map(|f| f.filename.clone()).collect())
-      .unwrap_or(vec![]);
+      let has_next_page = Self::has_next_page(response.headers.get("link"));
+
+      for file in response.data.files.unwrap_or_default() {
+        files.push(file.filename);
+      }
+
+      if !has_next_page {
+        break;
+      }
+    }
 
     Ok(files)
   }
@@ -111,20 +122,44 @@ impl ConditionMatcher {
     } = self.event.as_ref().unwrap();
     let github_api = self.get_github_api_by_repo(repo_owner, repo_name).await?;
 
-    let pull_request_files = github_api
-      .pulls
-      .list_files(
-        repo_owner,
-        repo_name,
-        pr_number.ok_or(Error::workflow_config_error("pr_number is not provided"))?,
-      )
-      .send()
-      .await
-      .map_err(|e| {
-        Error::internal_runtime_error(format!("Failed to get pull request files: {}", e))
-      })?;
+    let pr_number = pr_number.ok_or(Error::workflow_config_error("pr_number is not provided"))?;
+    let mut files = vec![];
+
+    // The files of a large pull request are spread over several pages
+    for page in 1i64.. {
+      let query = pulls::list_files::Query::builder()
+        .per_page(100)
+        .page(page)
+        .build();
+
+      let response = github_api
+        .pulls
+        .list_files(repo_owner, repo_name, pr_number)
+        .query(&query)
+        .send_with_response()
+        .await
+        .map_err(|e| {
+          Error::internal_runtime_error(format!("Failed to get pull request files: {}", e))
+        })?;
+
+      let has_next_page = Self::has_next_page(response.headers.get("link"));
+
+      for file in response.data {
+        files.push(file.filename);
+      }
+
+      if !has_next_page {
+        break;
+      }
+    }
+
+    Ok(files)
+  }
 
-    Ok(pull_request_files.into_iter().map(|f| f.filename).collect())
+  fn has_next_page<T: AsRef<[u8]>>(link: Option<T>) -> bool {
+    link
+      .map(|link| String::from_utf8_lossy(link.as_ref()).contains(r#"rel="next""#))
+      .unwrap_or(false)
   }
 
   async fn get_github_api_by_repo(
-- 
2.43.0


From 109f8b638a59e556177c5ded6e24d9dd1ad70457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 15/29] fix: do not let an invalid pattern hide the matches of
 the others

---
 crates/astro-run/src/types/condition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/astro-run/src/types/condition.rs b/crates/astro-run/src/types/condition.rs
index 2be4f91..9b6a933 100644
--- a/crates/astro-run/src/types/condition.rs
+++ b/crates/astro-run/src/types/condition.rs
@@ -109,8 +109,8 @@ fn is_match_patterns(values: &Vec<String>, patterns: &Vec<String>) -> bool {
           }
         }
         Err(err) => {
+          // An invalid pattern matches nothing, the others still count
           log::error!("Invalid glob pattern: {}", err);
-          return false;
         }
       }
     }
-- 
2.43.0


From 1d30f01189410b5ad94b22ebcf579edee2f76c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 16/29] fix: ignore a lost connection once the result of a
 remote step has arrived

---
 crates/remote-runner/src/client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 481d877..8c1a609 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -304,7 +304,9 @@ impl AstroRunRemoteRunnerClient {
                     }
                   }
                   RunResponse::Result { step_id: _, result } => {
+                    // Nothing that happens to the connection matters any more
                     sender.end(result);
+                    return Ok(());
                   }
                 }
             }
-- 
2.43.0


From 97b8840b78b16f3e4b37291ea4cbb561ef0a4cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 17/29] fix: accept log lines, commands and events of more than
 4 MB from and on remote runners

---
 crates/remote-runner/src/client.rs        | 4 +++-
 crates/remote-runner/src/runner_server.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 8c1a609..3edfdab 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -244,7 +244,9 @@ impl AstroRunRemoteRunnerClient {
   async fn connect(url: String) -> Result<Client> {
     let mut client = GRPCClient::connect(url)
       .await
-      .map_err(|e| Error::internal_runtime_error(format!("Failed to connect: {}", e)))?;
+      .map_err(|e| Error::internal_runtime_error(format!("Failed to connect: {}", e)))?
+      // Log lines and commands may be of any size
+      .max_decoding_message_size(usize::MAX);
 
     let res = client
       .get_runner_metadata(astro_run_protocol::Empty {})
diff --git a/crates/remote-runner/src/runner_server.rs b/crates/remote-runner/src/runner_server.rs
index cfc4125..d6fad5f 100644
--- a/crates/remote-runner/src/runner_server.rs
+++ b/crates/remote-runner/src/runner_server.rs
@@ -28,7 +28,7 @@ impl AstroRunRemoteRunnerServer {
       .parse()
       .map_err(|_| Error::internal_runtime_error("Failed to parse address"))?;
 
-    let service = RemoteRunnerServer::new(self);
+    let service = RemoteRunnerServer::new(self).max_decoding_message_size(usize::MAX);
 
     tonic::transport::Server::builder()
       .add_service(service)
-- 
2.43.0


From b58a586a1f51354dee62eec2f23c7aaf8ed6ae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 18/29] fix: notify every remote runner once when runners are
 connected by several calls

---
 crates/remote-runner/src/client.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 3edfdab..65e3215 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -209,6 +209,7 @@ impl AstroRunRemoteRunnerClient {
     T: Into<String>,
   {
     let mut receiver = self.event_sender.subscribe();
+    let mut connected = Vec::new();
 
     for url in urls {
       let url = url.into();
@@ -220,6 +221,7 @@ impl AstroRunRemoteRunnerClient {
             continue;
           }
           log::trace!("Connected to runner: {}", client.metadata.id);
+          connected.push(client.clone());
           clients.insert(client.id.clone(), client);
         }
         Err(err) => {
@@ -229,8 +231,8 @@ impl AstroRunRemoteRunnerClient {
     }
 
     while let Some(event) = receiver.recv().await {
-      let clients = self.clients.lock().clone();
-      for (_, mut client) in clients {
+      // The runners connected by other calls are notified there
+      for client in connected.iter_mut() {
         if let Err(err) = client.client.send_event(event.clone()).await {
           log::error!("Failed to send event: {}", err);
         }
-- 
2.43.0


From 17dc9a7580e25119f83328dca2d7714a48ed267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 19/29] fix: do not wait forever for a remote runner that does
 not answer

---
 crates/remote-runner/src/client.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 65e3215..cb1e3be 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -5,10 +5,13 @@ use astro_run_protocol::RunnerMetadata;
 use astro_run_protocol::{ProtocolEvent, RunResponse};
 use astro_run_scheduler::Scheduler;
 use parking_lot::Mutex;
-use std::{collections::HashMap, sync::Arc};
+use std::{collections::HashMap, sync::Arc, time::Duration};
 use tokio::sync::mpsc;
 use tokio_stream::StreamExt;
 
+/// How long to wait for a runner to answer before going on with the others
+const CONNECT_TIMEOUT: Duration = Duration::from_secs(10);
+
 type GRPCClient = RemoteRunnerClient<tonic::transport::Channel>;
 
 #[derive(Clone)]
@@ -213,7 +216,14 @@ impl AstroRunRemoteRunnerClient {
 
     for url in urls {
       let url = url.into();
-      match Self::connect(url.clone()).await {
+      let connecting = tokio::time::timeout(CONNECT_TIMEOUT, Self::connect(url.clone()));
+      let connecting = connecting.await.unwrap_or_else(|_| {
+        Err(Error::internal_runtime_error(
+          "Timed out waiting for the runner",
+        ))
+      });
+
+      match connecting {
         Ok(client) => {
           let mut clients = self.clients.lock();
           if clients.contains_key(&client.id) {
-- 
2.43.0


From 07e8336f13d91d22ab3e53df0d146fd5a3c6094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 20/29] fix: keep the signal of a remote step when the previous
 run of that step completes late

---
 crates/remote-runner/src/runner_server.rs | 39 +++++++++++++++--------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/crates/remote-runner/src/runner_server.rs b/crates/remote-runner/src/runner_server.rs
index d6fad5f..b802342 100644
--- a/crates/remote-runner/src/runner_server.rs
+++ b/crates/remote-runner/src/runner_server.rs
@@ -15,7 +15,7 @@ pub struct AstroRunRemoteRunnerServer {
   support_host: bool,
   runner: Arc<Box<dyn Runner>>,
   plugin_driver: SharedPluginDriver,
-  signals: Arc<Mutex<HashMap<StepId, astro_run::AstroRunSignal>>>,
+  signals: Arc<Mutex<HashMap<StepId, Arc<astro_run::AstroRunSignal>>>>,
 }
 
 impl AstroRunRemoteRunnerServer {
@@ -41,13 +41,34 @@ impl AstroRunRemoteRunnerServer {
 
   fn run(
     runner: Arc<Box<dyn Runner>>,
+    signals: Arc<Mutex<HashMap<StepId, Arc<astro_run::AstroRunSignal>>>>,
     sender: mpsc::Sender<Result<RunResponse, tonic::Status>>,
     ctx: astro_run::Context,
   ) {
     let id = ctx.id.clone();
+    let signal = Arc::new(ctx.signal.clone());
+
+    signals.lock().insert(id.clone(), signal.clone());
+
+    // Forget the signal, unless it is that of another run of the step
+    let forget_signal = {
+      let id = id.clone();
+      move || {
+        let mut signals = signals.lock();
+        if signals.get(&id).map_or(false, |s| Arc::ptr_eq(s, &signal)) {
+          signals.remove(&id);
+        }
+      }
+    };
 
     tokio::spawn(async move {
-      let mut stream = runner.run(ctx).await?;
+      let mut stream = match runner.run(ctx).await {
+        Ok(stream) => stream,
+        Err(err) => {
+          forget_signal();
+          return Err(err);
+        }
+      };
 
       while let Some(log) = stream.next().await {
         if let Err(err) = sender.send(Ok(RunResponse::log(id.clone(), log))).await {
@@ -55,6 +76,8 @@ impl AstroRunRemoteRunnerServer {
         }
       }
 
+      forget_signal();
+
       let result = stream.result().ok_or(Error::internal_runtime_error(
         "Cannot get result from runner".to_string(),
       ))?;
@@ -85,14 +108,9 @@ impl RemoteRunnerExt for AstroRunRemoteRunnerServer {
 
     let context = request.into_inner();
 
-    self
-      .signals
-      .lock()
-      .insert(context.id.clone(), context.signal.clone());
-
     let runner = self.runner.clone();
 
-    Self::run(runner, tx, context);
+    Self::run(runner, self.signals.clone(), tx, context);
 
     Ok(tonic::Response::new(ReceiverStream::new(rx)))
   }
@@ -121,11 +139,6 @@ impl RemoteRunnerExt for AstroRunRemoteRunnerServer {
         }
       }
       ProtocolEvent::StepCompleted(result) => {
-        // Remove signal once step is completed
-        let step_id = &result.id;
-
-        self.signals.lock().remove(step_id);
-
         // Dispatch event to plugins and runner
         self.plugin_driver.on_step_completed(result.clone()).await;
         if let Err(err) = self.runner.on_step_completed(result).await {
-- 
2.43.0


From 3261c840dece8044c40e6738e38346ce4bf558e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 21/29] fix: notify every remote runner on its own, so that one
 that hangs does not hold up the others

---
 crates/remote-runner/src/client.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index cb1e3be..6ad202b 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -7,6 +7,7 @@ use astro_run_scheduler::Scheduler;
 use parking_lot::Mutex;
 use std::{collections::HashMap, sync::Arc, time::Duration};
 use tokio::sync::mpsc;
+use tokio::task::JoinSet;
 use tokio_stream::StreamExt;
 
 /// How long to wait for a runner to answer before going on with the others
@@ -212,7 +213,8 @@ impl AstroRunRemoteRunnerClient {
     T: Into<String>,
   {
     let mut receiver = self.event_sender.subscribe();
-    let mut connected = Vec::new();
+    let mut connected: Vec<mpsc::UnboundedSender<ProtocolEvent>> = Vec::new();
+    let mut forwarders = JoinSet::new();
 
     for url in urls {
       let url = url.into();
@@ -231,7 +233,10 @@ impl AstroRunRemoteRunnerClient {
             continue;
           }
           log::trace!("Connected to runner: {}", client.metadata.id);
-          connected.push(client.clone());
+          // Every runner is notified on its own, whatever happens to the others
+          let (sender, events) = mpsc::unbounded_channel();
+          connected.push(sender);
+          forwarders.spawn(Self::forward(client.clone(), events));
           clients.insert(client.id.clone(), client);
         }
         Err(err) => {
@@ -242,10 +247,8 @@ impl AstroRunRemoteRunnerClient {
 
     while let Some(event) = receiver.recv().await {
       // The runners connected by other calls are notified there
-      for client in connected.iter_mut() {
-        if let Err(err) = client.client.send_event(event.clone()).await {
-          log::error!("Failed to send event: {}", err);
-        }
+      for sender in connected.iter() {
+        sender.send(event.clone()).ok();
       }
     }
 
@@ -253,6 +256,14 @@ impl AstroRunRemoteRunnerClient {
     Ok(())
   }
 
+  async fn forward(mut client: Client, mut events: mpsc::UnboundedReceiver<ProtocolEvent>) {
+    while let Some(event) = events.recv().await {
+      if let Err(err) = client.client.send_event(event).await {
+        log::error!("Failed to send event: {}", err);
+      }
+    }
+  }
+
   async fn connect(url: String) -> Result<Client> {
     let mut client = GRPCClient::connect(url)
       .await
-- 
2.43.0


From 5c630718bbf72aed71c7a1af12bd021cbb5687c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 22/29] fix: report output that is not valid UTF-8 instead of
 dropping the rest of the stream

---
 crates/runner/src/command.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index c4947f5..370bc3b 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -76,8 +76,8 @@ impl Command {
     let out = BufReader::new(out);
     let err = BufReader::new(err);
 
-    let mut lines = out.lines();
-    let mut errors = err.lines();
+    let mut lines = out.split(b'\n');
+    let mut errors = err.split(b'\n');
 
     // Read both streams to their end, whichever is closed first
     let mut is_out_closed = false;
@@ -85,10 +85,10 @@ impl Command {
 
     while !is_out_closed || !is_err_closed {
       tokio::select! {
-        line = lines.next_line(), if !is_out_closed => {
+        line = lines.next_segment(), if !is_out_closed => {
           match line {
             Ok(Some(line)) => {
-              sender.log(line);
+              sender.log(line_to_string(line));
             }
             Ok(None) => {
               is_out_closed = true;
@@ -99,10 +99,10 @@ impl Command {
             }
           }
         }
-        error = errors.next_line(), if !is_err_closed => {
+        error = errors.next_segment(), if !is_err_closed => {
           match error {
             Ok(Some(error)) => {
-              sender.error(error);
+              sender.error(line_to_string(error));
             }
             Ok(None) => {
               is_err_closed = true;
@@ -168,6 +168,13 @@ impl Command {
   }
 }
 
+/// The output of a command is not necessarily valid UTF-8
+fn line_to_string(line: Vec<u8>) -> String {
+  let line = line.strip_suffix(b"\r").unwrap_or(&line);
+
+  String::from_utf8_lossy(line).into_owned()
+}
+
 #[cfg(test)]
 mod tests {
   use super::*;
-- 
2.43.0


From 5f5a7a445f67fbb7d432d409e4ea1a53fbff5515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 23/29] fix: pass environment variables to the container as
 they are, without the shell interpreting them

---
 crates/runner/src/docker.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/docker.rs b/crates/runner/src/docker.rs
index 64fc7bd..8c62ee7 100644
--- a/crates/runner/src/docker.rs
+++ b/crates/runner/src/docker.rs
@@ -86,7 +86,7 @@ impl Docker {
 
     for (key, value) in &self.environments {
       docker_command.push("-e".to_string());
-      docker_command.push(format!("{}=\"{}\"", key, value));
+      docker_command.push(format!("{}=\"{}\"", key, escape(value)));
     }
 
     if let Some(working_dir) = &self.working_dir {
@@ -110,6 +110,25 @@ impl Docker {
   }
 }
 
+/// Keep the shell from interpreting a text in double quotes
+fn escape(text: &str) -> String {
+  let escape = if cfg!(target_os = "windows") {
+    '`'
+  } else {
+    '\\'
+  };
+  let mut escaped = String::with_capacity(text.len());
+
+  for c in text.chars() {
+    if c == escape || matches!(c, '"' | '$' | '`') {
+      escaped.push(escape);
+    }
+    escaped.push(c);
+  }
+
+  escaped
+}
+
 impl From<Docker> for Command {
   fn from(docker: Docker) -> Self {
     let command = docker.generate_docker_command();
-- 
2.43.0


From 351eb14a1c0433cf2fb87297153911dbda9f4cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 24/29] fix: mount volumes with options, such as
 /host:/container:ro

---
 crates/runner/src/executors/docker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 7c543fc..c1cb46c 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -117,7 +117,8 @@ impl DockerExecutor {
 
     if let Some(Some(volumes)) = ctx.command.container.as_ref().map(|c| c.volumes.clone()) {
       for volume in volumes {
-        if let [host_path, container_path] = volume.split(':').collect::<Vec<&str>>()[..] {
+        // May be followed by options, such as /host:/container:ro
+        if let Some((host_path, container_path)) = volume.split_once(':') {
           docker = docker.volume(host_path, container_path);
         }
       }
-- 
2.43.0


From e3a532b9a47a1fd2edcce200c23d242391257109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 25/29] fix: start a container only once its entrypoint has
 been written

---
 crates/runner/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/runner/src/utils.rs b/crates/runner/src/utils.rs
index dd14606..57cf98a 100644
--- a/crates/runner/src/utils.rs
+++ b/crates/runner/src/utils.rs
@@ -26,6 +26,9 @@ pub async fn create_executable_file(file_path: &PathBuf, content: &String) -> Re
 
   file.write_all(content.as_bytes()).await?;
 
+  // The file is closed in the background once the last write has been done
+  file.flush().await?;
+
   // Fix Text file busy
   drop(file);
 
-- 
2.43.0


From 22dbb53ad5512123910e1fe1391e723278e98a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 26/29] fix: do not let a process spawned meanwhile keep the
 entrypoint of a container from being executed

---
 crates/runner/src/command.rs | 22 ++++++++++++++--------
 crates/runner/src/utils.rs   |  9 ++++++++-
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index 370bc3b..7294760 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -1,3 +1,4 @@
+use crate::utils::SPAWN_LOCK;
 use astro_run::{Error, Result, RunResult, StreamSender};
 use serde::{Deserialize, Serialize};
 use std::{
@@ -40,7 +41,12 @@ impl Command {
 
   pub async fn exec(&mut self) -> Result<String> {
     let mut command = self.build_command();
-    let output = command.output().await.map_err(|err| {
+    let guard = SPAWN_LOCK.read().await;
+    // The process is spawned by the call itself
+    let output = command.output();
+    drop(guard);
+
+    let output = output.await.map_err(|err| {
       Error::internal_runtime_error(format!("Failed to spawn child process: {}", err))
     })?;
 
@@ -58,13 +64,13 @@ impl Command {
 
   pub async fn run(&mut self, sender: StreamSender) -> Result<()> {
     let mut command = self.build_command();
-    let mut child = command
-      .stdout(Stdio::piped())
-      .stderr(Stdio::piped())
-      .spawn()
-      .map_err(|err| {
-        Error::internal_runtime_error(format!("Failed to spawn child process: {}", err))
-      })?;
+    command.stdout(Stdio::piped()).stderr(Stdio::piped());
+
+    let guard = SPAWN_LOCK.read().await;
+    let mut child = command.spawn().map_err(|err| {
+      Error::internal_runtime_error(format!("Failed to spawn child process: {}", err))
+    })?;
+    drop(guard);
 
     let out = child.stdout.take().ok_or(Error::internal_runtime_error(
       "Failed to get stdout from child process".to_string(),
diff --git a/crates/runner/src/utils.rs b/crates/runner/src/utils.rs
index 57cf98a..6baeece 100644
--- a/crates/runner/src/utils.rs
+++ b/crates/runner/src/utils.rs
@@ -1,8 +1,15 @@
 use astro_run::Result;
 use std::path::PathBuf;
-use tokio::{fs, io::AsyncWriteExt};
+use tokio::{fs, io::AsyncWriteExt, sync::RwLock};
+
+/// A process inherits the open files of its parent until it executes its program, and a file that
+/// is open for writing cannot be executed. Held for reading while a process is spawned, and for
+/// writing while an executable file is written.
+pub static SPAWN_LOCK: RwLock<()> = RwLock::const_new(());
 
 pub async fn create_executable_file(file_path: &PathBuf, content: &String) -> Result<()> {
+  let _guard = SPAWN_LOCK.write().await;
+
   let mut file;
   #[cfg(unix)]
   {
-- 
2.43.0


From 9c66ad5bd33dcaa794f8e49ab037e020b9e3b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:39 +0000
Subject: [PATCH 27/29] fix: do not hang when a workflow is run twice at the
 same time

---
 crates/astro-run/src/execution_context/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index 7d86d4c..396d1ed 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -50,7 +50,8 @@ impl ExecutionContext {
     let job_signal = self
       .signal_manager
       .get_signal(&step.id.job_id())
-      .expect("Missing job signal");
+      // The same job completed in another run at the same time
+      .unwrap_or_else(AstroRunSignal::new);
 
     // Step signal
     let signal = AstroRunSignal::new();
-- 
2.43.0


From 16fc0ab8013b408546720d067de6cf4e0c2dfe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:39 +0000
Subject: [PATCH 28/29] fix: run container steps of jobs whose key is not a
 container name

---
 crates/runner/src/metadata.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/metadata.rs b/crates/runner/src/metadata.rs
index f11c5ff..b2f6555 100644
--- a/crates/runner/src/metadata.rs
+++ b/crates/runner/src/metadata.rs
@@ -94,7 +94,7 @@ impl MetadataBuilder {
       .join(step_number.to_string());
 
     let entrypoint_path = step_host_working_directory.join("entrypoint");
-    let docker_name = format!("{}-{}-{}", workflow_id, job_key, step_number);
+    let docker_name = to_container_name(&format!("{}-{}-{}", workflow_id, job_key, step_number));
     let docker_working_directory = String::from("/home/runner/work");
 
     Metadata {
@@ -108,6 +108,26 @@ impl MetadataBuilder {
   }
 }
 
+/// The name of a container consists of letters, digits, `_`, `.` and `-`, and starts with a letter or digit
+fn to_container_name(name: &str) -> String {
+  let mut container_name = String::with_capacity(name.len());
+
+  for c in name.chars() {
+    if c.is_ascii_alphanumeric() || matches!(c, '_' | '.' | '-') {
+      container_name.push(c);
+    } else {
+      // Keep names apart that differ in such letters only
+      container_name.push_str(&format!("_{:x}", c as u32));
+    }
+  }
+
+  if !container_name.starts_with(|c: char| c.is_ascii_alphanumeric()) {
+    container_name.insert_str(0, "step");
+  }
+
+  container_name
+}
+
 #[cfg(test)]
 mod tests {
   use super::*;
-- 
2.43.0


From 39461dd27c44f3c45c31df34318194b0a53a2aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:40 +0000
Subject: [PATCH 29/29] fix: pass options of containers and their paths with
 special characters as they are

---
 crates/runner/src/docker.rs           | 27 +++++++++++++++++++++++----
 crates/runner/src/executors/docker.rs |  8 ++++----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/crates/runner/src/docker.rs b/crates/runner/src/docker.rs
index 8c62ee7..508cec7 100644
--- a/crates/runner/src/docker.rs
+++ b/crates/runner/src/docker.rs
@@ -76,7 +76,7 @@ impl Docker {
 
     for security_opt in &self.security_opts {
       docker_command.push("--security-opt".to_string());
-      docker_command.push(security_opt.to_string());
+      docker_command.push(escape_word(security_opt));
     }
 
     for volume in &self.volumes {
@@ -86,7 +86,7 @@ impl Docker {
 
     for (key, value) in &self.environments {
       docker_command.push("-e".to_string());
-      docker_command.push(format!("{}=\"{}\"", key, escape(value)));
+      docker_command.push(format!("{}=\"{}\"", escape_word(key), escape(value)));
     }
 
     if let Some(working_dir) = &self.working_dir {
@@ -104,14 +104,14 @@ impl Docker {
       docker_command.push(name.to_string());
     }
 
-    docker_command.push(self.image.clone());
+    docker_command.push(escape_word(&self.image));
 
     docker_command.join(" ")
   }
 }
 
 /// Keep the shell from interpreting a text in double quotes
-fn escape(text: &str) -> String {
+pub fn escape(text: &str) -> String {
   let escape = if cfg!(target_os = "windows") {
     '`'
   } else {
@@ -129,6 +129,25 @@ fn escape(text: &str) -> String {
   escaped
 }
 
+/// Keep the shell from interpreting a text without quotes
+fn escape_word(text: &str) -> String {
+  let escape = if cfg!(target_os = "windows") {
+    '`'
+  } else {
+    '\\'
+  };
+  let mut escaped = String::with_capacity(text.len());
+
+  for c in text.chars() {
+    if c.is_ascii() && !c.is_ascii_alphanumeric() && !"_-+=./:,@%^".contains(c) {
+      escaped.push(escape);
+    }
+    escaped.push(c);
+  }
+
+  escaped
+}
+
 impl From<Docker> for Command {
   fn from(docker: Docker) -> Self {
     let command = docker.generate_docker_command();
diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index c1cb46c..95239f4 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -1,6 +1,6 @@
 use crate::{
   command::Command,
-  docker::Docker,
+  docker::{escape, Docker},
   executors::Executor,
   metadata::{Metadata, PathBufTryToString},
   utils,
@@ -99,15 +99,15 @@ impl DockerExecutor {
       .name(&metadata.docker_name)
       .working_dir(metadata.docker_working_directory.clone())
       .volume(
-        metadata.entrypoint_path.to_string()?,
+        escape(&metadata.entrypoint_path.to_string()?),
         "/home/work/runner/entrypoint",
       )
       // Working directory, such as /home/work/{repo}
       .volume(
-        metadata.job_data_directory.to_string()?,
+        escape(&metadata.job_data_directory.to_string()?),
         metadata.docker_working_directory,
       )
-      .volume(metadata.cache_directory.to_string()?, "/home/work/caches")
+      .volume(escape(&metadata.cache_directory.to_string()?), "/home/work/caches")
       .entrypoint("/home/work/runner/entrypoint")
       .auto_remove(true);
 
-- 
2.43.0

