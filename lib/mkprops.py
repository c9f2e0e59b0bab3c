#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=None)))
A = "crates/astro-run/src/"
R = "crates/remote-runner/src/"
N = "crates/runner/src/"
m = lambda name, where: dict(name=name, where=where)

p("C01", "Jobs run exactly once, and only after everything they depend on",
  "In one run of a workflow every job is executed exactly once (or, if its trigger condition does not match, skipped exactly once). A job begins only after every job it depends on has completely finished, whatever those jobs' outcomes were, and it begins as soon as the last of them has: it never waits for unrelated jobs. Jobs that do not depend on each other, and jobs of different workflows, run concurrently.",
  ["schedules", "configurations"],
  "every acyclic dependency graph, every order in which concurrent jobs finish, every outcome of each job",
  "The tests run two or three tiny graphs with an immediate runner, so jobs finish in one order and a dependent is never still running when an unrelated job finishes.",
  [A+"workflow/mod.rs", A+"workflow/job.rs"],
  [m("waiting list, result channel and launch loop", A+"workflow/mod.rs Workflow::run"), m("spawn of a job", A+"workflow/mod.rs Workflow::run_job")],
  [dict(name="waiting_jobs / job_results", meaning="which jobs still have to be launched, which have finished", where=A+"workflow/mod.rs")],
  ["on_run_job", "job state events", "on_job_completed", "WorkflowRunResult.jobs"])
p("C02", "A run always comes to an end, with one result per job",
  "Once the runner has ended every step it was given, the workflow run returns, with exactly one entry for each job of the workflow; it never returns while a job is unfinished and never hangs with nothing left to do. Every step that the plan lets run is started, every job whose steps are finished completes, and nothing is reported for the run after it has returned.",
  ["schedules", "configurations", "fault_sequences"],
  "every graph accepted at build time, every schedule of concurrent jobs, every mix of step results, runner errors, failing hooks, cancellations and timeouts",
  "A hang needs a particular graph or a particular order of completion; each test runs one graph once and in one order.",
  [A+"workflow/mod.rs", A+"workflow/job.rs", A+"execution_context/mod.rs", A+"user_config.rs", A+"signals/mod.rs"],
  [m("termination count of the result loop", A+"workflow/mod.rs Workflow::run"), m("step loop", A+"workflow/job.rs Job::run")],
  None, ["return of Workflow::run", "WorkflowRunResult"])
p("C03", "Steps run one at a time, in order, under the failure policy",
  "The steps of a job are taken strictly in order, and a step is not begun before the previous one has completely finished. After a step has failed, a later step is skipped unless it is marked continue-on-error; after a step was cancelled every later step is skipped, even one marked so; a step whose own condition does not match is skipped without affecting the others. A skipped step is reported as skipped and is never handed to the runner.",
  ["configurations", "schedules", "histories"],
  "every sequence of step kinds (condition, continue-on-error), every outcome of each step, interleaved with other jobs",
  "The tests cover one failing, one cancelled and one continue-on-error list of three steps; combinations (failure then cancel, failure in a continue-on-error step, condition plus failure) are not reached.",
  [A+"workflow/job.rs", A+"execution_context/mod.rs"],
  [m("skip decision per step", A+"workflow/job.rs Job::run")], None, ["step state events", "Runner::run calls", "JobRunResult.steps"])
p("C04", "Results report what actually happened",
  "A step's result is exactly what its runner ended with (success, failure with that exit code, cancellation; failure with exit code 1 when the runner refused it). A job is failed or cancelled according to the last of its steps that failed or was cancelled, and otherwise succeeded; a workflow is succeeded only if none of its jobs failed or was cancelled, and otherwise carries the state of such a job. Results list every job and every step of a job in order, skipped ones included, with start and completion times exactly for what actually ran, properly nested, and the value returned equals the one announced.",
  ["histories", "configurations", "schedules"],
  "every combination of step outcomes over all jobs, in every completion order",
  "Tests look at the final state of a handful of outcome combinations; exit codes, times and mixed failed/cancelled outcomes across jobs are mostly unchecked.",
  [A+"workflow/mod.rs", A+"workflow/job.rs", A+"execution_context/mod.rs", A+"types/results.rs"],
  [m("aggregation", A+"workflow/job.rs, "+A+"workflow/mod.rs"), m("RunResult to StepRunResult", A+"execution_context/mod.rs ExecutionContext::run")],
  None, ["on_step_completed", "on_job_completed", "on_workflow_completed", "returned WorkflowRunResult"])
p("C05", "Lifecycle notifications: legal order, each exactly once",
  "For every workflow, job and step that runs, observers see exactly one complete lifecycle: announced as started, then its states in the order (queued for steps,) in progress, terminal, then completed; logs only between in progress and terminal; nothing afterwards. A skipped entity is notified only by one skipped state. A child's notifications lie strictly inside its parent's, and the state announced is the one in the result.",
  ["schedules", "histories", "configurations"],
  "every workflow, every interleaving of concurrent jobs, every outcome including runner refusal, cancellation and timeout",
  "Tests assert single callbacks; none checks the order or multiplicity of the whole event stream, let alone for all interleavings.",
  [A+"execution_context/mod.rs", A+"workflow/mod.rs", A+"workflow/job.rs"],
  [m("call_on_* dispatch", A+"execution_context/mod.rs")], None, ["all plugin and runner hooks"])
p("C06", "Plugins: every one, in order, isolated from each other's failures",
  "Every notification reaches every plugin in registration order and then the runner, one after the other, and a hook that fails neither hides the notification from the others nor affects the run. Changes to a step made before it runs are chained through the plugins and then the runner: each sees the result of those before it, one that fails leaves the step as it was, and what is finally announced and executed is the end of that chain. The first plugin that supplies an action for an otherwise unknown action name wins, and failing plugins are passed over.",
  ["configurations", "fault_sequences"],
  "every number of plugins and every assignment of success, failure and modification to their hooks",
  "The tests use one or two plugins with one fixed failing hook each and never check that the plugins after a failing one are still called for all kinds of notifications.",
  [A+"plugins/plugin_driver.rs", A+"plugins/plugin.rs", A+"execution_context/mod.rs"],
  [m("PluginDriver loops", A+"plugins/plugin_driver.rs"), m("closure plugin", A+"plugins/plugin.rs")], None, ["plugin hooks"])
p("C07", "Every log line of a step arrives once, in order, before its end",
  "Every line a runner writes to a step's stream before ending it is delivered to the log observers exactly once, in the order written, with its kind (output or error) and text unchanged, attributed to that step. All of them are delivered before the step is reported finished, and lines are delivered while the step is still running rather than held back until it ends.",
  ["schedules", "inputs", "histories"],
  "every number and timing of log lines, any number of concurrent steps, cancellation and timeout arriving in between",
  "Tests write one line per step and end immediately.",
  [A+"execution_context/mod.rs", A+"stream.rs"],
  [m("receive loop", A+"execution_context/mod.rs ExecutionContext::run"), m("stream buffer", A+"stream.rs")], None, ["on_log"])
p("C08", "Cancelling a job reaches exactly that job, once, and stops it",
  "Cancelling a job that is running succeeds the first time and is refused afterwards, and it is refused for a job that has not started, has finished, or does not exist. An accepted cancellation is passed to the step that is running (or about to run) as one cancel signal, no step of that job is started once its running step has ended, and a job with steps left unstarted is reported as cancelled unless it had failed. No other job, in the same or in another workflow, is affected.",
  ["schedules", "histories"],
  "every moment at which cancellation can arrive relative to the job's steps and hooks, every reaction of the runner to the signal, several jobs and workflows at once",
  "Tests cancel one single-step job during its only step with a runner that obeys the signal.",
  [A+"signals/mod.rs", A+"signals/signal.rs", A+"execution_context/mod.rs", A+"workflow/job.rs", A+"astro_run.rs"],
  [m("signal registry", A+"signals/mod.rs SignalManager"), m("forwarding in the step loop", A+"execution_context/mod.rs")],
  [dict(name="signals", meaning="cancellable jobs", where=A+"signals/mod.rs")], ["cancel_job", "Context.signal", "step/job states"])
p("C09", "A step's timeout is measured from its start and fires once",
  "A step that is still running when its timeout has elapsed since it began to run receives exactly one timeout signal at that time, however much it logs in the meantime; a step that ends earlier, or was already cancelled, never receives one. A timeout signals only that step: later steps and other jobs keep their own full timeouts.",
  ["schedules", "inputs", "histories"],
  "every timeout, every spacing of log lines, every order of timeout, cancellation, logs and end",
  "The tests use a silent step of two seconds; timing against log output, later steps and cancellation is not explored.",
  [A+"execution_context/mod.rs", A+"signals/signal.rs"],
  [m("sleep branch of the step loop", A+"execution_context/mod.rs ExecutionContext::run")], None, ["Context.signal", "virtual time"])
p("C10", "Step streams: lossless, ordered, first end wins, no missed wake-up",
  "Under any concurrent use of a step stream's clones, lines come out exactly once and in an order consistent with the writes, everything written before the end is delivered before the stream ends, and it ends exactly when it has been ended. The result is the one of the first end and never changes afterwards. A receiver that is waiting is always woken when a line or the end becomes available.",
  ["schedules", "histories"],
  "every interleaving of concurrent writers, enders, readers and state queries at lock granularity",
  "The unit tests are single-threaded and sequential; no test interleaves two writers or a writer with a reader.",
  [A+"stream.rs"],
  [m("StreamSender / StreamReceiver", A+"stream.rs")],
  [dict(name="SharedState", meaning="buffered logs, result, waker", where=A+"stream.rs")], ["StreamReceiver::poll_next", "StreamReceiver::result", "StreamSender::is_ended"])
p("C11", "Signals: first one wins, delivered once, no missed wake-up",
  "Of any number of concurrent cancel and timeout requests on one signal exactly one succeeds, the others are refused, and the signal's kind never changes afterwards. Waiting for the signal completes with that kind exactly once over the signal's life, and a waiter is always woken when the signal is set. The registry hands out for a job the signal last registered and none after it was removed.",
  ["schedules", "histories"],
  "every interleaving of concurrent setters, waiters and queries at lock granularity",
  "The unit tests set the signal from one task at a time after fixed sleeps.",
  [A+"signals/signal.rs", A+"signals/mod.rs"],
  [m("AstroRunSignal / Receiver", A+"signals/signal.rs"), m("SignalManager", A+"signals/mod.rs")],
  [dict(name="SignalState", meaning="signal, delivered flag, waker", where=A+"signals/signal.rs")], ["AstroRunSignal API"])
p("C12", "The plan built from a workflow file is exactly what the file says",
  "For every accepted workflow file the plan has exactly the file's jobs with their names, conditions, dependencies and working directories; each job's steps are all preparation steps of its actions in order, then the steps in file order with each action replaced by its main step, then all clean-up steps in reverse order, numbered consecutively from zero under the workflow's and job's identity. Each step keeps its own settings, taking the job's container if it has none, a 60 minute timeout, no environment, no secrets and no continue-on-error as defaults. Statically registered actions take precedence over those supplied by plugins.",
  ["inputs", "configurations"],
  "every workflow file over the supported keys, every set of registered and dynamically supplied actions",
  "Tests parse a few files; combinations of several actions with and without preparation/clean-up, inheritance and defaults over several jobs are not covered.",
  [A+"workflow/parser.rs", A+"workflow/builder.rs", A+"user_config.rs", A+"actions.rs", A+"types/id.rs"],
  [m("WorkflowParser", A+"workflow/parser.rs"), m("ActionDriver", A+"actions.rs")], None, ["Workflow value returned by the builder"])
p("C13", "Trigger conditions decide what runs",
  "When the triggering event and the list of changed files are known, a workflow, job or step with a condition runs exactly if the condition matches: a list of event names matches those events; otherwise the entry for that event kind must exist and, where given, one of its branch patterns must match the branch and one of its path patterns must match at least one changed file. Without a condition, without a trigger event or credentials, or when the changed files cannot be determined, everything runs. A skipped workflow or job runs nothing inside it, and the changed files are those of the pushed commit or of the pull request, whichever triggered the run.",
  ["inputs", "configurations", "fault_sequences"],
  "every condition, branch, set of changed files and event kind; every failure of the lookup",
  "The unit tests match a dozen literal cases and every end-to-end condition test needs GitHub access, so none of them runs here.",
  [A+"types/condition.rs", A+"execution_context/condition_matcher.rs", A+"workflow/mod.rs", A+"workflow/job.rs", A+"workflow/step.rs"],
  [m("Condition::is_match", A+"types/condition.rs"), m("ConditionMatcher", A+"execution_context/condition_matcher.rs")], None, ["skipped states", "should_skip", "GitHub requests"])
p("C14", "The scheduler picks a capable runner, sticks to it, and balances",
  "A step that asks for the host environment of a system is only ever given to a runner that offers its host and matches that system (and architecture, if named); any other step only to a runner that offers containers; if there is none, the step gets no runner. Container steps of a job stay on the runner the job's previous container step used while that runner is available, and otherwise go to one of those with the fewest unfinished steps. A runner's count goes up with every step given to it and down when that step completes, and nothing is remembered of completed steps and jobs.",
  ["histories", "configurations"],
  "every set of runners, every history of scheduling, completion, and runners coming and going",
  "Tests schedule three or four steps of one job on two runners, always all available and without overlap between jobs.",
  ["crates/scheduler/src/default.rs", "crates/scheduler/src/lib.rs"],
  [m("DefaultScheduler", "crates/scheduler/src/default.rs")],
  [dict(name="SchedulerState", meaning="runs per runner, runner per job, runner per step", where="crates/scheduler/src/default.rs")], ["Scheduler::schedule", "DefaultScheduler.state"])
p("C15", "A step run remotely behaves as if run locally",
  "A step given to a remote runner is executed exactly once, on the runner the scheduler chose, with the command, trigger event and payload it has locally, and its log lines (text, kind, order) and its result arrive at the caller unchanged. If no runner is available, the runner refuses the step, or the connection or the runner is lost at any point before the result has arrived, the step fails with an error line instead of hanging or succeeding. Steps running at the same time do not mix.",
  ["schedules", "fault_sequences", "histories"],
  "every sequence of log lines and result, loss of the connection or server at any point, several concurrent steps and runners",
  "Tests use one runner, one line per step and no faults.",
  [R+"client.rs", R+"runner_server.rs", "crates/protocol/src/lib.rs"],
  [m("client run loop", R+"client.rs"), m("server run task", R+"runner_server.rs")], None, ["on_log", "StepRunResult", "server-side Runner::run"])
p("C16", "Cancellation and timeout reach the step on the remote runner",
  "When a step running on a remote runner is cancelled or times out, the remote execution of that step receives that signal, once, and no other execution does. What the remote runner then reports (its remaining lines and its result) is still delivered. A signal for a step that is not running there has no effect.",
  ["schedules", "histories", "fault_sequences"],
  "every moment of the signal relative to start, log lines and end of the remote step, several concurrent steps on the same and on different runners",
  "Tests signal one single step running alone.",
  [R+"client.rs", R+"runner_server.rs"],
  [m("signal forwarding", R+"client.rs"), m("signals map", R+"runner_server.rs")],
  [dict(name="signals", meaning="signal per remotely running step", where=R+"runner_server.rs")], ["Context.signal on the server"])
p("C17", "Lifecycle events are mirrored to every connected runner and the scheduler",
  "Every lifecycle notification raised for a run while runners are connected is delivered to each connected runner exactly once and in the order raised, with its content unchanged, first to its plugins and then to its own runner implementation, however fast the notifications are produced. A runner that fails or a hook that returns an error does not keep the notification from the other runners. The scheduler is told about every started and completed workflow, job and step.",
  ["schedules", "histories", "fault_sequences"],
  "every event history including bursts, several runners, runners dying, failing hooks",
  "Tests produce a handful of events on one runner and check only that some callback was reached.",
  [R+"client.rs", R+"runner_server.rs", "crates/scheduler/src/lib.rs"],
  [m("event channel and forwarding loop", R+"client.rs AstroRunRemoteRunnerClient::start"), m("send_event", R+"runner_server.rs")],
  [dict(name="event_sender", meaning="queued notifications", where=R+"client.rs")], ["server-side plugin and runner hooks", "Scheduler hooks"])
p("C18", "Only compatible, reachable, distinct runners are used; hooks chain remotely",
  "After connecting to a list of addresses, the runners used are exactly those that answered with a compatible version, one per runner identity; an unreachable, incompatible or duplicate one neither prevents the use of the others nor is ever given work or events. What a runner says about itself (identity, system, capabilities) is what the scheduler sees. Before a step runs, its command passes through the connected runners' own hooks and the result is what is executed; if a runner's hook fails, the step is used as it was before.",
  ["configurations", "fault_sequences"],
  "every mix of good, dead, incompatible and duplicate addresses in every order; every assignment of behaviours to the runners' hooks",
  "Tests connect to one good or one invalid address.",
  [R+"client.rs", R+"runner_server.rs"],
  [m("start/connect", R+"client.rs"), m("metadata and before-run hook", R+"runner_server.rs")],
  [dict(name="clients", meaning="connected runners", where=R+"client.rs")], ["Scheduler::schedule argument", "server-side calls"])
p("C19", "A command's output is reported completely and its exit code truthfully",
  "Every line the command of a step (on the host or in a container) prints on its output or error stream appears exactly once in the step's log, in the order printed on that stream and with the right kind, before the step ends, no matter how the two streams are interleaved, which is closed first, how long the line is or whether it is valid UTF-8 (invalid bytes are replaced). The step succeeds exactly if the command exits with code 0 and otherwise fails with the command's exit code, or 1 if it was killed or could not be started. A host command runs once, with exactly the values of the step's environment variables.",
  ["inputs", "schedules"],
  "every interleaving of writes and closes on the two streams, every exit status",
  "The tests that would see it are flaky and therefore left out of the stable set; each prints one line.",
  [N+"command.rs", N+"executors/host.rs", N+"executors/docker.rs"],
  [m("Command::run", N+"command.rs"), m("into_command", N+"executors/host.rs")], None, ["step log", "step result"])
p("C20", "Runner workspaces: shared in the job, removed at the end, run hooks paired",
  "Host steps of a job run in the job's own directory below the runner's working directory, so that files a step leaves are there for the next step of that job and for no other job; when the workflow has completed its directories are gone and those of other workflows, and the shared caches, are untouched. For every step the runner's own before-run hooks run first, chained in order with failing ones passed over, and the after-run hooks run exactly once after the step has ended, however it ended. A step cancelled or timed out, even before its command starts, is reported as cancelled or as timed out (exit code 123).",
  ["histories", "schedules", "fault_sequences"],
  "every history of successful, failing, cancelled and timed-out steps over several jobs and workflows, host and container steps",
  "The runner's end-to-end tests are excluded as flaky or need docker, and none looks at the directories or at the after-run hook.",
  [N+"astro_runner.rs", N+"executors/host.rs", N+"executors/docker.rs", N+"metadata.rs", N+"plugin.rs"],
  [m("executors", N+"executors/"), m("cleanup", N+"astro_runner.rs"), m("PluginDriver", N+"plugin.rs")], None, ["working directory", "runner plugin hooks", "step result"])
p("C21", "Trigger event, payload and command reach every consumer unchanged",
  "The trigger event and the payload given to a run are what every start notification and every execution of a step in that run, and only in that run, carries; without them they are absent everywhere. What a step execution receives is the plan's step as left by the before-run hooks: identity, command, container, environment, secrets, timeout and continue-on-error.",
  ["inputs", "configurations", "schedules"],
  "every payload, event and step configuration, several concurrent runs with different ones",
  "One test passes one payload in a single run.",
  [A+"execution_context/mod.rs", A+"execution_context/builder.rs", A+"execution_context/context_payload.rs", A+"workflow/step.rs", A+"types/context.rs"],
  [m("ExecutionContext", A+"execution_context/mod.rs"), m("Step/Command conversion", A+"workflow/step.rs")], None, ["RunEvent values", "Context passed to Runner::run"])
p("C22", "Unusable workflow files are rejected when built",
  "Building fails, with an error that says what is wrong and before anything runs, for a workflow without jobs, a job without steps, a dependency on an unknown job, dependencies that can never be satisfied (a cycle, a job depending on itself), an unknown action, an action that expands to another action, an action that itself reports an error, and a malformed timeout. Nothing else is rejected: every file without these faults builds.",
  ["inputs", "configurations"],
  "every dependency graph and every combination of faults in a file",
  "Tests try one literal file per error; dependency graphs with a cycle beside an independent job are not tried.",
  [A+"user_config.rs", A+"workflow/parser.rs", A+"workflow/builder.rs"],
  [m("UserWorkflow::validate", A+"user_config.rs"), m("WorkflowParser", A+"workflow/parser.rs")], None, ["result of the workflow builder"])
p("C23", "Container steps run what was asked for, in one container that goes away",
  "A step that is not for the host the runner runs on is run once, in a container of the image its container setting names (ubuntu if it names none), called after the step and removed when it ends. Its script is complete and exactly the step's (run by /bin/sh unless it names its interpreter) when the container starts; it sees the step's environment variables with exactly their values, works in the job's shared directory, has the repository's caches and the volumes (with their options) and security options asked for. When the step is cancelled or times out its container is killed.",
  ["inputs", "schedules", "configurations"],
  "every script, image, value of an environment variable, list of volumes and options; every moment of a signal; steps starting at the same time",
  "Tests check one generated docker command line as a text; nothing runs it, and the tests with docker are not among the stable ones.",
  [N+"docker.rs", N+"executors/docker.rs", N+"utils.rs", N+"metadata.rs", N+"command.rs"],
  [m("Docker", N+"docker.rs"), m("DockerExecutor", N+"executors/docker.rs"), m("create_executable_file", N+"utils.rs")], None, ["arguments docker is called with", "script file", "container's end"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
