------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The workflow engine of astro-run (crates/astro-run): one run of one or   *)
(* more workflows, its lifecycle notifications, its jobs, steps, streams,   *)
(* cancellation and timeouts.                                               *)
(*                                                                         *)
(* The state `st` is a record; every observable event `e` of a run is a     *)
(* record with a kind e.k.  Three operators describe everything:            *)
(*   Upd(c, st, e)   the state after e, for the plan/configuration c;       *)
(*   Viol(c, st, e)  the properties (ids of properties.jsonl) that are      *)
(*                   broken if e happens in st;                             *)
(*   Gen(c, st, t)   the events the thread t of the engine (a workflow's or *)
(*                   a job's) owes next in st: the engine's own behaviour.  *)
(* EngineMC explores  Next == an owed engine event or an environment event; *)
(* EngineTrace runs Viol and Upd over events recorded from the real code.   *)
(*                                                                         *)
(* Events.  Deliveries to observer e.r (plugins in order, then the runner), *)
(* entity e.e (workflow "w", job "w/j", step "w/j/0"), content e.c:         *)
(*   wf.run wf.state wf.done job.run job.state job.done                     *)
(*   st.before st.run st.state st.log st.done                               *)
(* st.exec: the runner is handed the step;  wf.ret: the run has returned.   *)
(* Environment: x.start a workflow is run; x.rel a hook returned; x.acc the *)
(* runner took (ok) or refused the step; x.log/x.end the runner writes a    *)
(* line / ends the step; x.sig the runner received a signal; x.cancel       *)
(* cancel_job returned e.ok; x.quiet nothing more happens by itself.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoCode == -999
NoTime == -1
Terminal == {"succeeded", "failed", "cancelled"}
NoRes == [state |-> "none", code |-> NoCode, s0 |-> NoTime, c0 |-> NoTime]
SkippedWfRes(w) == [id |-> w, state |-> "skipped", s0 |-> NoTime, c0 |-> NoTime]
SkipRes == [state |-> "skipped", code |-> NoCode, s0 |-> NoTime, c0 |-> NoTime]

If(b, s) == IF b THEN s ELSE {}
Range(s) == {s[i] : i \in 1..Len(s)}

NR(c) == Len(c.rec)
Idx(c, r) == CHOOSE i \in 1..NR(c) : c.rec[i] = r

WfKinds  == {"wf.run", "wf.state", "wf.done"}
JobKinds == {"job.run", "job.state", "job.done"}
StKinds  == {"st.before", "st.run", "st.state", "st.log", "st.done"}
Deliveries == WfKinds \cup JobKinds \cup StKinds

(* The thread of control an event belongs to. *)
Thread(c, e) ==
  IF e.k \in WfKinds \cup JobKinds \cup {"wf.ret", "x.start"} THEN e.e
  ELSE c.steps[e.e].j

FreeTh(c) == [k |-> "", e |-> "", a |-> "", cont |-> "", idx |-> NR(c), open |-> FALSE]

St0(c) ==
  [ ph   |-> [x \in DOMAIN c.wfs \cup DOMAIN c.jobs \cup DOMAIN c.steps |-> "idle"],
    th   |-> [x \in DOMAIN c.wfs \cup DOMAIN c.jobs |-> FreeTh(c)],
    jst  |-> [j \in DOMAIN c.jobs |-> "in_progress"],
    can  |-> [j \in DOMAIN c.jobs |-> "no"],    \* no / yes: no step may start / grace: the next may
    unst |-> [j \in DOMAIN c.jobs |-> FALSE],   \* a step was left unstarted because of a cancellation
    ann  |-> [x \in DOMAIN c.wfs \cup DOMAIN c.jobs \cup DOMAIN c.steps |-> "none"],
    res  |-> [s \in DOMAIN c.steps |-> NoRes],
    jres |-> [j \in DOMAIN c.jobs |-> [id |-> "", state |-> "none", s0 |-> NoTime, c0 |-> NoTime, steps |-> <<>>]],
    wres |-> [w \in DOMAIN c.wfs |-> [res |-> SkippedWfRes(""), jobs |-> <<>>]],
    q    |-> [s \in DOMAIN c.steps |-> <<>>],   \* lines written, not yet delivered
    end  |-> [s \in DOMAIN c.steps |-> "none"],
    code |-> [s \in DOMAIN c.steps |-> NoCode],
    sig  |-> [s \in DOMAIN c.steps |-> "none"],
    body |-> [s \in DOMAIN c.steps |-> c.steps[s].body],
    to   |-> [s \in DOMAIN c.steps |-> c.steps[s].to],
    tx   |-> [s \in DOMAIN c.steps |-> 0],      \* when it was handed to the runner
    tp   |-> [s \in DOMAIN c.steps |-> 0],      \* when its start had been announced to all
    tt   |-> [s \in DOMAIN c.steps |-> 0],      \* when its end was announced
    late |-> [s \in DOMAIN c.steps |-> 0],      \* lines in a row delivered while a signal is due
    ux   |-> [s \in DOMAIN c.steps |-> 0],      \* wall clock: handed over / ended
    ue   |-> [s \in DOMAIN c.steps |-> 0],
    now  |-> 0 ]

Free(c, st, t) == st.th[t].idx = NR(c) /\ ~st.th[t].open

JobOf(c, s) == c.steps[s].j
WfOf(c, j) == c.jobs[j].w
Steps(c, j) == c.jobs[j].steps
StepDone(st, s) == st.ph[s] \in {"done", "skip"}
JobDone(c, st, j) == st.ph[j] \in {"done", "skip"} /\ Free(c, st, j)
DepsDone(c, st, j) == \A d \in Range(c.jobs[j].deps) : JobDone(c, st, d)
AllJobsDone(c, st, w) == \A j \in Range(c.wfs[w].jobs) : JobDone(c, st, j)
(* The step a job is at: the first one that is not finished; "" at the end. *)
Cur(c, st, j) ==
  LET ss == Steps(c, j)
      open == {i \in 1..Len(ss) : ~StepDone(st, ss[i])}
  IN IF open = {} THEN "" ELSE ss[CHOOSE i \in open : \A k \in open : i <= k]

(* Policy: why a step must be skipped; may be skipped. *)
PolicySkip(c, st, s) ==
  LET j == JobOf(c, s) IN
  \/ st.jst[j] = "cancelled"
  \/ st.jst[j] = "failed" /\ ~c.steps[s].coe
MustSkip(c, st, s) ==
  PolicySkip(c, st, s) \/ ~c.steps[s].on \/ st.can[JobOf(c, s)] = "yes"
MaySkip(c, st, s) == MustSkip(c, st, s) \/ st.can[JobOf(c, s)] # "no"

(* However much a step writes, it is signalled: lines do not keep the engine  *)
(* from it.  (e.sg: the signal the step has at that line)                     *)
Patience == 100
DueC(c, st, s) == st.end[s] = "none" /\ st.can[JobOf(c, s)] # "no"
DueT(c, st, s) == st.end[s] = "none" /\ st.now > st.tp[s] + st.to[s] + 2
Late(c, st, e) ==
  IF "sg" \in DOMAIN e /\ e.sg = "none" /\ (DueC(c, st, e.e) \/ DueT(c, st, e.e)) THEN st.late[e.e] + 1 ELSE 0

StepState(st, s) ==
  CASE st.ph[s] = "refused" -> "failed"
    [] OTHER -> st.end[s]
ExpStepRes(st, s) ==
  CASE st.ph[s] = "refused" -> [state |-> "failed", code |-> 1]
    [] OTHER -> [state |-> st.end[s], code |-> st.code[s]]

JobState(st, j) ==
  IF st.jst[j] \in {"failed", "cancelled"} THEN st.jst[j]
  ELSE IF st.unst[j] THEN "cancelled" ELSE "succeeded"
WfStates(c, st, w) ==
  LET bad == {st.ann[j] : j \in Range(c.wfs[w].jobs)} \cap {"failed", "cancelled"}
  IN IF bad = {} THEN {"succeeded"} ELSE bad

SkippedJobRes(j) == [id |-> j, state |-> "skipped", s0 |-> NoTime, c0 |-> NoTime, steps |-> <<>>]
StepRes(s, r) == [id |-> s, state |-> r.state, code |-> r.code, s0 |-> r.s0, c0 |-> r.c0]

(***************************************************************************)
(* What is wrong with a notification when its delivery begins.              *)
(***************************************************************************)
WfViol(c, st, e) ==
  LET w == e.e  p == st.ph[w] IN
  If(p = "ret", {"C02", "C05"}) \cup
  CASE e.k = "wf.run" ->
         If(p # "go", {"C05"}) \cup If(~c.wfs[w].on, {"C13"})
         \cup If(e.ev # c.wfs[w].ev \/ e.pl # c.wfs[w].pl, {"C21"})
    [] e.k = "wf.state" /\ e.a = "in_progress" -> If(p # "run", {"C05"})
    [] e.k = "wf.state" /\ e.a = "skipped" ->
         If(p # "go", {"C05"}) \cup If(c.wfs[w].on, {"C13", "C02"})
    [] e.k = "wf.state" /\ e.a \in Terminal ->
         If(p # "prog", {"C05"})
         \cup If(~AllJobsDone(c, st, w), {"C02", "C05"})
         \cup If(AllJobsDone(c, st, w) /\ e.a \notin WfStates(c, st, w), {"C04"})
    [] e.k = "wf.state" -> {"C05"}
    [] e.k = "wf.done" ->
         If(p # "term", {"C05"})
         \cup If(e.res.state # st.ann[w], {"C04", "C05"})
         \cup If(e.res.id # w, {"C04"})
         \cup If(e.res.s0 = NoTime \/ e.res.c0 < e.res.s0, {"C04"})
         \cup If(DOMAIN e.jobs # Range(c.wfs[w].jobs), {"C02", "C04"})
         \cup If(\E j \in DOMAIN e.jobs \cap Range(c.wfs[w].jobs) :
                   e.jobs[j] # (IF st.ph[j] = "skip" THEN SkippedJobRes(j) ELSE st.jres[j]), {"C04"})
         \cup If(\E j \in DOMAIN e.jobs : e.jobs[j].s0 # NoTime
                   /\ (e.jobs[j].s0 < e.res.s0 \/ e.jobs[j].c0 > e.res.c0), {"C04"})

JobStart(c, st, j) ==
  If(st.ph[j] # "idle", {"C01", "C05"})
  \cup If(~DepsDone(c, st, j), {"C01"})
  \cup If(st.ph[WfOf(c, j)] # "prog" \/ ~Free(c, st, WfOf(c, j)), {"C05"})

JobViol(c, st, e) ==
  LET j == e.e  p == st.ph[j] IN
  If(st.ph[WfOf(c, j)] = "ret", {"C02"}) \cup
  CASE e.k = "job.run" ->
         JobStart(c, st, j) \cup If(~c.jobs[j].on, {"C13"})
         \cup If(e.ev # c.wfs[WfOf(c, j)].ev \/ e.pl # c.wfs[WfOf(c, j)].pl, {"C21"})
    [] e.k = "job.state" /\ e.a = "skipped" ->
         JobStart(c, st, j) \cup If(c.jobs[j].on, {"C13", "C02"})
    [] e.k = "job.state" /\ e.a = "in_progress" -> If(p # "run", {"C05"})
    [] e.k = "job.state" /\ e.a \in Terminal ->
         If(p # "prog", {"C05"})
         \cup If(Cur(c, st, j) # "", {"C02", "C03", "C05"})
         \cup If(Cur(c, st, j) = "" /\ e.a # JobState(st, j),
                 IF st.unst[j] THEN {"C04", "C08"} ELSE {"C04"})
    [] e.k = "job.state" -> {"C05"}
    [] e.k = "job.done" ->
         If(p # "term", {"C05"})
         \cup If(e.res.state # st.ann[j], {"C04", "C05"})
         \cup If(e.res.id # j, {"C04"})
         \cup If(e.res.s0 = NoTime \/ e.res.c0 < e.res.s0, {"C04"})
         \cup If(Len(e.res.steps) # Len(Steps(c, j)), {"C04"})
         \cup If(\E i \in 1..Len(e.res.steps) : i <= Len(Steps(c, j)) /\
                   e.res.steps[i] # StepRes(Steps(c, j)[i],
                      IF st.ph[Steps(c, j)[i]] = "skip" THEN SkipRes ELSE st.res[Steps(c, j)[i]]), {"C04"})
         \cup If(\E i \in 1..Len(e.res.steps) : e.res.steps[i].s0 # NoTime /\
                   (e.res.steps[i].s0 < e.res.s0 \/ e.res.steps[i].c0 > e.res.c0), {"C04"})

(* A step may only be taken up (run or skipped) when it is its turn. *)
StepStart(c, st, s) ==
  LET j == JobOf(c, s) IN
  If(st.ph[s] # "idle", {"C03", "C05"})
  \cup If(st.ph[s] = "idle" /\ Cur(c, st, j) # s, {"C03"})
  \cup If(st.ph[j] # "prog" \/ ~Free(c, st, j), {"C05"})

StepViol(c, st, e) ==
  LET s == e.e  j == JobOf(c, s)  p == st.ph[s]  w == WfOf(c, j) IN
  If(st.ph[w] = "ret", {"C02"}) \cup
  CASE e.k = "st.before" ->
         StepStart(c, st, s)
         \cup If(PolicySkip(c, st, s), {"C03"})
         \cup If(~c.steps[s].on, {"C13", "C03"})
         \cup If(~PolicySkip(c, st, s) /\ st.can[j] = "yes", {"C08"})
    [] e.k = "st.state" /\ e.a = "skipped" ->
         StepStart(c, st, s) \cup If(~MaySkip(c, st, s), {"C02", "C03", "C13"})
    [] e.k = "st.run" ->
         If(p # "before", {"C05"})
         \cup If(e.body # st.body[s] \/ e.to # st.to[s], {"C06", "C21"})
         \cup If(e.to # st.to[s], {"C09"})
         \cup If(e.ev # c.wfs[w].ev \/ e.pl # c.wfs[w].pl, {"C21"})
    [] e.k = "st.state" /\ e.a = "queued" -> If(p # "run", {"C05"})
    [] e.k = "st.state" /\ e.a = "in_progress" -> If(p # "acc", {"C05"})
    [] e.k = "st.log" ->
         If(p # "prog", {"C05", "C07"})
         \cup If(st.q[s] = <<>>, {"C07"})
         \cup If(st.q[s] # <<>> /\ Head(st.q[s]) # [ty |-> e.ty, m |-> e.m], {"C07"})
         \cup If(Late(c, st, e) > Patience, If(DueC(c, st, s), {"C08"}) \cup If(DueT(c, st, s), {"C09"}))
    [] e.k = "st.state" /\ e.a \in Terminal ->
         If(p \notin {"prog", "refused"}, {"C05"})
         \cup If(st.q[s] # <<>>, {"C07"})
         \cup If(p = "prog" /\ st.end[s] = "none", {"C04", "C02"})
         \cup If((p = "refused" \/ st.end[s] # "none") /\ e.a # StepState(st, s), {"C04"})
    [] e.k = "st.state" -> {"C05"}
    [] e.k = "st.done" ->
         If(p # "term", {"C05"})
         \cup If(e.res.state # st.ann[s], {"C04", "C05"})
         \cup If(e.res.id # s, {"C04"})
         \cup If(e.res.code # st.res[s].code, {"C04"})
         \cup If(e.res.s0 = NoTime \/ e.res.c0 < e.res.s0, {"C04"})
         \cup If(e.res.s0 > st.ux[s] \/ e.res.c0 < st.ue[s], {"C04"})

ExecViol(c, st, e) ==
  LET s == e.e  j == JobOf(c, s)  w == WfOf(c, j)  p == st.ph[s] IN
  If(st.ph[w] = "ret", {"C02"})
  \cup If(p # "queued" \/ ~Free(c, st, j), {"C05"})
  \cup If(p \in {"idle", "skip"}, {"C03"})
  \cup If(p \in {"exec", "acc", "prog", "term", "done", "refused"}, {"C03"})
  \cup If(e.body # st.body[s] \/ e.to # st.to[s], {"C21", "C06"})
  \cup If(e.to # st.to[s], {"C09"})
  \cup If(e.ev # c.wfs[w].ev \/ e.pl # c.wfs[w].pl, {"C21"})
  \cup If(e.id # s, {"C21"})

RetViol(c, st, e) ==
  LET w == e.e  p == st.ph[w] IN
  If(p \notin {"done", "skip"} \/ ~Free(c, st, w), {"C02", "C05"})
  \cup If(p = "done" /\ [res |-> e.res, jobs |-> e.jobs] # st.wres[w], {"C04"})
  \cup If(p = "skip" /\ (e.res # SkippedWfRes(w) \/ DOMAIN e.jobs # {}), {"C04"})

(* Cancellation: accepted exactly while the job runs, and once. *)
CancelViol(c, st, e) ==
  LET known == e.e \in DOMAIN c.jobs IN
  IF ~known THEN If(e.ok, {"C08"})
  ELSE LET p == st.ph[e.e] IN
    If(e.ok /\ (p \notin {"run", "prog", "term"} \/ st.can[e.e] # "no"), {"C08"})
    \cup If(~e.ok /\ p \in {"run", "prog"} /\ st.can[e.e] = "no", {"C08"})

SigViol(c, st, e) ==
  LET s == e.e  j == JobOf(c, s) IN
  If(st.sig[s] # "none", IF e.a = "cancel" THEN {"C08"} ELSE {"C09"})
  \cup If(e.a = "cancel" /\ st.can[j] = "no", {"C08"})
  \cup If(e.a = "timeout" /\ (st.now < st.tx[s] + st.to[s]
            \* it may cross with an end the engine has not got to, being busy with a slow observer
            \* (the record of the signal may come a moment, but no time, after the announcement)
            \/ (st.end[s] # "none" /\ st.ph[s] # "prog" /\ st.now > st.tt[s])), {"C09"})

(***************************************************************************)
(* What the engine owes when nothing more happens by itself.                *)
(***************************************************************************)
OwedWf(c, st, w) ==
  LET p == st.ph[w] IN
  CASE p = "go" -> {"C02", "C05"}
    [] p = "run" -> {"C02", "C05"}
    [] p = "prog" /\ AllJobsDone(c, st, w) -> {"C02"}
    [] p = "term" -> {"C02", "C05"}
    [] p \in {"done", "skip"} -> {"C02"}
    [] OTHER -> {}
OwedJob(c, st, j) ==
  LET p == st.ph[j]  w == WfOf(c, j)  s == Cur(c, st, j) IN
  CASE p = "idle" /\ st.ph[w] = "prog" /\ Free(c, st, w) /\ DepsDone(c, st, j) -> {"C01", "C02"}
    [] p = "run" -> {"C02", "C05"}
    [] p = "prog" /\ s = "" -> {"C02"}
    [] p = "prog" /\ s # "" ->
         LET q == st.ph[s] IN
         CASE q = "idle" -> {"C02"} \cup If(MustSkip(c, st, s), {"C03"})
           [] q \in {"before", "run", "queued", "acc", "term"} -> {"C02", "C05"}
           [] q = "refused" -> {"C02"}
           [] q = "prog" ->
                If(st.q[s] # <<>>, {"C07"})
                \cup If(st.q[s] = <<>> /\ st.end[s] # "none", {"C02"})
                \cup If(st.end[s] = "none" /\ st.can[j] # "no" /\ st.sig[s] = "none", {"C08"})
                \cup If(st.end[s] = "none" /\ st.sig[s] = "none" /\ st.now > st.tp[s] + st.to[s] + 2, {"C09"})
           [] OTHER -> {}
    [] p = "term" -> {"C02", "C05"}
    [] OTHER -> {}

QuietViol(c, st) ==
  UNION ({If(Free(c, st, w), OwedWf(c, st, w)) : w \in DOMAIN c.wfs}
     \cup {If(Free(c, st, j), OwedJob(c, st, j)) : j \in DOMAIN c.jobs})

(***************************************************************************)
(* Deliveries: fan-out to every observer in order, one after the other.     *)
(***************************************************************************)
Sig(e) == <<e.k, e.e, e.a>>
IsNew(c, st, e) ==
  LET t == st.th[Thread(c, e)] IN
  Idx(c, e.r) = 1 \/ <<t.k, t.e, t.a>> # Sig(e)
FanViol(c, st, e) ==
  LET t == st.th[Thread(c, e)] IN
  IF IsNew(c, st, e)
  THEN If(Idx(c, e.r) # 1 \/ ~Free(c, st, Thread(c, e)), {"C06"})
  ELSE If(t.open \/ Idx(c, e.r) # t.idx + 1 \/ (e.k # "st.before" /\ e.c # t.cont), {"C06"})
(* The before-step hooks are chained: each gets what the previous left. *)
ChainViol(c, st, e) ==
  If(e.k = "st.before" /\ (e.body # st.body[e.e] \/ e.to # st.to[e.e]),
     (IF Idx(c, e.r) = 1 THEN {"C21", "C06"} ELSE {"C06"}) \cup If(e.to # st.to[e.e], {"C09"}))

LifeViol(c, st, e) ==
  IF e.k \in WfKinds THEN WfViol(c, st, e)
  ELSE IF e.k \in JobKinds THEN JobViol(c, st, e)
  ELSE StepViol(c, st, e)

Known(c, e) ==
  CASE e.k \in WfKinds \cup {"wf.ret", "x.start"} -> e.e \in DOMAIN c.wfs
    [] e.k \in JobKinds -> e.e \in DOMAIN c.jobs
    [] e.k \in StKinds \cup {"st.exec", "x.acc", "x.log", "x.end", "x.sig"} -> e.e \in DOMAIN c.steps
    [] OTHER -> TRUE

Viol(c, st, e) ==
  IF ~Known(c, e) THEN
    (IF e.k = "st.log" THEN {"C07", "C05"} ELSE IF e.k = "st.exec" THEN {"C03", "C21"} ELSE {"C05"})
  ELSE
  CASE e.k \in Deliveries ->
         FanViol(c, st, e) \cup ChainViol(c, st, e)
         \cup If(IsNew(c, st, e), LifeViol(c, st, e))
    [] e.k = "st.exec" -> ExecViol(c, st, e) \cup If(~Free(c, st, Thread(c, e)), {"C06"})
    [] e.k = "wf.ret" -> RetViol(c, st, e)
    [] e.k = "x.cancel" -> CancelViol(c, st, e)
    [] e.k = "x.sig" -> SigViol(c, st, e)
    [] e.k = "x.quiet" -> QuietViol(c, st)
    [] e.k = "x.hang" ->  \* the run goes on for ever without getting anywhere
         QuietViol(c, st) \cup {"C02", "C05"}
         \cup If(\E j \in DOMAIN c.jobs : st.can[j] # "no", {"C08"})
         \cup If(\E s \in DOMAIN c.steps : st.ph[s] = "prog" /\ st.now >= st.tp[s] + st.to[s], {"C09"})
    [] e.k = "x.broken" -> {"C02", "C08"}   \* a call of the engine panicked
    [] OTHER -> {}

(***************************************************************************)
(* The effect of an event.                                                  *)
(***************************************************************************)
PhaseAfter(c, st, e) ==
  CASE e.k \in {"wf.run", "job.run"} -> "run"
    [] e.k \in {"wf.state", "job.state", "st.state"} /\ e.a = "skipped" -> "skip"
    [] e.k \in {"wf.state", "job.state"} /\ e.a = "in_progress" -> "prog"
    [] e.k \in {"wf.state", "job.state", "st.state"} /\ e.a \in Terminal -> "term"
    [] e.k \in {"wf.done", "job.done", "st.done"} -> "done"
    [] e.k = "st.before" -> "before"
    [] e.k = "st.run" -> "run"
    [] e.k = "st.state" /\ e.a = "queued" -> "queued"
    [] e.k = "st.state" /\ e.a = "in_progress" -> "prog"
    [] OTHER -> st.ph[e.e]

LifeUpd(c, st, e) ==
  LET st1 == [st EXCEPT !.ph[e.e] = PhaseAfter(c, st, e)] IN
  CASE e.k \in {"wf.state", "job.state"} /\ e.a \in Terminal \cup {"skipped"} ->
         [st1 EXCEPT !.ann[e.e] = e.a]
    [] e.k = "st.state" /\ e.a = "skipped" ->
         LET j == JobOf(c, e.e) IN
         [st1 EXCEPT !.ann[e.e] = "skipped",
                     !.unst[j] = @ \/ (st.can[j] # "no" /\ ~PolicySkip(c, st, e.e)),
                     !.can[j] = IF @ = "grace" THEN "yes" ELSE @]
    [] e.k = "st.before" ->
         LET j == JobOf(c, e.e) IN
         [st1 EXCEPT !.can[j] = IF @ = "grace" THEN "yes" ELSE @]
    [] e.k = "st.state" /\ e.a \in Terminal ->
         LET x == IF st.ph[e.e] = "refused" \/ st.end[e.e] # "none" THEN ExpStepRes(st, e.e)
                  ELSE [state |-> e.a, code |-> NoCode]
             j == JobOf(c, e.e) IN
         [st1 EXCEPT !.ann[e.e] = e.a, !.tt[e.e] = st.now,
                     !.res[e.e] = [state |-> x.state, code |-> x.code, s0 |-> NoTime, c0 |-> NoTime],
                     !.jst[j] = IF x.state \in {"failed", "cancelled"} THEN x.state ELSE @]
    [] e.k = "st.log" -> [st1 EXCEPT !.q[e.e] = IF @ = <<>> THEN @ ELSE Tail(@), !.late[e.e] = Late(c, st, e)]
    [] e.k = "st.done" -> [st1 EXCEPT !.res[e.e].s0 = e.res.s0, !.res[e.e].c0 = e.res.c0]
    [] e.k = "job.done" -> [st1 EXCEPT !.jres[e.e] = e.res]
    [] e.k = "wf.done" -> [st1 EXCEPT !.wres[e.e] = [res |-> e.res, jobs |-> e.jobs]]
    [] OTHER -> st1

DeliverUpd(c, st, e) ==
  LET t == Thread(c, e)
      st1 == IF IsNew(c, st, e) THEN LifeUpd(c, st, e) ELSE st
  IN [st1 EXCEPT !.th[t] = [k |-> e.k, e |-> e.e, a |-> e.a, cont |-> e.c,
                            idx |-> Idx(c, e.r), open |-> TRUE]]

(* A step that is being prepared or is running and has not been ended. *)
ActiveStep(c, st, j) ==
  LET s == Cur(c, st, j) IN
  s # "" /\ st.ph[s] \in {"before", "run", "queued", "exec", "acc", "prog"} /\ st.end[s] = "none"

Upd(c, st0, e) ==
  LET st == IF "t" \in DOMAIN e THEN [st0 EXCEPT !.now = e.t] ELSE st0 IN
  IF ~Known(c, e) THEN st ELSE
  CASE e.k \in Deliveries -> DeliverUpd(c, st, e)
    [] e.k = "x.rel" ->
         LET t == IF e.of \in WfKinds \cup JobKinds THEN e.e ELSE JobOf(c, e.e)
             cur == st.th[t]
             st1 == IF cur.k = e.of /\ cur.e = e.e /\ c.rec[cur.idx] = e.r
                    THEN [st EXCEPT !.th[t].open = FALSE] ELSE st
         IN IF e.of = "st.before"
            THEN [st1 EXCEPT !.body[e.e] = e.body, !.to[e.e] = e.to]
            ELSE IF e.of = "st.state" /\ cur.a = "in_progress" /\ cur.idx = NR(c)
            THEN [st1 EXCEPT !.tp[e.e] = st.now]
            ELSE st1
    [] e.k = "st.exec" ->
         [st EXCEPT !.ph[e.e] = "exec", !.tx[e.e] = st.now, !.ux[e.e] = e.u,
                    !.th[Thread(c, e)] = [FreeTh(c) EXCEPT !.k = "st.exec", !.e = e.e, !.open = TRUE]]
    [] e.k = "x.acc" ->
         [st EXCEPT !.ph[e.e] = IF e.ok THEN "acc" ELSE "refused", !.ue[e.e] = e.u,
                    !.tp[e.e] = st.now,
                    !.th[JobOf(c, e.e)].open = FALSE]
    [] e.k = "x.log" -> [st EXCEPT !.q[e.e] = IF st.end[e.e] = "none"
                                              THEN Append(@, [ty |-> e.ty, m |-> e.m]) ELSE @]
    [] e.k = "x.end" ->
         IF st.end[e.e] = "none"
         THEN [st EXCEPT !.end[e.e] = e.a, !.code[e.e] = e.code, !.ue[e.e] = e.u]
         ELSE st
    [] e.k = "x.sig" -> [st EXCEPT !.sig[e.e] = e.a]
    [] e.k = "x.cancel" ->
         IF e.ok /\ e.e \in DOMAIN c.jobs /\ st.ph[e.e] \in {"run", "prog"}
         THEN [st EXCEPT !.can[e.e] = IF ActiveStep(c, st, e.e) THEN "yes" ELSE "grace"]
         ELSE IF e.ok /\ e.e \in DOMAIN c.jobs THEN [st EXCEPT !.can[e.e] = "yes"] ELSE st
    [] e.k = "x.start" -> [st EXCEPT !.ph[e.e] = "go"]
    [] e.k = "wf.ret" -> [st EXCEPT !.ph[e.e] = "ret"]
    [] OTHER -> st

(***************************************************************************)
(* The engine's own behaviour: the events a thread owes next.               *)
(***************************************************************************)
Ev(k, x, a) == [k |-> k, e |-> x, a |-> a, c |-> ""]
Next1(c, st, t) ==
  IF t \in DOMAIN c.wfs THEN
    LET w == t  p == st.ph[w]
        res(s) == [id |-> w, state |-> s, s0 |-> 0, c0 |-> 0]
        js == [j \in Range(c.wfs[w].jobs) |-> IF st.ph[j] = "skip" THEN SkippedJobRes(j) ELSE st.jres[j]]
    IN
    CASE p = "go" /\ c.wfs[w].on -> {Ev("wf.run", w, "") @@ [ev |-> c.wfs[w].ev, pl |-> c.wfs[w].pl]}
      [] p = "go" -> {Ev("wf.state", w, "skipped")}
      [] p = "run" -> {Ev("wf.state", w, "in_progress")}
      [] p = "prog" /\ AllJobsDone(c, st, w) -> {Ev("wf.state", w, s) : s \in WfStates(c, st, w)}
      [] p = "term" -> {Ev("wf.done", w, "") @@ [res |-> res(st.ann[w]), jobs |-> js]}
      [] p = "done" -> {[k |-> "wf.ret", e |-> w, res |-> st.wres[w].res, jobs |-> st.wres[w].jobs]}
      [] p = "skip" -> {[k |-> "wf.ret", e |-> w, res |-> SkippedWfRes(w), jobs |-> [x \in {} |-> 0]]}
      [] OTHER -> {}
  ELSE
    LET j == t  p == st.ph[j]  w == WfOf(c, j)  s == Cur(c, st, j)
        evp == [ev |-> c.wfs[w].ev, pl |-> c.wfs[w].pl]
    IN
    CASE p = "idle" /\ st.ph[w] = "prog" /\ Free(c, st, w) /\ DepsDone(c, st, j) ->
           IF c.jobs[j].on THEN {Ev("job.run", j, "") @@ evp} ELSE {Ev("job.state", j, "skipped")}
      [] p = "run" -> {Ev("job.state", j, "in_progress")}
      [] p = "prog" /\ s = "" -> {Ev("job.state", j, JobState(st, j))}
      [] p = "term" ->
           {Ev("job.done", j, "") @@
              [res |-> [id |-> j, state |-> st.ann[j], s0 |-> 0, c0 |-> 0,
                        steps |-> [i \in 1..Len(Steps(c, j)) |->
                           StepRes(Steps(c, j)[i], IF st.ph[Steps(c, j)[i]] = "skip" THEN SkipRes
                                                   ELSE st.res[Steps(c, j)[i]])]]]}
      [] p = "prog" /\ s # "" ->
           LET q == st.ph[s]  bt == [body |-> st.body[s], to |-> st.to[s]] IN
           CASE q = "idle" ->
                  If(~MustSkip(c, st, s), {Ev("st.before", s, "") @@ bt})
                  \cup If(MaySkip(c, st, s), {Ev("st.state", s, "skipped")})
             [] q = "before" -> {Ev("st.run", s, "") @@ bt @@ evp}
             [] q = "run" -> {Ev("st.state", s, "queued")}
             [] q = "queued" -> {[k |-> "st.exec", e |-> s, a |-> "", u |-> 0, id |-> s] @@ bt @@ evp}
             [] q = "acc" -> {Ev("st.state", s, "in_progress")}
             [] q = "refused" -> {Ev("st.state", s, "failed")}
             [] q = "prog" ->
                  If(st.q[s] # <<>>, {Ev("st.log", s, "") @@ [ty |-> Head(st.q[s]).ty, m |-> Head(st.q[s]).m]})
                  \cup If(st.q[s] = <<>> /\ st.end[s] # "none", {Ev("st.state", s, st.end[s])})
                  \cup If(st.end[s] = "none" /\ st.sig[s] = "none" /\ st.can[j] # "no",
                          {[k |-> "x.sig", e |-> s, a |-> "cancel"]})
                  \cup If(st.end[s] = "none" /\ st.sig[s] = "none" /\ st.now >= st.tp[s] + st.to[s],
                          {[k |-> "x.sig", e |-> s, a |-> "timeout"]})
             [] q = "term" ->
                  {Ev("st.done", s, "") @@ [res |-> [id |-> s, state |-> st.ann[s], code |-> st.res[s].code,
                                                     s0 |-> 0, c0 |-> 0]]}
             [] OTHER -> {}
      [] OTHER -> {}

(* In the middle of a fan-out the same notification goes to the next observer. *)
Gen(c, st, t) ==
  LET x == st.th[t] IN
  IF x.open THEN {}
  ELSE IF x.idx < NR(c) THEN {<<"more", x.idx + 1>>}
  ELSE {<<"new", e>> : e \in Next1(c, st, t)}
=============================================================================
