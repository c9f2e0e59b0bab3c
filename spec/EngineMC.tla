------------------------------ MODULE EngineMC ------------------------------
(***************************************************************************)
(* The engine as a transition system: the engine does what it owes (Gen of  *)
(* Engine.tla), the environment - users, runners, observers, time - does    *)
(* what it likes, within the bounds of the configuration c:                 *)
(*   c.gate   kinds of notification whose observers return when they like   *)
(*            (the others return at once)                                   *)
(*   c.ends   how runners may end a step   c.logs   lines per step          *)
(*   c.cancels cancel requests in all, to the jobs c.targets                *)
(*   c.refuse steps the runner refuses     c.ticks  time steps of 1000 ms   *)
(*   c.order  workflows, in the order in which they are started             *)
(* Mode "full": engine and environment interleave freely.  Mode "max": the  *)
(* environment acts only when the engine has nothing left to do; that is    *)
(* how the harness drives the real engine, and Print emits for every        *)
(* transition of this model the schedule of environment actions that leads  *)
(* to and through it.                                                       *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils, TLCExt

Configs == ndJsonDeserialize(IOEnv.CONFIGS)
Mode == IOEnv.MODE
Printing == IOEnv.PRINT = "1"

VARIABLES ci, st, n, bad, hist, path
vars == <<ci, st, n, bad, hist, path>>
c == Configs[ci]
Threads == DOMAIN c.wfs \cup DOMAIN c.jobs
ThreadSeq == c.order \o c.jorder

Init ==
  /\ ci \in 1..Len(Configs)
  /\ st = St0(Configs[ci])
  /\ n = [cancels |-> 0, ticks |-> 0, logs |-> [s \in DOMAIN Configs[ci].steps |-> 0], started |-> 0]
  /\ bad = {}
  /\ hist = [wrote |-> [s \in DOMAIN Configs[ci].steps |-> <<>>], got |-> [s \in DOMAIN Configs[ci].steps |-> <<>>],
             sigs |-> [s \in DOMAIN Configs[ci].steps |-> 0], execs |-> [s \in DOMAIN Configs[ci].steps |-> 0],
             acks |-> [j \in DOMAIN Configs[ci].jobs |-> 0], ann |-> <<>>]
  /\ path = <<>>

Hist(e) ==
  CASE e.k = "x.log" -> [hist EXCEPT !.wrote[e.e] = Append(@, e.m)]
    [] e.k = "st.log" /\ IsNew(c, st, e) -> [hist EXCEPT !.got[e.e] = Append(@, e.m)]
    [] e.k = "x.sig" -> [hist EXCEPT !.sigs[e.e] = @ + 1]
    [] e.k = "st.exec" -> [hist EXCEPT !.execs[e.e] = @ + 1]
    [] e.k = "x.cancel" /\ e.ok -> [hist EXCEPT !.acks[e.e] = @ + 1]
    [] OTHER -> hist

Do(e) == st' = Upd(c, st, e) /\ bad' = Viol(c, st, e) /\ hist' = Hist(e) /\ ci' = ci
Engine1(e) == Do(e) /\ UNCHANGED <<n, path>>
Env(e, a) ==
  /\ Do(e)
  /\ path' = IF Printing THEN Append(path, a) ELSE path

(* What the engine does next in thread t. *)
Owed(t) ==
  {IF x[1] = "new" THEN (IF x[2].k \in Deliveries THEN [r |-> c.rec[1]] @@ x[2] ELSE x[2])
   ELSE LET h == st.th[t] IN
        [k |-> h.k, e |-> h.e, a |-> h.a, c |-> h.cont, r |-> c.rec[x[2]]]
          @@ (IF h.k = "st.before" THEN [body |-> st.body[h.e], to |-> st.to[h.e]] ELSE [u |-> 0])
   : x \in Gen(c, st, t)}

Open(t) == st.th[t].open
IsExec(t) == Open(t) /\ st.th[t].k = "st.exec"
Rel(t) ==
  LET h == st.th[t] IN
  [k |-> "x.rel", of |-> h.k, e |-> h.e, r |-> c.rec[h.idx]]
    @@ (IF h.k = "st.before" THEN [body |-> st.body[h.e], to |-> st.to[h.e]] ELSE [u |-> 0])
Gated(t) == st.th[t].k \in Range(c.gate)
Auto(t) == Open(t) /\ ~IsExec(t) /\ ~Gated(t)

Busy(t) == Auto(t) \/ Owed(t) # {}
EngineBusy == \E t \in Threads : Busy(t)

EngineStep(t) ==
  \/ \E e \in Owed(t) : Engine1(e)
  \/ Auto(t) /\ Engine1(Rel(t))

FirstBusy == CHOOSE i \in 1..Len(ThreadSeq) : Busy(ThreadSeq[i]) /\ \A k \in 1..(i-1) : ~Busy(ThreadSeq[k])

(* The environment. *)
Release == \E t \in Threads : Open(t) /\ ~IsExec(t) /\ Gated(t)
  /\ Env(Rel(t), <<"rel", st.th[t].k, st.th[t].e, c.rec[st.th[t].idx]>>) /\ UNCHANGED n
Accept == \E t \in Threads : IsExec(t)
  /\ Env([k |-> "x.acc", e |-> st.th[t].e, ok |-> st.th[t].e \notin Range(c.refuse), u |-> 0],
         <<"acc", st.th[t].e>>) /\ UNCHANGED n
CanEnd(s) == st.end[s] = "none" /\ st.ph[s] \in {"acc", "prog"} /\ s \notin Range(c.refuse)
End == \E s \in DOMAIN c.steps : \E a \in Range(c.ends) : CanEnd(s)
  /\ Env([k |-> "x.end", e |-> s, a |-> a, code |-> IF a = "failed" THEN 3 ELSE NoCode, u |-> 0], <<"end", s, a>>)
  /\ UNCHANGED n
LogLine == \E s \in DOMAIN c.steps : CanEnd(s) /\ n.logs[s] < c.logs
  /\ Env([k |-> "x.log", e |-> s, ty |-> "log", m |-> n.logs[s]], <<"log", s>>)
  /\ n' = [n EXCEPT !.logs[s] = @ + 1]
Cancel == \E j \in Range(c.targets) : n.cancels < c.cancels
  /\ \E ok \in BOOLEAN :
       /\ CancelViol(c, st, [k |-> "x.cancel", e |-> j, ok |-> ok]) = {}
       /\ Env([k |-> "x.cancel", e |-> j, ok |-> ok], <<"cancel", j>>)
  /\ n' = [n EXCEPT !.cancels = @ + 1]
Tick == n.ticks < c.ticks
  /\ ~EngineBusy   \* the engine is prompt: time passes when it has nothing to do
  /\ Env([k |-> "x.tick", t |-> st.now + 1000], <<"tick">>) /\ n' = [n EXCEPT !.ticks = @ + 1]
Start == n.started < Len(c.order)
  /\ Env([k |-> "x.start", e |-> c.order[n.started + 1]], <<"start", c.order[n.started + 1]>>)
  /\ n' = [n EXCEPT !.started = @ + 1]

EnvStep == Release \/ Accept \/ End \/ LogLine \/ Cancel \/ Tick \/ Start

Emit == ~Printing \/ PrintT(<<"PATH", ci, ToJson(path')>>)
Next ==
  IF Mode = "max"
  THEN IF EngineBusy THEN EngineStep(ThreadSeq[FirstBusy]) ELSE EnvStep /\ Emit
  ELSE (\E t \in Threads : EngineStep(t)) \/ EnvStep

(* Progress: the engine, observers and runners do not stop for ever. *)
Progress == (\E t \in Threads : EngineStep(t)) \/ Release \/ Accept \/ End \/ Start
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ WF_vars(Progress)
View == <<ci, st, n, bad, hist>>

----------------------------------------------------------------------------
(* What must hold, said independently of how the engine decides. *)
NoViolation == bad = {}

Active(j) == st.ph[j] \notin {"idle", "skip", "done"}
Begun(x) == st.ph[x] # "idle"
Over(x) == st.ph[x] \in {"done", "skip", "ret"}
C01_Deps == \A j \in DOMAIN c.jobs : Begun(j) =>
              \A d \in Range(c.jobs[j].deps) : Over(d) /\ Free(c, st, d)
C01_Once == \A s \in DOMAIN c.steps : hist.execs[s] <= 1
C01_Immediate == \A j \in DOMAIN c.jobs :
   (~Begun(j) /\ st.ph[c.jobs[j].w] = "prog" /\ Free(c, st, c.jobs[j].w)
      /\ \A d \in Range(c.jobs[j].deps) : Over(d) /\ Free(c, st, d)) => Owed(j) # {}
C02_Complete == \A w \in DOMAIN c.wfs : (c.wfs[w].on /\ st.ph[w] \in {"term", "done", "ret"}) =>
   /\ \A j \in Range(c.wfs[w].jobs) : Over(j)
   /\ st.ph[w] \in {"done", "ret"} => DOMAIN st.wres[w].jobs = Range(c.wfs[w].jobs)
C02_NoStuck == (~EngineBusy /\ \A t \in Threads : ~Open(t)) =>
   \A w \in DOMAIN c.wfs : st.ph[w] \in {"idle", "ret"} \/
      \E s \in DOMAIN c.steps : c.jobs[c.steps[s].j].w = w /\ st.ph[s] = "prog" /\ st.end[s] = "none"
C03_Order == \A j \in DOMAIN c.jobs : LET ss == c.jobs[j].steps IN
   \A i \in 1..Len(ss) : Begun(ss[i]) => \A k \in 1..(i-1) : Over(ss[k])
C03_Policy == \A j \in DOMAIN c.jobs : LET ss == c.jobs[j].steps IN
   \A i \in 1..Len(ss) : \A k \in 1..(i-1) :
     /\ (st.ann[ss[k]] = "cancelled" /\ Over(ss[i])) => st.ph[ss[i]] = "skip"
     /\ (st.ann[ss[k]] = "failed" /\ Over(ss[i]) /\ ~c.steps[ss[i]].coe) => st.ph[ss[i]] = "skip"
     /\ st.ph[ss[i]] = "skip" => hist.execs[ss[i]] = 0
C04_Job == \A j \in DOMAIN c.jobs : st.ann[j] \in Terminal => LET ss == c.jobs[j].steps
       bads == {i \in 1..Len(ss) : st.ann[ss[i]] \in {"failed", "cancelled"}} IN
   IF bads # {} THEN st.ann[j] = st.ann[ss[CHOOSE i \in bads : \A k \in bads : k <= i]]
   ELSE st.ann[j] = "succeeded" \/ (st.ann[j] = "cancelled" /\ st.can[j] # "no")
C04_Wf == \A w \in DOMAIN c.wfs : st.ann[w] = "succeeded" =>
   \A j \in Range(c.wfs[w].jobs) : st.ann[j] \in {"succeeded", "skipped"}
C05_Nested ==
   /\ \A j \in DOMAIN c.jobs : Active(j) => st.ph[c.jobs[j].w] = "prog"
   /\ \A s \in DOMAIN c.steps : (Begun(s) /\ ~Over(s)) => st.ph[c.steps[s].j] = "prog"
C06_OneAtATime == \A t \in Threads : Open(t) => st.th[t].idx \in 1..NR(c)
C07_Prefix == \A s \in DOMAIN c.steps :
   /\ Len(hist.got[s]) <= Len(hist.wrote[s])
   /\ \A i \in 1..Len(hist.got[s]) : hist.got[s][i] = hist.wrote[s][i]
   /\ st.ph[s] \in {"term", "done"} => hist.got[s] = hist.wrote[s]
C08_Cancel == \A j \in DOMAIN c.jobs :
   /\ hist.acks[j] <= 1
   /\ (st.ann[j] = "succeeded" /\ hist.acks[j] = 1 /\ st.can[j] = "yes") =>
        \A s \in Range(c.jobs[j].steps) : st.ann[s] # "skipped" \/ ~c.steps[s].on
C08_C09_Signals == \A s \in DOMAIN c.steps : hist.sigs[s] <= 1
QuietSound == ~EngineBusy => QuietViol(c, [st EXCEPT !.now = 0]) = {}

C13_Off ==
   /\ \A w \in DOMAIN c.wfs : ~c.wfs[w].on => \A j \in Range(c.wfs[w].jobs) : ~Begun(j)
   /\ \A j \in DOMAIN c.jobs : ~c.jobs[j].on => st.ph[j] \in {"idle", "skip"} /\ \A s \in Range(c.jobs[j].steps) : ~Begun(s)
   /\ \A s \in DOMAIN c.steps : ~c.steps[s].on => st.ph[s] \in {"idle", "skip"}

Rank(p) == CASE p = "idle" -> 0 [] p = "go" -> 1 [] p = "before" -> 2 [] p = "run" -> 3 [] p = "queued" -> 4
             [] p = "exec" -> 5 [] p \in {"acc", "refused"} -> 6 [] p = "prog" -> 7 [] p = "term" -> 8
             [] p \in {"done", "skip"} -> 9 [] p = "ret" -> 10
Monotone == [][\A x \in DOMAIN st.ph : Rank(st.ph'[x]) >= Rank(st.ph[x])]_vars
EndFinal == [][\A s \in DOMAIN c.steps : st.end[s] # "none" => st.end'[s] = st.end[s]]_vars
EveryRunEnds == <>(\A w \in DOMAIN c.wfs : st.ph[w] = "ret")
=============================================================================
