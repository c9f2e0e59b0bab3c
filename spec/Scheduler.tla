----------------------------- MODULE Scheduler -----------------------------
(* The default scheduler (C14).  step: runner of every unfinished step,     *)
(* job: runner of the last container step of every unfinished job; the      *)
(* number of unfinished steps of a runner is counted from step.  A runner   *)
(* that is offered is a record: id, os, arch, d (offers containers), h      *)
(* (offers its host).                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoMap == [x \in {} |-> ""]
S0 == [step |-> NoMap, job |-> NoMap]
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Del(f, k) == TLCEval([x \in DOMAIN f \ {k} |-> f[x]])

Load(s, r) == Cardinality({k \in DOMAIN s.step : s.step[k] = r})
Rng(q) == {q[i] : i \in DOMAIN q}

Capable(o) ==
  IF o.host THEN {r \in Rng(o.rs) : r.h /\ (o.sys = r.os \/ o.sys = r.os \o "-" \o r.arch)}
  ELSE {r \in Rng(o.rs) : r.d}

(* the runners the step may be given to *)
Choices(s, o) ==
  LET cap == Capable(o)
      kept == {r \in cap : o.j \in DOMAIN s.job /\ s.job[o.j] = r.id}
  IN IF o.host THEN cap
     ELSE IF kept # {} THEN kept
     ELSE {r \in cap : \A q \in cap : Load(s, r.id) <= Load(s, q.id)}

One(s, v) == {[s |-> s, d |-> TRUE, v |-> v, x |-> 0]}
Given(s, o, r) ==
  [step |-> Put(s.step, o.st, r), job |-> IF o.host THEN s.job ELSE Put(s.job, o.j, r)]

Apply(s, o, x) ==
  CASE o.op = "schedule" ->
         IF Choices(s, o) = {} THEN One(s, "")
         ELSE UNION {One(Given(s, o, r.id), r.id) : r \in Choices(s, o)}
    [] o.op = "stepdone" -> One([s EXCEPT !.step = Del(@, o.st)], "")
    [] o.op = "jobdone" -> One([s EXCEPT !.job = Del(@, o.j)], "")
    [] o.op = "peek" -> One(s, IF s.step = NoMap /\ s.job = NoMap THEN "clean" ELSE "left over")

Stuck(s, woken) == FALSE
=============================================================================
