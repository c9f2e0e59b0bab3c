------------------------------- MODULE Signal -------------------------------
(* Signals and the registry of cancellable jobs (C11).  sig: per signal its *)
(* kind ("" unset), whether it has been delivered, and the waker of its     *)
(* last waiter told to wait (0: none); reg: per job the registered signal   *)
(* (0: none); h: the signals that were looked up in the registry.           *)
EXTENDS Integers, Sequences, FiniteSets

NSig == 3
NJob == 2
NH == 6
S0 == [sig |-> [i \in 1 .. NSig |-> [kind |-> "", told |-> FALSE, armed |-> 0]],
       reg |-> [j \in 1 .. NJob |-> 0], h |-> [k \in 1 .. NH |-> 0]]

One(s, v) == {[s |-> s, d |-> TRUE, v |-> v, x |-> 0]}
Target(s, o) == IF o.sg > 0 THEN o.sg ELSE s.h[o.h]
Set(s, i, k) ==
  IF s.sig[i].kind = "" THEN One([s EXCEPT !.sig[i].kind = k], "ok") ELSE One(s, "err")

Apply(s, o, x) ==
  CASE o.op \in {"cancel", "timeout"} -> Set(s, Target(s, o), o.op)
    [] o.op = "is_cancelled" -> One(s, IF s.sig[Target(s, o)].kind = "cancel" THEN "T" ELSE "F")
    [] o.op = "is_timeout" -> One(s, IF s.sig[Target(s, o)].kind = "timeout" THEN "T" ELSE "F")
    [] o.op = "recv" ->
         LET i == Target(s, o) IN
         IF s.sig[i].told THEN One(s, "P")
         ELSE IF s.sig[i].kind # "" THEN One([s EXCEPT !.sig[i].told = TRUE, !.sig[i].armed = 0], s.sig[i].kind)
         ELSE One([s EXCEPT !.sig[i].armed = o.w], "P")
    [] o.op = "register" -> One([s EXCEPT !.reg[o.j] = o.sg], "")
    [] o.op = "unregister" -> One([s EXCEPT !.reg[o.j] = 0], "")
    [] o.op = "get" -> One([s EXCEPT !.h[o.h] = s.reg[o.j]], IF s.reg[o.j] = 0 THEN "none" ELSE "some")
    [] o.op = "cancel_job" ->
         (* looks the signal up, then cancels it *)
         IF x = 0 THEN (IF s.reg[o.j] = 0 THEN One(s, "err") ELSE {[s |-> s, d |-> FALSE, v |-> "", x |-> s.reg[o.j]]})
         ELSE Set(s, x, "cancel")

Stuck(s, woken) ==
  \E i \in 1 .. NSig : s.sig[i].armed # 0 /\ s.sig[i].armed \notin woken /\ s.sig[i].kind # "" /\ ~s.sig[i].told
=============================================================================
