------------------------------- MODULE Stream -------------------------------
(* The step stream (C10): what each operation of StreamSender and           *)
(* StreamReceiver does, atomically.  q: lines written and not delivered,    *)
(* n: lines delivered, end: the result of the first end ("" before it),     *)
(* armed: the waker of the last poll if that poll was told to wait (0: no). *)
(* A line that was written after the end may be kept or lost.               *)
EXTENDS Integers, Sequences, FiniteSets

S0 == [q |-> <<>>, n |-> 0, end |-> "", armed |-> 0]

One(s, v) == {[s |-> s, d |-> TRUE, v |-> v, x |-> 0]}
Append2(s, m) == [s EXCEPT !.q = Append(@, m)]

Apply(s, o, x) ==
  CASE o.op = "write" ->
         (* o.pos: where the line came out in the end, 0 if it did not *)
         (IF o.pos = 0 \/ o.pos = s.n + Len(s.q) + 1 THEN One(Append2(s, o.m), "") ELSE {})
         \cup (IF s.end # "" /\ o.pos = 0 THEN One(s, "") ELSE {})
    [] o.op = "end" -> One(IF s.end = "" THEN [s EXCEPT !.end = o.m] ELSE s, "")
    [] o.op = "poll" ->
         IF s.q # <<>> THEN One([s EXCEPT !.q = Tail(@), !.n = @ + 1, !.armed = 0], Head(s.q))
         ELSE IF s.end # "" THEN One([s EXCEPT !.armed = 0], "N")
         ELSE One([s EXCEPT !.armed = o.w], "P")
    [] o.op = "result" -> One(s, s.end)
    [] o.op = "ended" -> One(s, IF s.end = "" THEN "F" ELSE "T")

(* a receiver that was told to wait, was not woken, and has something to get *)
Stuck(s, woken) == s.armed # 0 /\ s.armed \notin woken /\ (s.q # <<>> \/ s.end # "")
=============================================================================
