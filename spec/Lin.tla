-------------------------------- MODULE Lin --------------------------------
(* Linearizability of a recorded history of concurrent operations against a *)
(* sequential specification: the set of every configuration (abstract state *)
(* plus, per thread, how far its operation has taken effect) that explains  *)
(* the history so far.  Apply(s, o, x) is the set of effects operation o    *)
(* may have next in state s, its local value being x: records of the new    *)
(* state s, the local value x, whether it is done d, its answer v.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Apply(_, _, _)

Threads == 0 .. 8
NoOp == [o |-> [op |-> "none"], d |-> TRUE, v |-> "", x |-> 0]
Conf0(s0) == {[s |-> s0, p |-> [t \in Threads |-> NoOp]]}

Call(cs, t, o) == {[c EXCEPT !.p[t] = [o |-> o, d |-> FALSE, v |-> "", x |-> 0]] : c \in cs}

Steps(c) ==
  UNION {{[s |-> e.s, p |-> [c.p EXCEPT ![t].d = e.d, ![t].v = e.v, ![t].x = e.x]]
          : e \in Apply(c.s, c.p[t].o, c.p[t].x)} : t \in {t \in Threads : ~c.p[t].d}}

RECURSIVE Close(_, _, _)
Close(front, t, done) ==
  (* every configuration in which the operation of t has just taken effect *)
  LET hit == {c \in front : c.p[t].d}
      nxt == UNION {Steps(c) : c \in front \ hit}
  IN IF front = {} THEN done ELSE Close(nxt, t, done \cup hit)

Ret(cs, t, v) == {[c EXCEPT !.p[t] = NoOp] : c \in {c \in Close(cs, t, {}) : c.p[t].v = v}}
=============================================================================
