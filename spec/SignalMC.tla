------------------------------ MODULE SignalMC ------------------------------
(* Every sequence of DEPTH operations on two signals and the registry.      *)
EXTENDS Signal, TLC, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
VARIABLES st, path, mid, told

Ops(n) == {
  [op |-> "cancel", sg |-> 1], [op |-> "timeout", sg |-> 1], [op |-> "timeout", sg |-> 2],
  [op |-> "is_cancelled", sg |-> 1], [op |-> "is_timeout", sg |-> 1], [op |-> "is_cancelled", sg |-> 2],
  [op |-> "recv", sg |-> 1, w |-> n], [op |-> "recv", sg |-> 2, w |-> n],
  [op |-> "register", j |-> 1, sg |-> 1], [op |-> "register", j |-> 1, sg |-> 2],
  [op |-> "unregister", j |-> 1], [op |-> "cancel_job", j |-> 1], [op |-> "cancel_job", j |-> 2]}

(* mid: the local value of an operation that is half done *)
Init == st = S0 /\ path = <<>> /\ mid = 0 /\ told = 0
Next ==
  \/ /\ mid = 0 /\ Len(path) < Depth
     /\ \E o \in Ops(Len(path) + 1) : \E e \in Apply(st, o, 0) :
          /\ st' = e.s /\ path' = Append(path, o) /\ mid' = IF e.d THEN 0 ELSE e.x
          /\ told' = told + (IF o.op = "recv" /\ e.v # "P" THEN 1 ELSE 0)
     /\ IF Len(path') = Depth /\ IOEnv.PRINT = "1" THEN PrintT(<<"PATH", ToJson(path')>>) ELSE TRUE
  \/ /\ mid # 0
     /\ \E e \in Apply(st, path[Len(path)], mid) : st' = e.s /\ mid' = 0
     /\ UNCHANGED <<path, told>>
Spec == Init /\ [][Next]_<<st, path, mid, told>>

Once == told <= Cardinality({i \in 1 .. NSig : st.sig[i].told})
ToldKind == \A i \in 1 .. NSig : st.sig[i].told => st.sig[i].kind # ""
FirstWins == [][\A i \in 1 .. NSig : st.sig[i].kind # "" => st'.sig[i].kind = st.sig[i].kind]_st
ToldOnce == [][\A i \in 1 .. NSig : st.sig[i].told => st'.sig[i].told]_st
=============================================================================
