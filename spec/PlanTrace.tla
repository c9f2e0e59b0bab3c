----------------------------- MODULE PlanTrace -----------------------------
(* Recorded builds of workflow files against Plan.tla, one record each.     *)
EXTENDS Plan, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Check(i) == LET v == Viol(Log[i]) IN IF v = {} THEN TRUE ELSE PrintT(<<"VIOL", Log[i].tr, i, ToJson(v)>>)
Init == l = 1 /\ Check(1)
Next == l < Len(Log) /\ l' = l + 1 /\ Check(l + 1)
Spec == Init /\ [][Next]_l
View == l
Accepted == PrintT(<<"DONE", TLCGet("stats").diameter, Len(Log)>>)
=============================================================================
