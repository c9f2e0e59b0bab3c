----------------------------- MODULE CondTrace -----------------------------
(* Recorded decisions and runs against Cond.tla, one record each.           *)
EXTENDS Cond, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Vals == JsonDeserialize(IOEnv.VALS)  \* what each enumerated pattern is tried on
ViolG(r) == IF r.k # "glob" THEN Viol(r)
            ELSE IF {n \in DOMAIN Vals : Glob(r.p, Vals[n])} = Rng(r.oks) THEN {} ELSE {"C13"}
VARIABLE l
Check(i) == LET v == ViolG(Log[i]) IN IF v = {} THEN TRUE ELSE PrintT(<<"VIOL", Log[i].tr, i, ToJson(v)>>)
Init == l = 1 /\ Check(1)
Next == l < Len(Log) /\ l' = l + 1 /\ Check(l + 1)
Spec == Init /\ [][Next]_l
View == l
Accepted == PrintT(<<"DONE", TLCGet("stats").diameter, Len(Log)>>)
=============================================================================
