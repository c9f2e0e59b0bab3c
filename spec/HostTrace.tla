---------------------------- MODULE HostTrace ----------------------------
(* Recorded runs of the real runner against Host.tla.                       *)
EXTENDS Host, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, st
Init == l = 1 /\ c = Log[1].c /\ st = St0(Log[1].c)
Report(r, v) == IF v = {} THEN TRUE ELSE PrintT(<<"VIOL", r.tr, l + 1, ToJson(v)>>)
Next ==
  /\ l < Len(Log)
  /\ l' = l + 1
  /\ LET r == Log[l + 1] IN
     IF r.k = "cfg" THEN c' = r.c /\ st' = St0(r.c)
     ELSE /\ c' = c
          /\ Report(r, Viol(c, st, r))
          /\ st' = Upd(c, st, r)
Spec == Init /\ [][Next]_<<l, c, st>>
View == l
Accepted == PrintT(<<"DONE", TLCGet("stats").diameter, Len(Log)>>)
=============================================================================
