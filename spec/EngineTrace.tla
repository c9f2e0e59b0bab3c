---------------------------- MODULE EngineTrace ----------------------------
(* Validates recorded runs of the real engine: every record of Log is taken *)
(* in order, its violations are collected, its effect applied.  Several      *)
(* runs are concatenated; each begins with a "cfg" record.                   *)
EXTENDS Engine, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, st

Init == l = 1 /\ c = Log[1].cfg /\ st = St0(Log[1].cfg)

Report(r, v) ==
  IF v = {} THEN TRUE ELSE PrintT(<<"VIOL", r.tr, l + 1, ToJson(v)>>)

Next ==
  /\ l < Len(Log)
  /\ l' = l + 1
  /\ LET r == Log[l + 1] IN
     IF r.k = "cfg" THEN c' = r.cfg /\ st' = St0(r.cfg)
     ELSE /\ c' = c
          /\ Report(r, Viol(c, IF "t" \in DOMAIN r THEN [st EXCEPT !.now = r.t] ELSE st, r))
          /\ st' = Upd(c, st, r)

Spec == Init /\ [][Next]_<<l, c, st>>
View == l
Accepted == PrintT(<<"DONE", TLCGet("stats").diameter, Len(Log)>>)
=============================================================================
