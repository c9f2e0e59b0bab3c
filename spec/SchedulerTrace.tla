---------------------------- MODULE SchedulerTrace ----------------------------
(* Recorded concurrent histories of the real code against Scheduler.tla.  A       *)
(* history is explained as long as some configuration is left.             *)
EXTENDS Scheduler, TLC, Json, IOUtils
L == INSTANCE Lin WITH Apply <- Apply

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cs, woken

Init == l = 1 /\ cs = L!Conf0(S0) /\ woken = {}
Report(r, bad) == IF bad THEN PrintT(<<"VIOL", r.tr, l + 1, ToJson({"C14"})>>) ELSE TRUE

Next ==
  /\ l < Len(Log)
  /\ l' = l + 1
  /\ LET r == Log[l + 1] IN
     CASE r.k = "new" -> cs' = L!Conf0(S0) /\ woken' = {}
       [] r.k = "call" -> cs' = L!Call(cs, r.th, r.o) /\ woken' = woken
       [] r.k = "ret" ->
            LET n == L!Ret(cs, r.th, r.v) IN
            cs' = n /\ woken' = woken /\ Report(r, n = {} /\ cs # {})
       [] r.k = "wake" -> cs' = cs /\ woken' = woken \cup {r.w}
       [] r.k = "joined" ->
            cs' = cs /\ woken' = woken /\ Report(r, cs # {} /\ \A c \in cs : Stuck(c.s, woken))
       [] OTHER -> (* the code hung or crashed *)
            cs' = {} /\ woken' = woken /\ Report(r, cs # {})

Spec == Init /\ [][Next]_<<l, cs, woken>>
View == l
Accepted == PrintT(<<"DONE", TLCGet("stats").diameter, Len(Log)>>)
=============================================================================
