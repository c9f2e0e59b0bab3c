---------------------------- MODULE SchedulerMC ----------------------------
(* Every sequence of DEPTH operations of two jobs on three runners.         *)
EXTENDS Scheduler, TLC, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
R1 == [id |-> "r1", os |-> "linux", arch |-> "x86_64", d |-> TRUE, h |-> TRUE, max |-> 5]
R2 == [id |-> "r2", os |-> "linux", arch |-> "aarch64", d |-> TRUE, h |-> FALSE, max |-> 1]
R3 == [id |-> "r3", os |-> "macos", arch |-> "x86_64", d |-> FALSE, h |-> TRUE, max |-> 5]
Offers == {<<R1, R2, R3>>, <<R3, R2>>}
Kinds == {[c |-> "", host |-> FALSE, sys |-> ""], [c |-> "host/linux", host |-> TRUE, sys |-> "linux"],
          [c |-> "host/macos-x86_64", host |-> TRUE, sys |-> "macos-x86_64"]}
Jobs == {"w/a", "w/b"}

VARIABLES st, path, n, last
Name(j, k) == j \o "/" \o ToString(k)
Sched(j, k, rs) ==
  [op |-> "schedule", st |-> Name(j, n[j]), j |-> j, rs |-> rs, c |-> k.c, host |-> k.host, sys |-> k.sys]

Init == st = S0 /\ path = <<>> /\ n = [j \in Jobs |-> 0] /\ last = <<>>
Do(o) == \E e \in Apply(st, o, 0) :
  /\ st' = e.s /\ path' = Append(path, o) /\ last' = <<o, e.v>>
  /\ IF Len(path') = Depth /\ IOEnv.PRINT = "1" THEN PrintT(<<"PATH", ToJson(path')>>) ELSE TRUE
Next ==
  /\ Len(path) < Depth
  /\ \/ \E j \in Jobs, k \in Kinds, rs \in Offers : Do(Sched(j, k, rs)) /\ n' = [n EXCEPT ![j] = @ + 1]
     \/ \E s \in DOMAIN st.step : Do([op |-> "stepdone", st |-> s]) /\ n' = n
     \/ \E j \in Jobs : n[j] > 0 /\ (\A k \in 0 .. n[j] : Name(j, k) \notin DOMAIN st.step)
                        /\ Do([op |-> "jobdone", j |-> j]) /\ n' = n
Spec == Init /\ [][Next]_<<st, path, n, last>>

All == {R1, R2, R3}
Right ==
  last # <<>> /\ last[1].op = "schedule" =>
    LET o == last[1] v == last[2] IN
    /\ v = "" <=> Capable(o) = {}
    /\ \A r \in Rng(o.rs) : r.id = v => IF o.host THEN r.h ELSE r.d
Sticky ==
  [][last' # last /\ last'[1].op = "schedule" /\ ~last'[1].host /\ last'[1].j \in DOMAIN st.job
     /\ (\E r \in Rng(last'[1].rs) : r.id = st.job[last'[1].j]) => last'[2] = st.job[last'[1].j]]_<<st, last>>
Balanced ==
  [][last' # last /\ last'[1].op = "schedule" /\ ~last'[1].host /\ last'[1].j \notin DOMAIN st.job
     => \A r \in Rng(last'[1].rs) : r.d => Load(st, last'[2]) <= Load(st, r.id)]_<<st, last>>
=============================================================================
