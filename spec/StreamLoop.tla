----------------------------- MODULE StreamLoop -----------------------------
(* A task that polls a stream only when it has been woken, and writers that *)
(* wake the armed waker at any time after their write took effect: nothing  *)
(* is missed (this is what "told to wait, not woken, something to get" of   *)
(* Stream.tla stands for).                                                  *)
EXTENDS Stream, TLC

CONSTANT Lines
VARIABLES st, left, ended, run, owed, del

vars == <<st, left, ended, run, owed, del>>
Init == st = S0 /\ left = Lines /\ ended = FALSE /\ run = TRUE /\ owed = FALSE /\ del = <<>>
(* owed: a writer has yet to wake the waker it found; then the task runs again *)
Write == /\ left > 0 /\ ~owed
         /\ \E e \in Apply(st, [op |-> "write", m |-> ToString(left), pos |-> 0], 0) :
              owed' = (st.armed # 0) /\ st' = [e.s EXCEPT !.armed = 0]
         /\ left' = left - 1 /\ UNCHANGED <<ended, run, del>>
End == /\ ~ended /\ left = 0 /\ ~owed
       /\ \E e \in Apply(st, [op |-> "end", m |-> "S", how |-> 0], 0) :
            owed' = (st.armed # 0) /\ st' = [e.s EXCEPT !.armed = 0]
       /\ ended' = TRUE /\ UNCHANGED <<left, run, del>>
Wake == owed /\ owed' = FALSE /\ run' = TRUE /\ UNCHANGED <<st, left, ended, del>>
Poll == /\ run
        /\ \E e \in Apply(st, [op |-> "poll", w |-> 1], 0) :
             /\ st' = e.s
             /\ run' = (e.v \notin {"P", "N"})
             /\ del' = IF e.v = "P" THEN del ELSE Append(del, e.v)
        /\ UNCHANGED <<left, ended, owed>>
Next == Write \/ End \/ Wake \/ Poll
Spec == Init /\ [][Next]_vars /\ WF_vars(Write) /\ WF_vars(End) /\ WF_vars(Wake) /\ WF_vars(Poll)
Done == <>(Len(del) = Lines + 1 /\ del[Lines + 1] = "N")
NeverStuck == ~Stuck(st, IF owed \/ run THEN {1} ELSE {})
=============================================================================
