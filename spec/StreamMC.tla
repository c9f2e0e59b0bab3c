------------------------------ MODULE StreamMC ------------------------------
(* Every sequence of DEPTH operations on one stream, with what must hold of *)
(* Stream.tla itself; each sequence is printed and replayed in the code.    *)
EXTENDS Stream, TLC, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
VARIABLES st, path, wr, del, got

Ops(n) == {
  [op |-> "write", m |-> "L:" \o ToString(n), pos |-> 0], [op |-> "write", m |-> "E:" \o ToString(n), pos |-> 0],
  [op |-> "end", m |-> "S", how |-> 1], [op |-> "end", m |-> "F7", how |-> 1], [op |-> "end", m |-> "F123", how |-> 2],
  [op |-> "poll", w |-> n], [op |-> "result"], [op |-> "ended"]}

Init == st = S0 /\ path = <<>> /\ wr = <<>> /\ del = <<>> /\ got = "-"
Next ==
  /\ Len(path) < Depth
  /\ \E o \in Ops(Len(path) + 1) : \E e \in Apply(st, o, 0) :
       /\ st' = e.s
       /\ path' = Append(path, o)
       /\ wr' = IF o.op = "write" /\ st.end = "" THEN Append(wr, o.m) ELSE wr
       /\ del' = IF o.op = "poll" /\ e.v \notin {"P", "N"} THEN Append(del, e.v) ELSE del
       /\ got' = IF o.op = "poll" THEN e.v ELSE "-"
  /\ IF Len(path') = Depth /\ IOEnv.PRINT = "1" THEN PrintT(<<"PATH", ToJson(path')>>) ELSE TRUE
Spec == Init /\ [][Next]_<<st, path, wr, del, got>>

Ordered == \A i \in 1 .. Len(del) : i <= Len(wr) => del[i] = wr[i]
Complete == got = "N" => (st.end # "" /\ Len(del) >= Len(wr))
Waits == got = "P" => (st.end = "" /\ del = wr /\ st.armed # 0)
FirstEnd == [][st.end # "" => st'.end = st.end]_st
=============================================================================
