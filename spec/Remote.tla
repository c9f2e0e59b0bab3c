------------------------------- MODULE Remote -------------------------------
(* Remote runners (C14-C18, C21): a client, the scheduler it asks, and      *)
(* runner instances behind connections that may be lost.                    *)
(*                                                                          *)
(* A configuration c names the instances c.servers[i + 1] (i as in the      *)
(* records): id, good (answers, and with a compatible version), obs (its    *)
(* observers: plugins and, last, its own runner), meta (what it says about  *)
(* itself); c.starts are the lists of instances connected by each call.     *)
(* Contents are numbers: equal exactly if the contents are.                 *)
(*                                                                          *)
(* Upd is the state after a record, Viol the properties the record breaks.  *)
(*  known l        the runners the scheduler is offered after the next call *)
(*  h.b n,kind,c,c2  h.e n    a notification is raised; raising it is over  *)
(*  told kind,c    the scheduler is told                                    *)
(*  d i,o,kind,c   observer o of instance i is notified                     *)
(*  bef.b e,c  r.bef i,o,e,c,c2,ok  bef.e e,c,ok   hooks before the step    *)
(*  run e,c,c2  sch e,l,id      the step is to run (context, command)       *)
(*  r.run i,e,c  r.no i,e  r.log i,e,a,c  r.end i,e,res   on the runner     *)
(*  r.kept i,e     the result was on its way for long before i was cut     *)
(*  sig e,a  r.sig i,e,a  r.unsignalled i,e               signals           *)
(*  line e,a,c  res e,res      what arrives                                 *)
(*  x.cut i        the connection to i is lost    ret ok   quiet            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(q) == {q[k] : k \in DOMAIN q}
Srv(c, i) == c.servers[i + 1]
Insts(c) == {k - 1 : k \in DOMAIN c.servers}
Good(c) == {i \in Insts(c) : Srv(c, i).good}
Min(S) == CHOOSE m \in S : \A k \in S : m <= k
None == "none"
NoRes == [state |-> None, code |-> 0]

St0(c) ==
  [starts |-> 0,
   of |-> [id \in {} |-> 0],                 \* the instance used for each identity, once seen
   rs |-> <<>>,                              \* notifications raised
   pend |-> [p \in {<<i, o>> \in Good(c) \X (1..10) : o <= Srv(c, i).obs} |-> <<>>],
   owed |-> <<>>,                            \* what the scheduler is yet to be told
   cut |-> {},
   x |-> [e \in {} |-> 0], b |-> [e \in {} |-> 0],
   at |-> 0]

(* ------------------------------------------------------------ connecting *)
Ids(c, is) == {Srv(c, i).id : i \in is}
Started(c, n) == Good(c) \cap UNION {Rng(c.starts[k]) : k \in 1..n}
KnownOk(c, n, l) ==
  LET is == Started(c, n) IN
  /\ Len(l) = Cardinality(Ids(c, is))
  /\ \A id \in Ids(c, is) : \E i \in is : Srv(c, i).id = id /\ Srv(c, i).meta \in Rng(l)
Mine(c, st, i) == i \in Good(c) /\ (Srv(c, i).id \notin DOMAIN st.of \/ st.of[Srv(c, i).id] = i)
See(c, st, i) == IF i \in Good(c) /\ Srv(c, i).id \notin DOMAIN st.of
                 THEN [st EXCEPT !.of = @ @@ (Srv(c, i).id :> i)] ELSE st
Used(c, st) == {i \in Good(c) : Srv(c, i).id \in DOMAIN st.of /\ st.of[Srv(c, i).id] = i}

(* --------------------------------------------------------- notifications *)
Told == {"wf.run", "job.run", "st.run", "wf.done", "job.done", "st.done"}
Del(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
(* the first notification owed to that observer with that content; 0: none *)
Owed(st, r) ==
  LET q == st.pend[<<r.i, r.o>>]
      Is(n) == st.rs[n].kind = r.kind /\ st.rs[n].c = r.c
      S == {k \in DOMAIN q : Is(q[k])}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in DOMAIN q : Is(q[k]) /\ \A m \in 1 .. k-1 : ~Is(q[m])
Overtakes(st, m, n) == st.rs[m].done # 0 /\ st.rs[m].done < st.rs[n].at   \* m was over before n began

DelViol(c, st, r) ==
  IF ~Mine(c, st, r.i) THEN {"C18"}
  ELSE LET k == Owed(st, r) q == st.pend[<<r.i, r.o>>] IN
    IF k = 0 THEN {"C17"}
    ELSE IF \/ r.i \notin st.cut /\ \E m \in 1..k-1 : Overtakes(st, q[m], q[k])
            \/ r.o > 1 /\ \E j \in DOMAIN st.pend[<<r.i, r.o - 1>>] : st.pend[<<r.i, r.o - 1>>][j] = q[k]
         THEN {"C17"} ELSE {}

(* --------------------------------------------------- hooks before a step *)
B0(c) == [orig |-> c, curs |-> {c}, from |-> {c}, in |-> -1, o |-> 0, seen |-> {}, failed |-> FALSE]
BefViol(c, st, r) ==
  IF ~Mine(c, st, r.i) \/ r.e \notin DOMAIN st.b THEN {"C18"}
  ELSE LET b == st.b[r.e] IN
    IF b.in = -2 /\ r.i \in st.cut THEN {}   \* nobody waits for it any more
    ELSE IF /\ IF b.in >= 0 THEN r.i = b.in /\ r.o = b.o + 1 ELSE r.i \notin b.seen /\ r.o = 1
       /\ r.c \in b.curs
    THEN {} ELSE {"C18"}
BefUpd(c, st, r) ==
  IF r.e \notin DOMAIN st.b \/ st.b[r.e].in = -2 THEN st ELSE
  LET b == st.b[r.e]
      from == IF b.in >= 0 THEN b.from ELSE b.curs
      over == r.o = Srv(c, r.i).obs
      curs == IF r.ok THEN {r.c2} ELSE IF over THEN from \cup {r.c, b.orig} ELSE {r.c}
  IN [st EXCEPT !.b[r.e] = [b EXCEPT !.curs = curs, !.from = from, !.in = IF over THEN -1 ELSE r.i, !.o = r.o,
                                     !.seen = @ \cup {r.i}, !.failed = @ \/ (over /\ ~r.ok)]]
(* Everything used and connected has had its say. *)
BefEndViol(c, st, r) ==
  IF r.e \notin DOMAIN st.b THEN {"C18"}
  ELSE LET b == st.b[r.e]
           all == Ids(c, Started(c, st.starts))
           got == Ids(c, b.seen)
           broken == st.cut # {} \/ b.failed
       IN IF broken THEN IF r.c \in {b.orig} \cup b.curs \cup b.from THEN {} ELSE {"C18"}
          ELSE IF got = all /\ b.in = -1 /\ r.c \in b.curs THEN {} ELSE {"C18"}

(* ------------------------------------------------------------------ steps *)
X0(r) == [c |-> r.c, c2 |-> r.c2, sch |-> FALSE, id |-> "", i |-> -1, rl |-> <<>>, got |-> 0, errs |-> 0, end |-> NoRes,
          no |-> FALSE, kept |-> FALSE, res |-> FALSE, sig |-> None, rsig |-> FALSE]
Has(st, e) == e \in DOMAIN st.x
X(st, e) == st.x[e]
InstOf(c, st, x) == IF x.id \in DOMAIN st.of THEN st.of[x.id] ELSE -1
(* The connection of the runner that was picked is lost (any of that name, if it is not known which is used). *)
Lost(c, st, x) == \E i \in st.cut : Srv(c, i).id = x.id /\ Mine(c, st, i)
MayFail(c, st, x) == x.sch /\ (x.id = "" \/ x.no \/ (Lost(c, st, x) /\ ~x.kept))
Failed1 == [state |-> "failed", code |-> 1]
Finished(x) == x.i >= 0 /\ x.got = Len(x.rl) /\ x.errs = 0 /\ x.end # NoRes

RunViol(c, st, r) ==
  LET prev == Has(st, r.e) /\ ~X(st, r.e).res IN
  (IF prev THEN {"C15"} ELSE {})
    \cup (IF r.e \in DOMAIN st.b /\ st.b[r.e].in = -2 /\ st.b[r.e].curs = {r.c2} THEN {} ELSE {"C18"})
SchViol(c, st, r) ==
  (IF KnownOk(c, st.starts, r.l) THEN {} ELSE {"C18"})
    \cup (IF Has(st, r.e) /\ ~X(st, r.e).sch /\ ~X(st, r.e).res THEN {} ELSE {"C14", "C15"})
    \cup (IF r.id = "" \/ r.id \in Ids(c, Started(c, st.starts)) THEN {} ELSE {"C18"})
RRunViol(c, st, r) ==
  (IF Mine(c, st, r.i) THEN {} ELSE {"C18"})
    \cup (IF Has(st, r.e) /\ X(st, r.e).sch /\ X(st, r.e).i = -1 /\ Srv(c, r.i).id = X(st, r.e).id THEN {} ELSE {"C15"})
    \cup (IF Has(st, r.e) /\ X(st, r.e).c = r.c THEN {} ELSE {"C15", "C21"})
LineViol(c, st, r) ==
  IF ~Has(st, r.e) \/ X(st, r.e).res THEN {"C15"}
  ELSE LET x == X(st, r.e) IN
    IF x.errs = 0 /\ x.got < Len(x.rl) /\ x.rl[x.got + 1] = <<r.a, r.c>> THEN {}
    ELSE IF MayFail(c, st, x) /\ r.a = "error" THEN {} ELSE {"C15"}
LineUpd(c, st, r) ==
  IF ~Has(st, r.e) THEN st
  ELSE LET x == X(st, r.e) IN
    IF x.errs = 0 /\ x.got < Len(x.rl) /\ x.rl[x.got + 1] = <<r.a, r.c>> THEN [st EXCEPT !.x[r.e].got = @ + 1]
    ELSE [st EXCEPT !.x[r.e].errs = @ + 1]
ResViol(c, st, r) ==
  IF ~Has(st, r.e) \/ X(st, r.e).res THEN {"C15"}
  ELSE LET x == X(st, r.e) IN
    IF Finished(x) /\ r.res = x.end THEN {}
    ELSE IF MayFail(c, st, x) /\ x.errs > 0 /\ r.res = Failed1 THEN {}
    ELSE IF x.sig # None THEN {"C15", "C16"} ELSE {"C15"}
RSigViol(c, st, r) ==
  IF /\ Has(st, r.e) /\ X(st, r.e).sig = r.a /\ ~X(st, r.e).rsig /\ X(st, r.e).i = r.i
  THEN {} ELSE {"C16"}
(* The runner waited long enough for the signal. *)
UnsViol(c, st, r) == IF Has(st, r.e) /\ X(st, r.e).sig # None /\ ~X(st, r.e).rsig /\ r.i \notin st.cut THEN {"C16"} ELSE {}

QuietViol(c, st) ==
  LET ids == Ids(c, Started(c, st.starts))
      unseen == {id \in ids : id \notin DOMAIN st.of /\ ~\E i \in st.cut : Srv(c, i).id = id}
  IN (IF st.rs # <<>> /\ unseen # {} THEN {"C17", "C18"} ELSE {})
     \cup (IF \E i \in Used(c, st) \ st.cut : \E o \in 1..Srv(c, i).obs : st.pend[<<i, o>>] # <<>> THEN {"C17"} ELSE {})
     \cup (IF st.owed # <<>> THEN {"C17"} \cup (IF \E k \in DOMAIN st.owed : st.owed[k][1] \in {"st.done", "job.done", "wf.done"}
                                               THEN {"C14"} ELSE {}) ELSE {})
     \cup (IF \E e \in DOMAIN st.x : ~X(st, e).res THEN {"C15"} ELSE {})

Viol(c, st, r) ==
  CASE r.k = "known" -> IF KnownOk(c, st.starts + 1, r.l) THEN {} ELSE {"C18"}
    [] r.k = "told" -> IF <<r.kind, r.c>> \in Rng(st.owed) THEN {}
                       ELSE {"C17"} \cup (IF r.kind \in {"st.done", "job.done", "wf.done"} THEN {"C14"} ELSE {})
    [] r.k = "d" -> DelViol(c, st, r)
    [] r.k = "r.bef" -> BefViol(c, st, r)
    [] r.k = "bef.e" -> BefEndViol(c, st, r)
    [] r.k = "run" -> RunViol(c, st, r)
    [] r.k = "sch" -> SchViol(c, st, r)
    [] r.k = "r.run" -> RRunViol(c, st, r)
    [] r.k = "line" -> LineViol(c, st, r)
    [] r.k = "res" -> ResViol(c, st, r)
    [] r.k = "r.sig" -> RSigViol(c, st, r)
    [] r.k = "r.unsignalled" -> UnsViol(c, st, r)
    [] r.k = "ret" -> IF r.ok THEN {} ELSE {"C15"}
    [] r.k = "quiet" -> QuietViol(c, st)
    [] r.k = "broken" -> QuietViol(c, st) \cup {"C15"}  \* it has panicked or goes on without an end
    [] OTHER -> {}

Step(c, st, r) ==
  CASE r.k = "known" -> [st EXCEPT !.starts = @ + 1]
    [] r.k = "h.b" ->
         [st EXCEPT !.rs = Append(@, [kind |-> r.kind, c |-> r.c, at |-> st.at, done |-> 0, n |-> r.n]),
                    !.pend = TLCEval([p \in DOMAIN @ |-> Append(@[p], Len(st.rs) + 1)]),
                    !.owed = IF r.kind \in Told THEN Append(@, <<r.kind, r.c2>>) ELSE @]
    [] r.k = "h.e" -> [st EXCEPT !.rs[r.n].done = st.at]
    [] r.k = "told" -> IF <<r.kind, r.c>> \in Rng(st.owed)
                       THEN [st EXCEPT !.owed = Del(@, Min({k \in DOMAIN @ : @[k] = <<r.kind, r.c>>}))] ELSE st
    [] r.k = "d" ->
         IF r.i \notin Good(c) THEN st
         ELSE LET k == Owed(st, r) s == See(c, st, r.i) IN
              IF k = 0 THEN s ELSE [s EXCEPT !.pend[<<r.i, r.o>>] = Del(@, k)]
    [] r.k = "bef.b" -> [st EXCEPT !.b = (r.e :> B0(r.c)) @@ @]
    [] r.k = "r.bef" -> BefUpd(c, See(c, st, r.i), r)
    [] r.k = "bef.e" -> IF r.e \in DOMAIN st.b THEN [st EXCEPT !.b[r.e].in = -2, !.b[r.e].curs = {r.c}] ELSE st
    [] r.k = "run" -> [st EXCEPT !.x = (r.e :> X0(r)) @@ @]
    [] r.k = "sch" -> IF Has(st, r.e) THEN [st EXCEPT !.x[r.e].sch = TRUE, !.x[r.e].id = r.id] ELSE st
    [] r.k = "r.run" -> LET s == See(c, st, r.i) IN IF Has(st, r.e) THEN [s EXCEPT !.x[r.e].i = r.i] ELSE s
    [] r.k = "r.no" -> IF Has(st, r.e) THEN [st EXCEPT !.x[r.e].no = TRUE] ELSE st
    [] r.k = "r.kept" -> IF Has(st, r.e) /\ r.i \notin st.cut THEN [st EXCEPT !.x[r.e].kept = TRUE] ELSE st
    [] r.k = "r.log" -> IF Has(st, r.e) THEN [st EXCEPT !.x[r.e].rl = Append(@, <<r.a, r.c>>)] ELSE st
    [] r.k = "r.end" -> IF Has(st, r.e) THEN [st EXCEPT !.x[r.e].end = r.res] ELSE st
    [] r.k = "line" -> LineUpd(c, st, r)
    [] r.k = "res" -> IF Has(st, r.e) THEN [st EXCEPT !.x[r.e].res = TRUE] ELSE st
    [] r.k = "sig" -> IF Has(st, r.e) THEN [st EXCEPT !.x[r.e].sig = r.a] ELSE st
    [] r.k = "r.sig" -> IF Has(st, r.e) THEN [st EXCEPT !.x[r.e].rsig = TRUE] ELSE st
    [] r.k = "x.cut" -> [st EXCEPT !.cut = @ \cup {r.i}]
    [] OTHER -> st
Upd(c, st, r) == [Step(c, st, r) EXCEPT !.at = @ + 1]
=============================================================================
