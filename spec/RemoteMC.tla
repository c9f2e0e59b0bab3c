------------------------------ MODULE RemoteMC ------------------------------
(* A client, its runners and the connections between them as a transition   *)
(* system, bound to Remote.tla: everything it does is a record there, and   *)
(* none may break a property.  The configuration K adds to c:               *)
(*   K.steps  steps, all started at once      K.logs  lines of each         *)
(*   K.ends   how they may end                K.cuts, K.sigs  at most       *)
(*   K.events are the notifications to the runners modelled?                *)
(*   K.befFail  observers <<i, o>> whose hook before the step fails         *)
(* BUG names a fault put into the model, which the properties must find.    *)
(* Mode "max": the environment (scheduler, runners, network, users) acts    *)
(* when the system has nothing to do; every transition is printed as the    *)
(* list of environment actions that leads to it.                            *)
EXTENDS Remote, Json, IOUtils

Configs == ndJsonDeserialize(IOEnv.CONFIGS)
Mode == IOEnv.MODE
BUG == IOEnv.BUG
K == Configs[1]
Steps == Rng(K.steps)
Conn == Good(K)  \* in the model, identities are distinct

VARIABLES st, bad, s, path
vars == <<st, bad, s, path>>

(* one record, then the next *)
RECURSIVE Fold(_, _, _)
Fold(t, b, q) == IF q = <<>> THEN <<t, b>> ELSE Fold(Upd(K, t, Head(q)), b \cup Viol(K, t, Head(q)), Tail(q))
Emit(q) == LET f == Fold(st, bad, q) IN st' = f[1] /\ bad' = f[2]

Ann(e, kind, x, n) == <<[k |-> "h.b", n |-> n, kind |-> kind, c |-> <<kind, e, x>>, c2 |-> <<kind, e, x>>]>>
  \o (IF kind \in Told THEN <<[k |-> "told", kind |-> kind, c |-> <<kind, e, x>>]>> ELSE <<>>)
  \o <<[k |-> "h.e", n |-> n]>>
Next1 == Len(st.rs) + 1

Init ==
  LET f == Fold(St0(K), {}, <<[k |-> "known", l |-> [k \in 1..Len(K.servers) |-> K.servers[k].meta]]>>) IN
  /\ st = f[1] /\ bad = f[2]
  /\ s = [ph |-> [e \in Steps |-> "new"], left |-> [e \in Steps |-> {}], cur |-> [e \in Steps |-> <<>>],
          up |-> [e \in Steps |-> <<>>], q |-> [i \in Conn |-> <<>>], qo |-> [i \in Conn |-> 1],
          dead |-> {}, sg |-> [e \in Steps |-> "no"], rr |-> [e \in Steps |-> "no"], inst |-> [e \in Steps |-> -1],
          logs |-> [e \in Steps |-> 0], cuts |-> 0, sigs |-> 0, quiet |-> FALSE]
  /\ path = <<>>

(* every notification joins the queue of every connected runner *)
Bound == 2
Queue(qs, ns) == IF ~K.events THEN qs
  ELSE [i \in DOMAIN qs |-> IF BUG = "bounded" /\ Len(qs[i]) >= Bound THEN qs[i] ELSE qs[i] \o ns]

(* ---------------------------------------------------------------- system *)
BefStart(e) ==
  /\ s.ph[e] = "new"
  /\ Emit(<<[k |-> "bef.b", e |-> e, c |-> <<e>>]>>)
  /\ s' = [s EXCEPT !.ph[e] = "bef", !.left[e] = Conn, !.cur[e] = <<e>>]
(* one runner's hooks, its observers in order; the last one's failure is the runner's *)
RECURSIVE Chain(_, _, _, _)
Chain(e, i, o, cur) ==
  IF o > Srv(K, i).obs THEN <<>>
  ELSE LET ok == <<i, o>> \notin Rng(K.befFail) c2 == IF ok THEN Append(cur, <<i, o>>) ELSE cur IN
    <<[k |-> "r.bef", e |-> e, i |-> i, o |-> o, ok |-> ok, c |-> cur, c2 |-> c2]>> \o Chain(e, i, o + 1, c2)
BefAt(e) == \E i \in IF Mode = "max" /\ s.left[e] # {} THEN {Min(s.left[e])} ELSE s.left[e] :
  /\ s.ph[e] = "bef"
  /\ IF i \in s.dead
     THEN /\ Emit(<<[k |-> "bef.e", e |-> e, c |-> <<e>>, ok |-> FALSE]>>)
          /\ s' = [s EXCEPT !.ph[e] = "go", !.cur[e] = <<e>>]
     ELSE LET ch == Chain(e, i, 1, s.cur[e]) l == ch[Len(ch)] IN
          IF l.ok THEN Emit(ch) /\ s' = [s EXCEPT !.left[e] = @ \ {i}, !.cur[e] = IF BUG = "chain" THEN <<e>> ELSE l.c2]
          ELSE /\ Emit(Append(ch, [k |-> "bef.e", e |-> e, c |-> <<e>>, ok |-> FALSE]))
               /\ s' = [s EXCEPT !.ph[e] = "go", !.cur[e] = <<e>>]
BefEnd(e) ==
  /\ s.ph[e] = "bef" /\ s.left[e] = {}
  /\ Emit(<<[k |-> "bef.e", e |-> e, c |-> s.cur[e], ok |-> TRUE]>>)
  /\ s' = [s EXCEPT !.ph[e] = "go"]
Go(e) ==
  /\ s.ph[e] = "go"
  /\ Emit(Ann(e, "st.run", 0, Next1) \o <<[k |-> "run", e |-> e, c |-> <<"ctx", e>>, c2 |-> s.cur[e]]>>)
  /\ s' = [s EXCEPT !.ph[e] = "sch", !.q = Queue(@, <<Next1>>)]
Dispatch(e) ==
  /\ s.ph[e] = "sent" /\ s.inst[e] \notin s.dead
  /\ LET i == IF BUG = "wrong" THEN Min(Conn) ELSE s.inst[e] IN
     Emit(<<[k |-> "r.run", e |-> e, i |-> i, c |-> <<"ctx", e>>]>>)
  /\ s' = [s EXCEPT !.ph[e] = "at", !.rr[e] = "running"]
(* the step fails: an error line, then the result *)
Over(e, lines, r) ==
  LET n == Next1 IN
  /\ Emit(lines \o (IF lines = <<>> THEN <<>> ELSE Ann(e, "log", n, n))
       \o <<[k |-> "res", e |-> e, res |-> r]>> \o Ann(e, "st.done", 0, IF lines = <<>> THEN n ELSE n + 1))
  /\ s' = [s EXCEPT !.ph[e] = "over", !.up[e] = <<>>,
                    !.q = Queue(@, IF lines = <<>> THEN <<n>> ELSE <<n, n + 1>>)]
Err(e) == <<[k |-> "line", e |-> e, a |-> "error", c |-> "failed"]>>
Fail(e) ==
  \/ s.ph[e] = "sent" /\ s.inst[e] \in s.dead /\ Over(e, Err(e), Failed1)
  \/ s.ph[e] = "at" /\ s.up[e] # <<>> /\ Head(s.up[e]).k = "broken"
       /\ IF BUG = "lostok" THEN Over(e, <<>>, [state |-> "succeeded", code |-> -999])
          ELSE IF BUG = "silent" THEN Over(e, <<>>, Failed1) ELSE Over(e, Err(e), Failed1)
Deliver(e) ==
  /\ s.ph[e] = "at" /\ s.up[e] # <<>>
  /\ LET h == Head(s.up[e]) IN
     \/ h.k = "log" /\ Emit(<<[k |-> "line", e |-> e, a |-> h.a, c |-> h.c]>> \o Ann(e, "log", Next1, Next1))
                    /\ s' = [s EXCEPT !.up[e] = Tail(@), !.q = Queue(@, <<Next1>>)]
     \/ h.k = "end" /\ Over(e, <<>>, h.res)
Signal(e) ==
  /\ s.sg[e] = "sent" /\ s.ph[e] \in {"at", "over"}
  /\ IF s.ph[e] = "at" /\ s.inst[e] \notin s.dead /\ s.rr[e] = "running" /\ BUG # "deaf"
     THEN Emit(<<[k |-> "r.sig", e |-> e, i |-> s.inst[e], a |-> "cancel"]>>) ELSE UNCHANGED <<st, bad>>
  /\ s' = [s EXCEPT !.sg[e] = "done"]
Event(i) ==
  /\ i \notin s.dead /\ s.q[i] # <<>>
  /\ LET n == Head(s.q[i]) o == s.qo[i] IN
     /\ Emit(<<[k |-> "d", i |-> i, o |-> o, kind |-> st.rs[n].kind, c |-> st.rs[n].c]>>)
     /\ s' = IF o < Srv(K, i).obs /\ BUG # "plugonly" THEN [s EXCEPT !.qo[i] = o + 1]
             ELSE [s EXCEPT !.qo[i] = 1, !.q[i] = IF BUG = "reorder" /\ Len(@) > 2 THEN <<@[3], @[2]>> \o SubSeq(@, 4, Len(@)) ELSE Tail(@)]

System(e) == BefStart(e) \/ BefAt(e) \/ BefEnd(e) \/ Go(e) \/ Dispatch(e) \/ Fail(e) \/ Deliver(e) \/ Signal(e)
First == K.steps[Min({x \in DOMAIN K.steps : ENABLED System(K.steps[x])})]
Sys == (\E e \in Steps : System(e)) \/ \E i \in Conn : Event(i)

(* ----------------------------------------------------------- environment *)
Pick(e) == s.ph[e] = "sch" /\ \E i \in Conn \cup {-1} :
  /\ LET id == IF i = -1 THEN "" ELSE Srv(K, i).id
         sch == <<[k |-> "sch", e |-> e, l |-> [k \in 1..Len(K.servers) |-> K.servers[k].meta], id |-> id]>>
     IN IF i >= 0 THEN Emit(sch) /\ s' = [s EXCEPT !.ph[e] = "sent", !.inst[e] = i]
        ELSE Over(e, sch \o Err(e), Failed1)
  /\ path' = Append(path, <<"pick", e, IF i = -1 THEN "" ELSE Srv(K, i).id>>)
Going(e) == s.rr[e] = "running"
Log(e) == \E a \in {"log", "error"} :
  /\ Going(e) /\ s.logs[e] < K.logs
  /\ Emit(<<[k |-> "r.log", e |-> e, i |-> s.inst[e], a |-> a, c |-> ToString(s.logs[e])]>>)
  /\ s' = [s EXCEPT !.logs[e] = @ + 1, !.up[e] = IF s.inst[e] \in s.dead THEN @ ELSE Append(@, [k |-> "log", a |-> a, c |-> ToString(s.logs[e])])]
  /\ path' = Append(path, <<IF a = "log" THEN "log" ELSE "err", e>>)
End(e) == \E r \in Rng(K.ends) :
  /\ Going(e)
  /\ Emit((IF s.sg[e] = "done" THEN <<[k |-> "r.unsignalled", e |-> e, i |-> s.inst[e]]>> ELSE <<>>)
            \o <<[k |-> "r.end", e |-> e, i |-> s.inst[e], res |-> r]>>)
  /\ s' = [s EXCEPT !.rr[e] = "ended", !.up[e] = IF s.inst[e] \in s.dead THEN @ ELSE Append(@, [k |-> "end", res |-> r])]
  /\ path' = Append(path, <<"end", e, r.state>>)
Refuse(e) ==
  /\ Going(e) /\ s.logs[e] = 0
  /\ Emit(<<[k |-> "r.no", e |-> e, i |-> s.inst[e]]>>)
  /\ s' = [s EXCEPT !.rr[e] = "ended", !.up[e] = IF s.inst[e] \in s.dead THEN @ ELSE Append(@, [k |-> "broken"])]
  /\ path' = Append(path, <<"refuse", e>>)
Sig(e) ==
  /\ s.sigs < K.sigs /\ s.sg[e] = "no" /\ s.ph[e] \in {"sch", "sent", "at"}
  /\ Emit(<<[k |-> "sig", e |-> e, a |-> "cancel"]>>)
  /\ s' = [s EXCEPT !.sg[e] = "sent", !.sigs = @ + 1]
  /\ path' = Append(path, <<"cancel", e>>)
Prefixes(q) == {SubSeq(q, 1, n) : n \in 0..Len(q)}
Ended(q) == q # <<>> /\ q[Len(q)].k = "end"
Cut(i) ==
  /\ s.cuts < K.cuts /\ i \notin s.dead
  /\ Emit(<<[k |-> "x.cut", i |-> i]>>)
  /\ \E f \in [{e \in Steps : s.ph[e] = "at" /\ s.inst[e] = i} -> 0..(K.logs + 1)] :
       /\ \A e \in DOMAIN f : f[e] <= Len(s.up[e])
       /\ s' = [s EXCEPT !.cuts = @ + 1, !.dead = @ \cup {i}, !.q[i] = <<>>,
                  !.up = [e \in Steps |-> IF e \notin DOMAIN f THEN @[e]
                     ELSE LET p == SubSeq(@[e], 1, f[e]) IN IF Ended(p) THEN p ELSE Append(p, [k |-> "broken"])]]
  /\ path' = Append(path, <<"cut", i>>)
Env == (\E e \in Steps : Pick(e) \/ Log(e) \/ End(e) \/ Refuse(e) \/ Sig(e)) \/ (\E i \in Conn : Cut(i))

Done == /\ \A e \in Steps : s.ph[e] = "over" /\ s.rr[e] # "running" /\ s.sg[e] # "sent"
        /\ \A i \in Conn \ s.dead : s.q[i] = <<>>
Quiet == Done /\ ~s.quiet /\ K.events /\ Emit(<<[k |-> "quiet"]>>) /\ s' = [s EXCEPT !.quiet = TRUE] /\ UNCHANGED path
Finished1 == Done /\ (s.quiet \/ ~K.events) /\ UNCHANGED vars
Printing == IOEnv.PRINT = "1"
Next ==
  \/ Quiet \/ Finished1
  \/ IF Mode = "max" THEN IF \E x \in DOMAIN K.steps : ENABLED System(K.steps[x]) THEN System(First) /\ UNCHANGED path
                          ELSE IF ENABLED Sys THEN Sys /\ UNCHANGED path
                          ELSE Env /\ (~Printing \/ PrintT(<<"PATH", 1, ToJson(path')>>))
     ELSE (Sys /\ UNCHANGED path) \/ (Env /\ TRUE)

Spec == Init /\ [][Next]_vars
Progress == (Sys /\ UNCHANGED path) \/ \E e \in Steps : Pick(e) \/ End(e)
LiveSpec == Spec /\ WF_vars(Progress)
View == <<st, bad, s>>

NoViolation == bad = {}
(* said independently of the contract *)
Truthful == \A e \in Steps : s.ph[e] = "over" =>
  st.x[e].errs > 0 \/ (s.rr[e] = "ended" /\ st.x[e].end # NoRes /\ st.x[e].got = Len(st.x[e].rl))
OneRunner == \A e \in Steps : s.rr[e] # "no" => st.x[e].i = s.inst[e] /\ st.x[e].id = Srv(K, s.inst[e]).id
AlwaysOver == <>(\A e \in Steps : s.ph[e] = "over")
=============================================================================
