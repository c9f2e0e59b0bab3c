-------------------------------- MODULE Host --------------------------------
(* The runner (C19, C20, C23): commands of steps, on the host or in a       *)
(* container, their output and exit codes, the runner's own hooks and the   *)
(* directories it works in.                                                 *)
(*                                                                          *)
(* A configuration c: c.hooks, the number of the runner's plugins; c.keep,  *)
(* the number of files that have to survive; c.steps[e], for every step:    *)
(* wf, job, name (of its container, "" if any unused one will do), bad (it  *)
(* cannot be started).                                                      *)
(* Contents are numbers: equal exactly if the contents are.                 *)
(*                                                                          *)
(*  wf w                    a run of that workflow begins                   *)
(*  run e,c,x,dir,caches    the runner is given the step, to be run in its  *)
(*  ret e,ok                job's directory; it has answered                *)
(*  bef e,p,c,c2,x2,ok      its p-th plugin before the step                 *)
(*  sig e,a                 the step is signalled                           *)
(*  start e,dir,files,x,docker,name,rm,caches       its command runs        *)
(*  out e,s,c,fin           it prints c on s ("o", "e"), fin: a whole line  *)
(*  close e,s  touch e,c  touched e,c  exit e,code (-1: killed)             *)
(*  line e,a,c  res e,res   what the runner reports                         *)
(*  after e,p,c,ended       its p-th plugin after the step                  *)
(*  kill e,killed           was its container killed before it was over?    *)
(*  wfdone w  gone w,left,kept     the workflow has completed               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(q) == {q[k] : k \in DOMAIN q}
None == "none"
NoRes == [state |-> None, code |-> 0]
NoExit == -999
S0 == [q |-> <<>>, buf |-> "", part |-> FALSE]

St0(c) == [x |-> [e \in {} |-> 0], run |-> {}, made |-> {},
           must |-> [d \in {c.steps[e].job : e \in DOMAIN c.steps} |-> {}],
           may |-> [d \in {c.steps[e].job : e \in DOMAIN c.steps} |-> {}]]

X0(r) == [c |-> r.c, x |-> r.x, dir |-> r.dir, caches |-> r.caches, h |-> 0, sig |-> None, pre |-> FALSE, started |-> FALSE, name |-> "", out |-> [s \in {"o", "e"} |-> S0],
          exit |-> NoExit, res |-> NoRes, after |-> 0]
Has(st, e) == e \in DOMAIN st.x

(* what is left of a line when the stream is closed is a line, too *)
Flush(b) == IF b.part THEN [q |-> Append(b.q, b.buf), buf |-> "", part |-> FALSE] ELSE b
Printed(b, r) == IF r.fin THEN [q |-> Append(b.q, b.buf \o r.c), buf |-> "", part |-> FALSE]
               ELSE [b EXCEPT !.buf = @ \o r.c, !.part = @ \/ r.c # ""]

Signalled(a) == IF a = "cancel" THEN [state |-> "cancelled", code |-> -999] ELSE [state |-> "failed", code |-> 123]
Exited(code) == IF code = 0 THEN [state |-> "succeeded", code |-> -999]
                ELSE [state |-> "failed", code |-> IF code = -1 THEN 1 ELSE code]
Failed1 == [state |-> "failed", code |-> 1]

Stream(a) == IF a = "log" THEN "o" ELSE "e"
LineViol(c, st, r) ==
  IF ~Has(st, r.e) \/ st.x[r.e].res # NoRes THEN {"C19"}
  ELSE LET b == st.x[r.e].out[Stream(r.a)] IN IF b.q # <<>> /\ Head(b.q) = r.c THEN {} ELSE {"C19"}
ResViol(c, st, r) ==
  IF ~Has(st, r.e) \/ st.x[r.e].res # NoRes THEN {"C19"}
  ELSE LET x == st.x[r.e]
           all == x.out["o"].q = <<>> /\ x.out["e"].q = <<>>
           bySignal == x.sig # None /\ r.res = Signalled(x.sig)
           byExit == ~x.pre /\ x.exit # NoExit /\ r.res = Exited(x.exit) /\ all
           bad == c.steps[r.e].bad /\ ~x.pre /\ r.res = Failed1
       IN IF bySignal \/ byExit \/ bad THEN {}
          ELSE (IF x.sig = None THEN {"C19"} ELSE {"C20"}) \cup (IF x.started \/ c.steps[r.e].bad THEN {} ELSE {"C23"})
\* a container is called after its step; where the step's name cannot be one, by a name no other container has
Named(c, st, r) ==
  IF c.steps[r.e].name # "" THEN r.name = c.steps[r.e].name
  ELSE r.name # "" /\ \A e \in DOMAIN st.x \ {r.e} : st.x[e].name = r.name => st.x[e].exit # NoExit
StartViol(c, st, r) ==
  IF ~Has(st, r.e) THEN {"C19", "C20"}
  \* a command that reports only after its step has been ended by a signal may find its directory gone
  ELSE IF st.x[r.e].res # NoRes /\ st.x[r.e].sig # None /\ ~st.x[r.e].started THEN {}
  ELSE LET x == st.x[r.e] k == c.steps[r.e] IN
    (IF x.started \/ x.res # NoRes THEN {"C19"} ELSE {})
    \cup (IF x.h = c.hooks THEN {} ELSE {"C20"})
    \cup (IF r.dir = x.dir THEN {} ELSE {"C20"} \cup (IF r.docker THEN {"C23"} ELSE {}))
    \cup (IF k.wf \notin st.run \/ (st.must[k.job] \subseteq Rng(r.files) /\ Rng(r.files) \subseteq st.must[k.job] \cup st.may[k.job])
          THEN {} ELSE {"C20"})
    \cup (IF r.x = x.x THEN {} ELSE {IF r.docker THEN "C23" ELSE "C19"} \cup (IF c.hooks > 0 THEN {"C20"} ELSE {}))
    \cup (IF r.docker /\ ~(Named(c, st, r) /\ r.rm /\ r.caches = x.caches) THEN {"C23"} ELSE {})

(* A command on the host is not ended by the signal to its step: while it is *)
(* still there it may put files into the directory that is being removed.    *)
Zombie(c, st, w) == \E e \in DOMAIN st.x : c.steps[e].wf = w /\ st.x[e].started /\ st.x[e].sig # None /\ st.x[e].exit = NoExit

Viol(c, st, r) ==
  CASE r.k = "bef" -> IF Has(st, r.e) /\ r.p = st.x[r.e].h + 1 /\ r.c = st.x[r.e].c /\ ~st.x[r.e].started THEN {} ELSE {"C20"}
    [] r.k = "ret" -> IF r.ok THEN {} ELSE {"C19"}
    [] r.k = "start" -> StartViol(c, st, r)
    [] r.k = "line" -> LineViol(c, st, r)
    [] r.k = "res" -> ResViol(c, st, r)
    [] r.k = "after" -> IF /\ Has(st, r.e) /\ r.p = st.x[r.e].after + 1 /\ r.p <= c.hooks
                           /\ r.ended /\ r.c = st.x[r.e].c THEN {} ELSE {"C20"}
    [] r.k = "gone" -> IF /\ r.w \notin Rng(r.left) \/ Zombie(c, st, r.w)
                          /\ r.kept = c.keep
                          /\ \A w \in (st.run \cap st.made) \ {r.w} : w \in Rng(r.left) THEN {} ELSE {"C20"}
    [] r.k = "stuck" -> {"C19"} \cup (IF Has(st, r.e) /\ st.x[r.e].sig # None THEN {"C20"} ELSE {})
    [] r.k = "kill" -> IF /\ Has(st, r.e) /\ st.x[r.e].started /\ st.x[r.e].sig # None /\ st.x[r.e].exit = NoExit
                          /\ ~r.killed THEN {"C23"} ELSE {}
    [] r.k = "broken" -> {"C19"} \cup (IF \E e \in DOMAIN st.x : st.x[e].sig # None THEN {"C20"} ELSE {})
    [] r.k = "quiet" -> (IF \A e \in DOMAIN st.x : st.x[e].res # NoRes THEN {} ELSE {"C19"})
                        \cup (IF \A e \in DOMAIN st.x : st.x[e].after = c.hooks THEN {} ELSE {"C20"})
    [] OTHER -> {}

Upd(c, st, r) ==
  CASE r.k = "wf" -> [st EXCEPT !.run = @ \cup {r.w}, !.made = @ \ {r.w}]
    [] r.k = "run" -> [st EXCEPT !.x = (r.e :> X0(r)) @@ @]
    [] ~("e" \in DOMAIN r) /\ r.k \in {"wfdone"} ->
         [st EXCEPT !.run = @ \ {r.w},
                    !.must = TLCEval([d \in DOMAIN @ |-> IF \E e \in DOMAIN c.steps : c.steps[e].job = d /\ c.steps[e].wf = r.w THEN {} ELSE @[d]]),
                    !.may = TLCEval([d \in DOMAIN @ |-> IF \E e \in DOMAIN c.steps : c.steps[e].job = d /\ c.steps[e].wf = r.w THEN {} ELSE @[d]])]
    [] ~("e" \in DOMAIN r) -> st
    [] ~Has(st, r.e) -> st
    [] r.k = "bef" -> [st EXCEPT !.x[r.e].h = @ + 1, !.x[r.e].c = r.c2, !.x[r.e].x = r.x2, !.x[r.e].pre = st.x[r.e].sig # None]
    [] r.k = "sig" -> IF st.x[r.e].sig = None THEN [st EXCEPT !.x[r.e].sig = r.a, !.x[r.e].pre = r.pre] ELSE st
    [] r.k = "start" -> [st EXCEPT !.x[r.e].started = TRUE, !.x[r.e].name = IF r.docker THEN r.name ELSE "", !.made = @ \cup {c.steps[r.e].wf}]
    [] r.k = "out" -> [st EXCEPT !.x[r.e].out[r.s] = Printed(@, r)]
    [] r.k = "close" -> [st EXCEPT !.x[r.e].out[r.s] = Flush(@)]
    [] r.k = "touch" -> [st EXCEPT !.may[c.steps[r.e].job] = @ \cup {r.c}]
    [] r.k = "touched" -> IF st.x[r.e].sig = None /\ st.x[r.e].res = NoRes THEN [st EXCEPT !.must[c.steps[r.e].job] = @ \cup {r.c}] ELSE st
    [] r.k = "exit" -> [st EXCEPT !.x[r.e].exit = r.code, !.x[r.e].out = TLCEval([s \in DOMAIN @ |-> Flush(@[s])])]
    [] r.k = "line" -> LET s == Stream(r.a) IN
         IF st.x[r.e].out[s].q # <<>> THEN [st EXCEPT !.x[r.e].out[s].q = Tail(@)] ELSE st
    [] r.k = "res" -> [st EXCEPT !.x[r.e].res = r.res]
    [] r.k = "after" -> [st EXCEPT !.x[r.e].after = @ + 1]
    [] OTHER -> st
=============================================================================
