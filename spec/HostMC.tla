------------------------------- MODULE HostMC -------------------------------
(* The runner, its commands and its directories as a transition system,     *)
(* bound to Host.tla: everything it does is a record there, and none may    *)
(* break a property.  The configuration K adds to c:                        *)
(*   K.jobs    the steps of each job, in order                              *)
(*   K.docker  the steps that run in a container                            *)
(*   K.mode    what the hooks do: e, p -> "", "change", "fail", "cancel" or *)
(*             "timeout" (the step is signalled while the hook runs)        *)
(*   K.pre     steps signalled before the runner is given them              *)
(*   K.lines, K.touch, K.sigs   at most so many    K.codes  exit codes      *)
(* BUG names a fault put into the model, which the properties must find.    *)
(* Mode "max": the environment (commands, users) acts when the runner has   *)
(* nothing to do; every transition is printed as the list of environment    *)
(* actions that leads to it.                                                *)
EXTENDS Host, Json, IOUtils, SequencesExt

Configs == ndJsonDeserialize(IOEnv.CONFIGS)
Mode == IOEnv.MODE
BUG == IOEnv.BUG
K == Configs[1]
Jobs == DOMAIN K.jobs
Steps == DOMAIN K.steps
Wfs == {K.steps[e].wf : e \in Steps}
Job(e) == CHOOSE j \in Jobs : e \in Rng(K.jobs[j])
Nr(e) == CHOOSE n \in DOMAIN K.jobs[Job(e)] : K.jobs[Job(e)][n] = e
Dir(e) == K.steps[e].job
Dirs == {Dir(e) : e \in Steps}
Docker(e) == e \in Rng(K.docker)
HookOf(e, p) == IF e \in DOMAIN K.mode THEN K.mode[e][p] ELSE ""
Two == {"o", "e"}

VARIABLES st, bad, s, path
vars == <<st, bad, s, path>>
RECURSIVE Fold(_, _, _)
Fold(t, b, q) == IF q = <<>> THEN <<t, b>> ELSE Fold(Upd(K, t, Head(q)), b \cup Viol(K, t, Head(q)), Tail(q))
Emit(q) == LET f == Fold(st, bad, q) IN st' = f[1] /\ bad' = f[2]

P0 == [p |-> <<>>, open |-> TRUE, read |-> TRUE]  \* a pipe: its lines, is it open, is it still read
Init ==
  LET f == Fold(St0(K), {}, <<>>) IN
  /\ st = f[1] /\ bad = f[2]
  /\ s = [ph |-> [e \in Steps |-> "new"], n |-> [e \in Steps |-> 0], cur |-> [e \in Steps |-> <<e>>],
          sg |-> [e \in Steps |-> None], ch |-> [e \in Steps |-> "no"], code |-> [e \in Steps |-> NoExit],
          pipe |-> [e \in Steps |-> [x \in Two |-> P0]], out |-> [e \in Steps |-> [x \in Two |-> 0]],
          af |-> [e \in Steps |-> 0], t |-> [e \in Steps |-> 0], fs |-> [d \in Dirs |-> {}], ex |-> {},
          wf |-> [w \in Wfs |-> "new"], sigs |-> 0, quiet |-> FALSE]
  /\ path = <<>>

(* ---------------------------------------------------------------- runner *)
Before(e) == IF Nr(e) = 1 THEN TRUE ELSE s.ph[K.jobs[Job(e)][Nr(e) - 1]] = "over"
Give(e) ==
  /\ s.ph[e] = "new" /\ Before(e)
  /\ LET w == K.steps[e].wf pre == e \in DOMAIN K.pre
         begin == IF s.wf[w] = "new" THEN <<[k |-> "wf", w |-> w]>> ELSE <<>>
         sig == IF pre THEN <<[k |-> "sig", e |-> e, a |-> K.pre[e], pre |-> TRUE]>> ELSE <<>> IN
     /\ Emit(begin \o <<[k |-> "run", e |-> e, c |-> <<e>>, x |-> <<e>>, dir |-> Dir(e), caches |-> "caches"]>> \o sig)
     /\ s' = [s EXCEPT !.ph[e] = "hook", !.wf[w] = "run", !.sg[e] = IF pre THEN K.pre[e] ELSE None]
Hook(e) ==
  /\ s.ph[e] = "hook" /\ s.n[e] < K.hooks
  /\ LET p == s.n[e] + 1 m == HookOf(e, p) was == s.cur[e]
         now == IF m = "change" THEN Append(was, p) ELSE was
         sig == IF m \in {"cancel", "timeout"} THEN <<[k |-> "sig", e |-> e, a |-> m, pre |-> FALSE]>> ELSE <<>>
         keep == IF BUG = "hookfirst" THEN <<e>> ELSE IF BUG = "hookundo" /\ m = "fail" THEN <<e>> ELSE now IN
     /\ Emit(sig \o <<[k |-> "bef", e |-> e, p |-> p, ok |-> m # "fail", c |-> was, c2 |-> now, x2 |-> now]>>)
     /\ s' = [s EXCEPT !.n[e] = IF BUG = "hookstop" /\ m = "fail" THEN K.hooks ELSE p, !.cur[e] = keep,
                       !.sg[e] = IF sig # <<>> /\ @ = None THEN m ELSE @]
Res(e) == [k |-> "res", e |-> e, res |-> Signalled(IF BUG = "swap" /\ s.sg[e] = "timeout" THEN "cancel" ELSE s.sg[e])]
Kill(e) == IF Docker(e) THEN <<[k |-> "kill", e |-> e, killed |-> s.code[e] = NoExit /\ BUG # "nokill"]>> ELSE <<>>
Ret(e) == [k |-> "ret", e |-> e, ok |-> TRUE]
Late(e) == s.sg[e] # None /\ BUG # "late"
Start(e) ==
  /\ s.ph[e] = "hook" /\ s.n[e] = K.hooks
  /\ IF Late(e)
     THEN Emit(<<Ret(e), Res(e)>>) /\ s' = [s EXCEPT !.ph[e] = "over"]
     ELSE IF K.steps[e].bad  \* its workspace or its command cannot be had: the step has failed
     THEN Emit(<<Ret(e)>> \o (IF BUG = "mutebad" THEN <<>> ELSE <<[k |-> "res", e |-> e, res |-> IF BUG = "goodbad" THEN Exited(0) ELSE Failed1]>>))
          /\ s' = [s EXCEPT !.ph[e] = "over", !.af[e] = IF BUG = "badhook" THEN K.hooks ELSE @]
     ELSE LET d == IF BUG = "shared" THEN CHOOSE d \in Dirs : TRUE ELSE Dir(e) IN
       /\ Emit(<<Ret(e), [k |-> "start", e |-> e, dir |-> d, x |-> s.cur[e], files |-> SetToSeq(s.fs[d]), docker |-> Docker(e),
                          name |-> K.steps[e].name, rm |-> TRUE, caches |-> "caches"]>>)
       /\ s' = [s EXCEPT !.ph[e] = "run", !.ch[e] = "up", !.ex = @ \cup {d}]
Read(e, x) ==
  /\ s.ph[e] = "run" /\ s.pipe[e][x].read
  /\ LET q == s.pipe[e][x] IN
     IF q.p # <<>>
     THEN /\ Emit(<<[k |-> "line", e |-> e, c |-> Head(q.p), a |-> IF x = "o" \/ BUG = "kind" THEN "log" ELSE "error"]>>)
          /\ s' = [s EXCEPT !.pipe[e][x].p = IF BUG = "skip" /\ Len(@) > 1 THEN Tail(Tail(@)) ELSE Tail(@)]
     ELSE /\ ~q.open
          /\ s' = [s EXCEPT !.pipe[e][x].read = FALSE] /\ UNCHANGED <<st, bad>>
(* both streams are at their end and the command is over *)
AtEnd(e) == IF BUG = "firsteof" THEN \E x \in Two : ~s.pipe[e][x].read ELSE \A x \in Two : ~s.pipe[e][x].read
Gone(e) == IF BUG = "rmdir" THEN [s.fs EXCEPT ![Dir(e)] = {}] ELSE s.fs
Finish(e) ==
  /\ s.ph[e] = "run" /\ s.ch[e] = "gone" /\ AtEnd(e)
  /\ Emit(Kill(e) \o <<[k |-> "res", e |-> e, res |-> IF s.code[e] = -1 /\ BUG = "killed0" THEN Exited(0)
                                                      ELSE IF s.code[e] > 1 /\ BUG = "one" THEN Exited(1) ELSE Exited(s.code[e])]>>)
  /\ s' = [s EXCEPT !.ph[e] = "over", !.fs = Gone(e)]
Seen(e) ==
  /\ s.ph[e] = "run" /\ s.sg[e] # None /\ BUG # "deaf"
  /\ Emit(Kill(e) \o <<Res(e)>>)
  /\ s' = [s EXCEPT !.ph[e] = "over", !.ch[e] = IF Docker(e) /\ BUG # "nokill" THEN "gone" ELSE @, !.fs = Gone(e),
                    !.pipe[e] = [x \in Two |-> [@[x] EXCEPT !.read = FALSE]]]
After(e) ==
  /\ s.ph[e] = "over" /\ s.af[e] < (IF BUG = "twice" THEN 2 * K.hooks ELSE K.hooks)
  /\ BUG = "noafter" => s.sg[e] = None
  /\ Emit(<<[k |-> "after", e |-> e, p |-> IF s.af[e] >= K.hooks THEN s.af[e] + 1 - K.hooks ELSE s.af[e] + 1, c |-> s.cur[e], ended |-> TRUE]>>)
  /\ s' = [s EXCEPT !.af[e] = @ + 1]
Of(w) == {Dir(e) : e \in {e \in Steps : K.steps[e].wf = w}}
WfDone(w) ==
  /\ s.wf[w] = "run" /\ \A e \in Steps : K.steps[e].wf = w => s.ph[e] = "over"
  /\ LET gone == IF BUG = "rmall" THEN Dirs ELSE IF BUG = "keepdir" THEN {} ELSE Of(w)
         ex == s.ex \ gone IN
     /\ Emit(<<[k |-> "wfdone", w |-> w],
               [k |-> "gone", w |-> w, left |-> SetToSeq({v \in Wfs : Of(v) \cap ex # {}}), kept |-> K.keep]>>)
     /\ s' = [s EXCEPT !.wf[w] = "done", !.fs = [d \in Dirs |-> IF d \in gone THEN {} ELSE @[d]], !.ex = ex]

System(e) == Give(e) \/ Hook(e) \/ Start(e) \/ (\E x \in Two : Read(e, x)) \/ Finish(e) \/ Seen(e) \/ After(e)
First == CHOOSE e \in Steps : ENABLED System(e)
Sys == (\E e \in Steps : System(e)) \/ \E w \in Wfs : WfDone(w)

(* ----------------------------------------------------------- environment *)
Up(e) == s.ch[e] = "up"
Out(e, x) ==
  /\ Up(e) /\ s.pipe[e][x].open /\ s.out[e][x] < K.lines
  /\ Emit(<<[k |-> "out", e |-> e, s |-> x, c |-> x \o ToString(s.out[e][x]), fin |-> TRUE]>>)
  /\ s' = [s EXCEPT !.out[e][x] = @ + 1, !.pipe[e][x].p = IF s.pipe[e][x].read THEN Append(@, x \o ToString(s.out[e][x])) ELSE @]
  /\ path' = Append(path, <<"out", e, x>>)
Close(e, x) ==
  /\ Up(e) /\ s.pipe[e][x].open /\ K.close
  /\ Emit(<<[k |-> "close", e |-> e, s |-> x]>>)
  /\ s' = [s EXCEPT !.pipe[e][x].open = FALSE]
  /\ path' = Append(path, <<"close", e, x>>)
Touch(e) ==
  /\ Up(e) /\ s.t[e] < K.touch
  /\ LET f == e IN
     /\ Emit(<<[k |-> "touch", e |-> e, c |-> f], [k |-> "touched", e |-> e, c |-> f]>>)
     /\ s' = [s EXCEPT !.t[e] = @ + 1, !.fs[Dir(e)] = IF Dir(e) \in s.ex THEN @ \cup {f} ELSE @]
  /\ path' = Append(path, <<"touch", e>>)
Exit(e) == \E code \in Rng(K.codes) :
  /\ Up(e)
  /\ Emit(<<[k |-> "exit", e |-> e, code |-> IF code = -1 /\ Docker(e) THEN 134 ELSE code]>>)
  /\ s' = [s EXCEPT !.ch[e] = "gone", !.code[e] = IF code = -1 /\ Docker(e) THEN 134 ELSE code,
                    !.pipe[e] = [x \in Two |-> [@[x] EXCEPT !.open = FALSE]]]
  /\ path' = Append(path, <<"exit", e, ToString(code)>>)
Sig(e) == \E a \in {"cancel", "timeout"} :
  /\ s.sigs < K.sigs /\ s.sg[e] = None
  /\ s.ph[e] = "run" \/ (Mode # "max" /\ s.ph[e] = "hook")
  /\ Emit(<<[k |-> "sig", e |-> e, a |-> a, pre |-> FALSE]>>)
  /\ s' = [s EXCEPT !.sg[e] = a, !.sigs = @ + 1]
  /\ path' = Append(path, <<a, e>>)
Env == \E e \in Steps : Touch(e) \/ Exit(e) \/ Sig(e) \/ \E x \in Two : Out(e, x) \/ Close(e, x)

Done == /\ \A e \in Steps : s.ph[e] = "over" /\ ~Up(e)
        /\ \A w \in Wfs : s.wf[w] = "done"
        /\ ~ENABLED Sys
Quiet == Done /\ ~s.quiet /\ Emit(<<[k |-> "quiet"]>>) /\ s' = [s EXCEPT !.quiet = TRUE] /\ UNCHANGED path
Finished1 == Done /\ s.quiet /\ UNCHANGED vars
Printing == IOEnv.PRINT = "1"
Next ==
  \/ Quiet \/ Finished1
  \/ IF Mode = "max" THEN IF \E e \in Steps : ENABLED System(e) THEN System(First) /\ UNCHANGED path
                          ELSE IF ENABLED Sys THEN Sys /\ UNCHANGED path
                          ELSE Env /\ (~Printing \/ PrintT(<<"PATH", 1, ToJson(path')>>))
     ELSE (Sys /\ UNCHANGED path) \/ (Env /\ TRUE)

Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ WF_vars((Sys /\ UNCHANGED path) \/ \E e \in Steps : Exit(e))
View == <<st, bad, s>>

NoViolation == bad = {}
(* said independently of the contract *)
Truthful == \A e \in Steps : s.ph[e] = "over" /\ s.sg[e] = None /\ ~K.steps[e].bad =>
  /\ s.code[e] # NoExit /\ (st.x[e].res.state = "succeeded") = (s.code[e] = 0)
  /\ \A x \in Two : s.pipe[e][x].p = <<>>
Clean == \A w \in Wfs : s.wf[w] = "done" => Of(w) \cap s.ex = {}
AlwaysOver == <>(\A e \in Steps : s.ph[e] = "over" /\ s.af[e] = K.hooks)
=============================================================================
