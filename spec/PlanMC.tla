------------------------------- MODULE PlanMC -------------------------------
(* Small files, all of them: every dependency graph of up to three jobs     *)
(* (unknown ones included) and every job of up to STEPS steps using         *)
(* registered, supplied, failing, nested and unknown actions.  What must    *)
(* hold of Plan.tla is checked; each file is printed and built for real.    *)
EXTENDS Plan, Json, IOUtils

Max == atoi(IOEnv.STEPS)
Cmd(n) == [k |-> "cmd", name |-> <<>>, on |-> <<>>, container |-> <<>>, run |-> n, coe |-> <<>>, env |-> <<>>,
           secrets |-> <<>>, timeout |-> <<>>]
Act(u) == [k |-> "act", uses |-> u, raw |-> "", name |-> <<>>, on |-> <<>>, coe |-> <<>>, env |-> <<>>,
           secrets |-> <<>>, timeout |-> <<>>, with |-> <<>>]
Gives(pre, run, post) == [k |-> "steps", echo |-> FALSE, pre |-> pre, run |-> <<run>>, post |-> post]
Job(deps, steps) == [name |-> <<>>, on |-> <<>>, container |-> <<>>, wd |-> <<>>, deps |-> deps, steps |-> steps]
File(jobs, plugins) ==
  [id |-> "wf", name |-> <<>>, on |-> <<>>, jobs |-> jobs, plugins |-> plugins,
   actions |-> [A |-> Gives(<<Cmd("A pre")>>, Cmd("A"), <<Cmd("A post")>>), B |-> Gives(<<>>, Cmd("B"), <<Cmd("B post")>>),
                E |-> [k |-> "error", says |-> "E went wrong"], N |-> Gives(<<>>, Act("A"), <<>>)]]

Plug1 == [P |-> Gives(<<Cmd("P1 pre")>>, Cmd("P1"), <<>>), A |-> Gives(<<>>, Cmd("A of plugin"), <<>>)]
Plug2 == [P |-> Gives(<<>>, Cmd("P2"), <<Cmd("P2 post")>>), Q |-> [k |-> "fail"]]
Plug3 == [P |-> [k |-> "fail"], Q |-> Gives(<<Cmd("Q pre")>>, Cmd("Q"), <<Cmd("Q post")>>)]
Plugins == {<<>>, <<Plug1, Plug2>>, <<Plug3, Plug2, Plug1>>, <<Plug2, Plug3>>}

Some(S) == {<<>>} \cup {<<x>> : x \in S}
Keys == {"a", "b", "c"}
DepLists == Some({<<>>, <<"a">>, <<"b">>, <<"c">>, <<"x">>, <<"a", "b">>, <<"b", "c">>, <<"c", "a">>, <<"a", "b", "c">>})
Graphs ==
  UNION {{File([k \in ks |-> Job(d[k], <<Cmd(k)>>)], <<>>) : d \in [ks -> DepLists]} : ks \in SUBSET Keys \ {{}}}
Steps == {Cmd("s"), Act("A"), Act("B"), Act("P"), Act("Q"), Act("E"), Act("N"), Act("U")}
Jobs == {File([a |-> Job(<<>>, ss)], ps) : ss \in UNION {[1 .. n -> Steps] : n \in 0 .. Max}, ps \in Plugins}

VARIABLE f
Init == \/ IOEnv.WHAT = "graphs" /\ f \in Graphs
        \/ IOEnv.WHAT = "jobs" /\ f \in Jobs
Next == UNCHANGED f
Spec == Init /\ [][Next]_f

Emit == IF IOEnv.PRINT = "1" THEN PrintT(<<"PATH", ToJson(f)>>) ELSE TRUE

(* ---- what must hold of the specification ---- *)
OK == Faults(f) = {}
RECURSIVE Reach(_, _)
Reach(S, n) == IF n = 0 THEN S ELSE Reach(S \cup UNION {Deps(f, k) : k \in S \cap DOMAIN f.jobs}, n - 1)
Acyclic == OK => \A k \in DOMAIN f.jobs : k \notin Reach(Deps(f, k), 3)
Closed == OK => \A k \in DOMAIN f.jobs : Deps(f, k) \subseteq DOMAIN f.jobs
Whole == (* rejected only for a reason *)
  (\A k \in DOMAIN f.jobs : f.jobs[k].steps # <<>> /\ Deps(f, k) \subseteq DOMAIN f.jobs /\ k \notin Reach(Deps(f, k), 3)
     /\ \A s \in Rng(f.jobs[k].steps) : s.k = "cmd") => OK
Numbered == OK => \A k \in DOMAIN f.jobs : \A i \in DOMAIN Plan(f).jobs[k].steps :
  Plan(f).jobs[k].steps[i].id = <<f.id, k, ToString(i - 1)>>
Count == OK => \A k \in DOMAIN f.jobs : Len(Plan(f).jobs[k].steps) >= Len(f.jobs[k].steps)
Registered == OK => \A k \in DOMAIN f.jobs : \A s \in Rng(Plan(f).jobs[k].steps) : s.run # "A of plugin"
=============================================================================
