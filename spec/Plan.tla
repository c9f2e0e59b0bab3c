-------------------------------- MODULE Plan --------------------------------
(* What a workflow file means (C12) and which files are unusable (C22).     *)
(* A file is given as its structure; optional parts are sequences of length *)
(* 0 or 1.  Plan(f) is the plan that must be built, Faults(f) why the file  *)
(* must be rejected (empty: it must be accepted).                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(q) == {q[i] : i \in DOMAIN q}
Or(o, d) == IF o = <<>> THEN d ELSE o[1]

(* ---- timeouts: the texts that are used, in milliseconds; others are malformed *)
Times == [x \in {"60m", "10m", "1h", "90s", "1h 30m", "500ms", "2days", "1h30m15s", "1week", "3 min", "0s", "1ms"} |->
  CASE x = "60m" -> 3600000 [] x = "10m" -> 600000 [] x = "1h" -> 3600000 [] x = "90s" -> 90000
    [] x = "1h 30m" -> 5400000 [] x = "500ms" -> 500 [] x = "2days" -> 172800000
    [] x = "1h30m15s" -> 5415000 [] x = "1week" -> 604800000 [] x = "3 min" -> 180000 [] x = "0s" -> 0
    [] x = "1ms" -> 1]

(* ---- actions: who supplies what ----
   f.actions: the registered ones, f.plugins: per plugin what it says to an
   action's name: "fail" (its hook fails), "none", or a supplied action.    *)
NoAct == [k |-> "none"]
PluginSays(p, n) == IF n \in DOMAIN p THEN p[n] ELSE NoAct
RECURSIVE FromPlugins(_, _)
FromPlugins(ps, n) ==
  IF ps = <<>> THEN NoAct
  ELSE IF PluginSays(Head(ps), n).k \in {"none", "fail"} THEN FromPlugins(Tail(ps), n)
  ELSE PluginSays(Head(ps), n)
Meaning(f, n) == IF n \in DOMAIN f.actions THEN f.actions[n] ELSE FromPlugins(f.plugins, n)

(* a step supplied by an action; one that echoes shows what the action was given *)
Made(a, s, d) == IF s.k = "cmd" /\ a.echo THEN [s EXCEPT !.run = @ \o "|" \o d.raw] ELSE s

(* ---- the steps of a job ---- *)
Flat(qs) == LET RECURSIVE F(_) F(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o F(Tail(q)) IN F(qs)
Rev(q) == [i \in 1 .. Len(q) |-> q[Len(q) + 1 - i]]
Part(f, s, which) ==
  IF s.k = "cmd" THEN (IF which = "run" THEN <<s>> ELSE <<>>)
  ELSE LET a == Meaning(f, s.uses) IN
       IF a.k # "steps" THEN <<>>
       ELSE [i \in DOMAIN a[which] |-> Made(a, a[which][i], s)]
Lines(f, j) ==
  LET all(which) == [i \in DOMAIN j.steps |-> Part(f, j.steps[i], which)]
  IN Flat(all("pre")) \o Flat(all("run")) \o Flat(Rev(all("post")))

NoBox == <<>>
Box(c) == [name |-> c.name, volumes |-> c.volumes, security |-> c.security]
StepOf(f, key, j, s, i) ==
  [id |-> <<f.id, key, ToString(i - 1)>>,
   name |-> s.name, on |-> s.on, run |-> s.run,
   container |-> IF s.container # <<>> THEN <<Box(s.container[1])>>
                 ELSE IF j.container # <<>> THEN <<Box(j.container[1])>> ELSE <<>>,
   coe |-> Or(s.coe, FALSE), env |-> Or(s.env, <<>>), secrets |-> Or(s.secrets, <<>>),
   timeout |-> Times[Or(s.timeout, "60m")]]

JobOf(f, key) ==
  LET j == f.jobs[key] ls == Lines(f, j) IN
  [id |-> <<f.id, key>>, name |-> j.name, on |-> j.on, deps |-> Or(j.deps, <<>>), wd |-> Or(j.wd, <<>>),
   steps |-> [i \in 1 .. Len(ls) |-> StepOf(f, key, j, ls[i], i)]]

Plan(f) == [id |-> f.id, name |-> f.name, on |-> f.on, jobs |-> [k \in DOMAIN f.jobs |-> JobOf(f, k)]]

(* ---- what makes a file unusable: [why, names it has to mention] ---- *)
Deps(f, k) == Rng(Or(f.jobs[k].deps, <<>>))
RECURSIVE Satisfiable(_, _)
Satisfiable(f, done) ==
  LET more == {k \in DOMAIN f.jobs : Deps(f, k) \subseteq done} IN
  IF more = done THEN done ELSE Satisfiable(f, more)

Parts(a) == a.pre \o a.run \o a.post
Faults(f) ==
  (IF f.jobs = <<>> \/ DOMAIN f.jobs = {} THEN {[why |-> "no jobs", says |-> {}]} ELSE
   {[why |-> "no steps", says |-> {k}] : k \in {k \in DOMAIN f.jobs : f.jobs[k].steps = <<>>}}
   \cup UNION {{[why |-> "unknown job", says |-> {d}] : d \in Deps(f, k) \ DOMAIN f.jobs} : k \in DOMAIN f.jobs}
   \cup (IF Satisfiable(f, {}) # DOMAIN f.jobs THEN {[why |-> "never satisfied", says |-> {}]} ELSE {})
   \cup UNION {UNION {
          LET s == f.jobs[k].steps[i]
              a == IF s.k = "act" THEN Meaning(f, s.uses) ELSE NoAct
              made == Lines(f, f.jobs[k])
          IN (IF s.k = "act" /\ a.k = "none" THEN {[why |-> "unknown action", says |-> {s.uses}]} ELSE {})
             \cup (IF a.k = "error" THEN {[why |-> "action fails", says |-> {a.says}]} ELSE {})
             \cup (IF a.k = "steps" /\ \E x \in Rng(Parts(a)) : x.k = "act"
                   THEN {[why |-> "action gives an action", says |-> {}]} ELSE {})
             \cup (IF \E x \in Rng(made) : x.k = "cmd" /\ Or(x.timeout, "60m") \notin DOMAIN Times
                   THEN {[why |-> "timeout", says |-> {}]} ELSE {})
          : i \in DOMAIN f.jobs[k].steps} : k \in DOMAIN f.jobs})

(* which action was taken is also a matter of the plugins (C06) *)
Supplied(r) ==
  IF \E k \in DOMAIN r.f.jobs : \E i \in DOMAIN r.f.jobs[k].steps :
       r.f.jobs[k].steps[i].k = "act" /\ r.f.jobs[k].steps[i].uses \notin DOMAIN r.f.actions
  THEN {"C06"} ELSE {}

(* ---- a recorded build: r.f the file, r.out what came of it ---- *)
Viol(r) ==
  LET fs == Faults(r.f) IN
  IF fs # {} THEN
    (IF r.out.ok \/ ~\E x \in fs : x.says \subseteq Rng(r.out.mentions) \/ r.out.err = "" THEN {"C22"} ELSE {})
  ELSE IF ~r.out.ok THEN {"C22"} \cup Supplied(r)
  ELSE IF r.out.err # "" THEN {"C12", "C22"}  \* building it neither succeeds nor fails
  ELSE LET p == Plan(r.f) IN
       (IF r.out.plan # p THEN {"C12"} ELSE {})
       \cup IF r.out.plan # p THEN Supplied(r) ELSE {}
=============================================================================
