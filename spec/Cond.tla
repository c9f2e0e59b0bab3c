-------------------------------- MODULE Cond --------------------------------
(* Trigger conditions: which workflows, jobs and steps run (C13).           *)
(* Texts are sequences of code points.  A condition is                      *)
(*   [k |-> "events", l |-> names]  or                                      *)
(*   [k |-> "config", push |-> entry, pull |-> entry], an entry optional    *)
(*   (a sequence of length 0 or 1) with optional branches and paths.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(q) == {q[i] : i \in DOMAIN q}

(* ---- glob patterns ----
   ?  one character     *  any text ("/" included)
   ** as a whole path component: any number of components
   [..] [!..]  one character (not) in the set; anything else itself.        *)
Star == 42  Quest == 63  Open == 91  Close == 93  Bang == 33  Dash == 45  Slash == 47
Bad == [t |-> "bad"]

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
(* first position >= i of a closing bracket; 0 if none *)
CloseAt(p, i) == LET S == {k \in i .. Len(p) : p[k] = Close} IN IF S = {} THEN 0 ELSE Min(S)
RunEnd(p, i) == Min({k \in i .. Len(p) + 1 : k = Len(p) + 1 \/ p[k] # Star})

RECURSIVE Ranges(_)
Ranges(s) == IF s = <<>> THEN {}
             ELSE IF Len(s) >= 3 /\ s[2] = Dash THEN {<<s[1], s[3]>>} \cup Ranges(SubSeq(s, 4, Len(s)))
             ELSE {<<s[1], s[1]>>} \cup Ranges(Tail(s))

RECURSIVE Parse(_, _)
Parse(p, i) ==
  IF i > Len(p) THEN <<>>
  ELSE IF p[i] = Quest THEN <<[t |-> "any"]>> \o Parse(p, i + 1)
  ELSE IF p[i] = Star THEN
    LET e == RunEnd(p, i) n == e - i IN
    IF n = 1 THEN <<[t |-> "seq"]>> \o Parse(p, e)
    ELSE IF n > 2 \/ (i > 1 /\ p[i - 1] # Slash) \/ (e <= Len(p) /\ p[e] # Slash) THEN <<Bad>>
    ELSE <<[t |-> "rec"]>> \o Parse(p, e + 1)
  ELSE IF p[i] = Open THEN
    LET neg == i < Len(p) /\ p[i + 1] = Bang
        from == IF neg THEN i + 2 ELSE i + 1
        c == CloseAt(p, from + 1)
    IN IF i = Len(p) \/ c = 0 THEN <<Bad>>
       ELSE <<[t |-> IF neg THEN "out" ELSE "in", r |-> Ranges(SubSeq(p, from, c - 1))]>> \o Parse(p, c + 1)
  ELSE <<[t |-> "chr", c |-> p[i]]>> \o Parse(p, i + 1)

Valid(ts) == \A i \in DOMAIN ts : ts[i].t # "bad"

Within(r, c) == \E x \in r : x[1] <= c /\ c <= x[2]
One(t, c) == CASE t.t = "any" -> TRUE [] t.t = "in" -> Within(t.r, c) [] t.t = "out" -> ~Within(t.r, c)
               [] OTHER -> t.c = c
(* the positions of s the first k tokens can have consumed it up to *)
RECURSIVE After(_, _, _)
After(ts, k, s) ==
  IF k = 0 THEN {0}
  ELSE LET B == After(ts, k - 1, s) t == ts[k] IN
    CASE t.t = "seq" -> IF B = {} THEN {} ELSE Min(B) .. Len(s)
      [] t.t = "rec" -> B \cup (IF B = {} THEN {} ELSE {m \in Min(B) + 1 .. Len(s) : s[m] = Slash \/ m = Len(s)})
      [] OTHER -> {b + 1 : b \in {b \in B : b < Len(s) /\ One(t, s[b + 1])}}
Glob(p, s) == LET ts == Parse(p, 1) IN Valid(ts) /\ Len(s) \in After(ts, Len(ts), s)

Some(patterns, values) == \E v \in Rng(values) : \E p \in Rng(patterns) : Glob(p, v)

(* ---- conditions ---- *)
Push == <<112, 117, 115, 104>>
Pull == <<112, 117, 108, 108, 95, 114, 101, 113, 117, 101, 115, 116>>
Entry(x, branch, files) ==
  /\ x # <<>>
  /\ x[1].branches # <<>> => Some(x[1].branches[1], <<branch>>)
  /\ x[1].paths # <<>> => Some(x[1].paths[1], files)
Match(c, event, branch, files) ==
  IF c.k = "events" THEN event \in Rng(c.l)
  ELSE CASE event = Push -> Entry(c.push, branch, files)
         [] event = Pull -> Entry(c.pull, branch, files)
         [] OTHER -> FALSE

(* ---- what is known of the triggering event ----
   r.event, r.auth optional; r.auth[1].ok: the credentials are accepted;
   r.commits, r.pulls: the files GitHub reports, r.down: it reports nothing. *)
Has(f, k) == k \in DOMAIN f
Known(r) ==
  /\ r.event # <<>> /\ r.auth # <<>> /\ r.auth[1].ok /\ ~r.down
  /\ LET e == r.event[1] IN
     \/ e.event = Push /\ Has(r.commits, e.sha)
     \/ e.event = Pull /\ e.pr # <<>> /\ Has(r.pulls, ToString(e.pr[1]))
Files(r) == LET e == r.event[1] IN
  IF e.event = Push THEN r.commits[e.sha] ELSE r.pulls[ToString(e.pr[1])]
Runs(r, on) ==
  \/ on = <<>>
  \/ ~Known(r)
  \/ Match(on[1], r.event[1].event, r.event[1].branch, Files(r))

(* ---- a run: states of the workflow, the jobs, their steps (each step ends
   as its outcome says), under the failure policy of Engine.tla ---- *)
RECURSIVE StepStates(_, _, _)
StepStates(r, ss, failed) ==
  IF ss = <<>> THEN <<>>
  ELSE LET s == Head(ss)
           go == Runs(r, s.on) /\ (failed => s.coe)
       IN <<IF ~go THEN "skipped" ELSE IF s.fails THEN "failed" ELSE "succeeded">>
          \o StepStates(r, Tail(ss), failed \/ (go /\ s.fails))
JobOut(r, j) ==
  IF ~Runs(r, j.on) THEN [state |-> "skipped", steps |-> <<>>]
  ELSE LET ss == StepStates(r, j.steps, FALSE)
       IN [state |-> IF "failed" \in Rng(ss) THEN "failed" ELSE "succeeded", steps |-> ss]
Out(r) ==
  IF ~Runs(r, r.on) THEN [state |-> "skipped", jobs |-> <<>>, execs |-> {}]
  ELSE LET js == [k \in DOMAIN r.jobs |-> JobOut(r, r.jobs[k])] IN
    [state |-> IF \E k \in DOMAIN js : js[k].state = "failed" THEN "failed" ELSE "succeeded",
     jobs |-> js,
     execs |-> UNION {{<<k, ToString(i - 1)>> : i \in {i \in DOMAIN js[k].steps : js[k].steps[i] # "skipped"}}
                      : k \in DOMAIN js}]

(* ---- recorded ---- *)
Viol(r) ==
  IF r.k = "match" THEN
    IF r.ok = Match(r.c, r.event, r.branch, r.files) THEN {} ELSE {"C13"}
  ELSE LET o == Out(r) IN
    IF /\ r.out.state = o.state
       /\ IF o.jobs = <<>> THEN DOMAIN r.out.jobs = {} ELSE r.out.jobs = o.jobs
       /\ Len(r.out.execs) = Cardinality(o.execs) /\ Rng(r.out.execs) = o.execs
    THEN {} ELSE {"C13"}
=============================================================================
