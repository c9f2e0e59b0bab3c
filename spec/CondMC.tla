------------------------------- MODULE CondMC -------------------------------
(* What must hold of Cond.tla itself, over all small patterns and over all  *)
(* combinations of small conditions, events and things known.               *)
EXTENDS Cond, IOUtils

N == atoi(IOEnv.LEN)
Sig == {97, 98, Slash, Star, Quest, Open, Close, Bang}
Strs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Values == Strs({97, 98, Slash}, 3)

A == <<97>>  B == <<98>>  AB == <<97, Slash, 98>>
Pats == {A, <<Star>>, <<97, Slash, Star>>, <<Star, Star, Slash, 98>>, <<97, Star, Star>>}
PL == {<<>>} \cup {<<p>> : p \in Pats} \cup {<<p, q>> : p, q \in Pats}
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Entries == Opt({[branches |-> b, paths |-> p] : b \in Opt({<<A>>, <<B, A>>, <<>>}), p \in Opt({<<A>>, <<<<Star, Star, Slash, 98>>>>, <<>>})})
Release == <<114>>
Conds == {[k |-> "events", l |-> l] : l \in {<<>>, <<Push>>, <<Pull>>, <<Push, Pull>>, <<Release>>}}
         \cup {[k |-> "config", push |-> x, pull |-> y] : x, y \in Entries}
Events == Opt({[event |-> e, branch |-> b, sha |-> s, pr |-> p]
               : e \in {Push, Pull, Release}, b \in {A, B}, s \in {"s1", "s2"}, p \in {<<>>, <<1>>, <<2>>}})
Auths == Opt({[ok |-> TRUE], [ok |-> FALSE]})

VARIABLE x
Init == \/ IOEnv.WHAT = "globs" /\ x \in [p : Strs(Sig, N)]
        \/ IOEnv.WHAT = "lists" /\ x \in [ps : PL, q : Pats, vs : {<<>>, <<A>>, <<AB>>, <<B, AB>>, <<AB, B>>}, v : {A, B, AB}]
        \/ IOEnv.WHAT = "known" /\ x \in [c : Conds, event : Events, auth : Auths, down : BOOLEAN]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

Plain(p) == \A i \in DOMAIN p : p[i] \notin {Star, Quest, Open}
Globs == IOEnv.WHAT = "globs" =>
  /\ Plain(x.p) => \A v \in Values : Glob(x.p, v) <=> v = x.p
  /\ Valid(Parse(x.p, 1)) /\ (x.p = <<>> \/ LET ts == Parse(x.p, 1) IN ts[Len(ts)].t # "rec") =>
       (* one more question mark: one more character; a star: any more *)
       /\ Valid(Parse(x.p \o <<Quest>>, 1)) =>
            \A v \in Values : Glob(x.p \o <<Quest>>, v) <=> v # <<>> /\ Glob(x.p, SubSeq(v, 1, Len(v) - 1))
       /\ Valid(Parse(x.p \o <<Star>>, 1)) /\ (x.p = <<>> \/ x.p[Len(x.p)] # Star) =>
            \A v \in Values : Glob(x.p \o <<Star>>, v) <=> \E n \in 0 .. Len(v) : Glob(x.p, SubSeq(v, 1, n))
  /\ ~Valid(Parse(x.p, 1)) => \A v \in Values : ~Glob(x.p, v)
Lists == IOEnv.WHAT = "lists" =>
  (* one more pattern, valid or not, or one more file never hides a match; the order does not matter *)
  /\ Some(x.ps, x.vs) => Some(Append(x.ps, x.q), x.vs) /\ Some(<<x.q>> \o x.ps, x.vs) /\ Some(x.ps, Append(x.vs, x.v))
  /\ Some(x.ps, x.vs) = Some([i \in DOMAIN x.ps |-> x.ps[Len(x.ps) + 1 - i]], x.vs)
  /\ (x.ps = <<>> \/ x.vs = <<>>) => ~Some(x.ps, x.vs)

R == [event |-> x.event, auth |-> x.auth, down |-> x.down,
      commits |-> [s1 |-> <<A, AB>>], pulls |-> ("1" :> <<AB>>)]
KnownInv == IOEnv.WHAT = "known" =>
  /\ Runs(R, <<>>)
  /\ (x.event = <<>> \/ x.auth = <<>> \/ x.down) => Runs(R, <<x.c>>)
  /\ Known(R) =>
       LET e == x.event[1].event IN
       (* the other kind's entry has no say *)
       /\ x.c.k = "config" => Runs(R, <<x.c>>) = Runs(R, <<[x.c EXCEPT ![IF e = Push THEN "pull" ELSE "push"] = <<>>]>>)
       /\ x.c.k = "config" /\ (IF e = Push THEN x.c.push ELSE x.c.pull) = <<>> => ~Runs(R, <<x.c>>)
       /\ x.c.k = "config" /\ (IF e = Push THEN x.c.push ELSE x.c.pull) = <<[branches |-> <<>>, paths |-> <<>>]>> => Runs(R, <<x.c>>)
=============================================================================
