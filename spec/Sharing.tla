-------------------------------- MODULE Sharing --------------------------------
(* Data split into n parts, t of which are enough.  kind "share": any t or more recover it, and splitting again  *)
(* gives other parts; kind "disperse": any t recover it.  Fewer never do.  Data is <<bytes, n>> as elsewhere.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Slots, Texts, Sizes
None == [kind |-> "none", t |-> 0, n |-> 0, p |-> <<<<>>, 0>>]
Init0 == [i \in Slots |-> None]
Valid(t, n) == t <= n /\ n >= 3 /\ t >= 2
Total(p) == Len(p[1]) + p[2]
Small == 12                                                                 \* shorter data can be hit by chance
Enough(x, l) == IF x.kind = "share" THEN Len(l) >= x.t ELSE Len(l) = x.t
Apply(s, o) ==
  LET i == o.a[1] IN
  CASE o.n = "split" -> IF ~Valid(o.a[3], o.a[4]) THEN [s |-> s, r |-> [err |-> "invalid_argument"]]
                        ELSE [s |-> [s EXCEPT ![i] = [kind |-> o.a[2], t |-> o.a[3], n |-> o.a[4], p |-> <<o.a[5], o.a[6]>>]], r |-> <<o.a[4], TRUE, TRUE>>]
    [] o.n = "join" -> [s |-> s, r |-> IF o.a[3] = <<>> THEN [err |-> "invalid_argument"] ELSE s[i].p]
ApplySeen(s, o, r) ==
  IF o.n = "join" /\ o.a[3] # <<>> /\ ~Enough(s[o.a[1]], o.a[3])
  THEN [s |-> s, r |-> IF Len(o.a[3]) < s[o.a[1]].t /\ Total(s[o.a[1]].p) >= Small /\ ToString(r) = ToString(s[o.a[1]].p) THEN "something else" ELSE r]
  ELSE Apply(s, o)
\* lists of different parts
RECURSIVE Perms(_, _)
Perms(S, k) == IF k = 0 THEN {<<>>} ELSE {<<x>> \o q : x \in S, q \in Perms(S, k - 1)}
Different(q) == Cardinality({q[i] : i \in DOMAIN q}) = Len(q)
Ops(s) ==
  {[n |-> "split", a |-> <<i, k, t, n, p[1], p[2]>>] : i \in {x \in Slots : s[x] = None}, k \in {"share", "disperse"}, t \in Sizes, n \in Sizes, p \in Texts}
  \cup UNION {{[n |-> "join", a |-> <<i, s[i].kind, q>>] : q \in {x \in Perms(1..s[i].n, s[i].t) : Different(x)}} : i \in {x \in Slots : s[x] # None}}
Inv(s) == \A i \in Slots : s[i] # None => Valid(s[i].t, s[i].n)
StepInv(s, o, a) == o.n = "join" => a.s = s
=============================================================================
