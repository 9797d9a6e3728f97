---------------------------- MODULE TaggedValue ----------------------------
(* Values wrapped in a tag: texts (t1, t2) and numbers (n1, n2).                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Texts, Numbers
T == {"t1", "t2"}
N == {"n1", "n2"}
Init0 == [x \in T \cup N |-> <<>>]     \* numbers: sequences of one; <<>> at first, which is not looked at
Same(x, y) == {x, y} \subseteq T \/ {x, y} \subseteq N
RECURSIVE Less(_, _)
Less(u, v) == IF v = <<>> THEN FALSE ELSE IF u = <<>> THEN TRUE
              ELSE IF u[1] # v[1] THEN u[1] < v[1] ELSE Less(Tail(u), Tail(v))
Is(s, x) == x \in T \/ s[x] # <<>>
Obs(s, x) == [res |-> x, all |-> <<s["t1"], s["t2"], s["n1"], s["n2"]>>]
Set(s, x, v) == LET t == [s EXCEPT ![x] = v] IN [s |-> t, r |-> Obs(t, "ok")]
Fail(s, e) == [s |-> s, r |-> Obs(s, e)]
Ops(s) ==
  [n : {"make"}, a : {<<x, v>> : x \in T, v \in Texts} \cup {<<x, <<v>>>> : x \in N, v \in Numbers}]
  \cup [n : {"copy", "cctor", "move", "trip", "cmp"}, a : {<<x, y>> \in (T \cup N) \X (T \cup N) : Same(x, y) /\ Is(s, x) /\ Is(s, y)}]
Apply(s, o) ==
  LET x == o.a[1]  y == o.a[2] IN
  CASE o.n = "make" -> Set(s, x, y)
    [] o.n \in {"copy", "cctor", "trip"} -> Set(s, x, s[y])
    [] o.n = "move" -> IF x = y THEN Fail(s, "ok") ELSE Set([s EXCEPT ![y] = IF y \in T THEN <<>> ELSE @], x, s[y])
    [] o.n = "cmp" -> Fail(s, IF s[x] = s[y] THEN "== <= >=" ELSE IF Less(s[x], s[y]) THEN "!= < <=" ELSE "!= > >=")
Inv(s) == \A x \in T : s[x] # <<>> => s[x][1] \in 0..255
StepInv(s, o, a) == \A x \in T \cup N : x # o.a[1] /\ ~(o.n = "move" /\ x = o.a[2]) => a.s[x] = s[x]
=============================================================================
