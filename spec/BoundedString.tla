--------------------------- MODULE BoundedString ---------------------------
(* Size-bounded strings.  Slots hold objects of three types: bytes of size 2..4 (a1, a2), characters    *)
(* of size 0..6 (w), bytes of size exactly 3 (f1, f2).  <<-1>> stands for an uninitialised object.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Slots, Vals     \* environment: slots used and values given
None == <<-1>>
All == {"a1", "a2", "w", "f1", "f2"}
Lo(x) == CASE x \in {"a1", "a2"} -> 2 [] x = "w" -> 0 [] x \in {"f1", "f2"} -> 3
Hi(x) == CASE x \in {"a1", "a2"} -> 4 [] x = "w" -> 6 [] x \in {"f1", "f2"} -> 3
Kind(x) == SubSeq(x, 1, 1)
SameType(x, y) == Lo(x) = Lo(y) /\ Hi(x) = Hi(y)
Fits(x, v) == Len(v) >= Lo(x) /\ Len(v) <= Hi(x)
Default(x) == IF Lo(x) = 0 THEN <<>> ELSE None
Init0 == [x \in All |-> Default(x)]

RECURSIVE Less(_, _)
Less(u, v) == IF v = <<>> THEN FALSE ELSE IF u = <<>> THEN TRUE
              ELSE IF u[1] # v[1] THEN u[1] < v[1] ELSE Less(Tail(u), Tail(v))
Before(u, v) == IF u = None \/ v = None THEN u = None /\ v # None ELSE Less(u, v)
RECURSIVE Xor(_, _, _)
Xor(a, b, n) == IF n = 0 THEN 0 ELSE ((a + b) % 2) + 2 * Xor(a \div 2, b \div 2, n - 1)

Obs(s, x) == [res |-> x, all |-> <<s["a1"], s["a2"], s["w"], s["f1"], s["f2"]>>]
Set(s, x, v) == LET t == [s EXCEPT ![x] = v] IN [s |-> t, r |-> Obs(t, "ok")]
Fail(s, e) == [s |-> s, r |-> Obs(s, e)]

Converts(x, y) == <<x, y>> \in {<<"a1", "f1">>, <<"a2", "f2">>, <<"w", "a1">>, <<"w", "f2">>}
Ops(s) ==
  [n : {"make", "bytes", "parse"}, a : {<<x, v>> : x \in Slots, v \in Vals}]
  \cup [n : {"clear", "read"}, a : {<<x>> : x \in Slots}]
  \cup [n : {"copy", "move", "cctor", "mctor", "trip"}, a : {<<x, y>> : x \in Slots, y \in Slots}]
  \cup [n : {"conv"}, a : {<<x, y>> : x \in Slots, y \in Slots}]
  \cup [n : {"assign"}, a : {<<x, y>> : x \in Slots, y \in Slots}]
  \cup [n : {"cmp", "xor"}, a : {<<x, y>> : x \in Slots, y \in Slots}]
  \cup [n : {"put"}, a : {<<x, i, 2>> : x \in Slots, i \in {0, 1}}]

Apply(s, o) ==
  LET x == o.a[1]  v == IF Len(o.a) > 1 THEN o.a[2] ELSE 0 IN
  CASE o.n \in {"make", "bytes"} -> IF Fits(x, v) THEN Set(s, x, v) ELSE Fail(s, "outside_of_bounds")
    [] o.n = "parse" -> IF Fits(x, v) THEN Set(s, x, v) ELSE Fail(s, "parsing_error")
    [] o.n = "clear" -> Set(s, x, Default(x))
    \* every way of reading gives the value
    [] o.n = "read" -> IF s[x] = None THEN Fail(s, "uninitialised") ELSE Fail(s, ToString(Len(s[x])))
    [] o.n \in {"copy", "cctor"} -> IF SameType(x, v) THEN Set(s, x, s[v]) ELSE Fail(s, "n/a")
    [] o.n \in {"move", "mctor"} ->
         IF ~SameType(x, v) THEN Fail(s, "n/a") ELSE IF x = v THEN Fail(s, "ok") ELSE Set([s EXCEPT ![v] = Default(v)], x, s[v])
    \* serialised and parsed
    [] o.n = "trip" -> IF ~SameType(x, v) THEN Fail(s, "n/a") ELSE IF s[v] = None THEN Fail(s, "uninitialised") ELSE Set(s, x, s[v])
    \* from a type of narrower bounds
    [] o.n = "conv" -> IF Converts(x, v) THEN Set(s, x, s[v]) ELSE Fail(s, "n/a")
    [] o.n = "assign" -> IF Converts(x, v) /\ x # "w" THEN Set(s, x, s[v]) ELSE Fail(s, "n/a")
    [] o.n = "cmp" -> IF ~SameType(x, v) THEN Fail(s, "n/a")
                      ELSE Fail(s, IF s[x] = s[v] THEN "== <= >=" ELSE IF Before(s[x], s[v]) THEN "!= < <=" ELSE "!= > >=")
    [] o.n = "xor" -> IF {x, v} \subseteq {"f1", "f2"}
                      THEN IF s[x] = None \/ s[v] = None THEN Fail(s, "uninitialised")
                           ELSE Set(s, x, [i \in 1..3 |-> Xor(s[x][i], s[v][i], 8)])
                      ELSE Fail(s, "n/a")
    [] o.n = "put" -> IF s[x] = None THEN Fail(s, "uninitialised")
                      ELSE IF v + 1 \in DOMAIN s[x] THEN Set(s, x, [s[x] EXCEPT ![v + 1] = o.a[3]]) ELSE Fail(s, "n/a")

Inv(s) == \A x \in All : s[x] = None \/ Fits(x, s[x])
StepInv(s, o, a) ==
  /\ o.n = "xor" /\ o.a[1] = o.a[2] /\ a.r.res = "ok" => a.s[o.a[1]] = <<0, 0, 0>>
  /\ \A x \in All : x # o.a[1] /\ ~(o.n \in {"move", "mctor"} /\ x = o.a[2]) => a.s[x] = s[x]
  /\ a.r.res \notin {"ok"} => a.s = s
=============================================================================
