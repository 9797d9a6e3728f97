---------------------------- MODULE DataObjects ----------------------------
(* Immutable (i1, i2) and mutable (m1, m2) data objects, one held by a pointer to their base (p), and one   *)
(* serialised object (b).  A name is given by the creator or is the hash of the content.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Vals, Names, Tampers, Cuts     \* Tampers: <<position, mask>>; <<>> in Vals and Names stands for nothing
I == {"i1", "i2"}
M == {"m1", "m2"}
X == I \cup M
None == [t |-> "none", k |-> "none", n |-> <<>>, v |-> <<>>]
T(x) == IF x \in I THEN "i" ELSE "m"
Un(x) == [None EXCEPT !.t = T(x)]
Hashed(v) == [t |-> "i", k |-> "hash", n |-> v, v |-> v]
Given(n, v) == [t |-> "m", k |-> "given", n |-> n, v |-> v]
Is(d) == d.k # "none"
\* b: form "plain" or "pointer"
Init0 == [o |-> [x \in X |-> Un(x)], p |-> None, b |-> None, f |-> "none"]
Seen(d) == IF d.t = "none" THEN "none" ELSE IF ~Is(d) THEN "uninitialised"
           ELSE [id |-> IF d.t = "i" THEN 0 ELSE 1, name |-> d.n, by |-> d.k, value |-> d.v]
Obs(s, x) == [res |-> x, i1 |-> Seen(s.o["i1"]), i2 |-> Seen(s.o["i2"]), m1 |-> Seen(s.o["m1"]), m2 |-> Seen(s.o["m2"]), p |-> Seen(s.p)]
Ok(s) == [s |-> s, r |-> Obs(s, "ok")]
Fail(s, e) == [s |-> s, r |-> Obs(s, e)]
Set(s, x, d) == Ok([s EXCEPT !.o[x] = d])
Ops(s) ==
  [n : {"make"}, a : {<<x, v>> : x \in I, v \in Vals}]
  \cup [n : {"makem"}, a : {<<x, n, v>> : x \in M, n \in Names, v \in Vals}]
  \cup [n : {"copy", "cctor", "move", "mctor"}, a : {<<x, y>> \in X \X X : x # y /\ T(x) = T(y)}]
  \cup [n : {"clear", "up", "ser"}, a : {<<x>> : x \in X}]
  \cup [n : {"serp"}, a : {<<>> : z \in {1} \cap (IF s.p.t # "none" THEN {1} ELSE {})}]
  \cup [n : {"parse"}, a : {<<x>> : x \in {y \in X : s.f = "plain" /\ T(y) = s.b.t}}]
  \cup [n : {"parsep"}, a : {<<>> : z \in {1} \cap (IF s.f = "pointer" THEN {1} ELSE {})}]
  \cup [n : {"tamper"}, a : IF s.f = "plain" /\ s.b.t = "i" THEN Tampers ELSE {}]
  \cup [n : {"cut"}, a : IF s.f # "none" THEN {<<c>> : c \in Cuts} ELSE {}]
  \cup [n : {"forge"}, a : {<<t, n, v>> : t \in {"i", "m"}, n \in Names \ {<<>>}, v \in Vals}]
Apply(s, o) ==
  LET x == o.a[1] IN
  CASE o.n = "make" -> IF o.a[2] = <<>> THEN Fail(s, "uninitialised") ELSE Set(s, x, Hashed(o.a[2]))
    [] o.n = "makem" -> IF <<>> \in {o.a[2], o.a[3]} THEN Fail(s, "uninitialised") ELSE Set(s, x, Given(o.a[2], o.a[3]))
    [] o.n \in {"copy", "cctor"} -> Set(s, x, s.o[o.a[2]])
    [] o.n \in {"move", "mctor"} -> Set([s EXCEPT !.o[o.a[2]] = Un(x)], x, s.o[o.a[2]])
    [] o.n = "clear" -> Set(s, x, Un(x))
    [] o.n = "up" -> Ok([s EXCEPT !.p = s.o[x]])
    [] o.n = "ser" -> IF Is(s.o[x]) THEN Ok([s EXCEPT !.b = s.o[x], !.f = "plain"]) ELSE Fail(s, "uninitialised")
    [] o.n = "serp" -> IF Is(s.p) THEN Ok([s EXCEPT !.b = s.p, !.f = "pointer"]) ELSE Fail(s, "uninitialised")
    [] o.n = "parse" -> Set(s, x, s.b)
    [] o.n = "parsep" -> Ok([s EXCEPT !.p = s.b])
    [] o.n \in {"tamper", "cut"} -> Fail(s, "rejected")
    [] o.n = "forge" -> Fail(s, IF o.a[1] = "i" \/ o.a[3] = <<>> THEN "rejected" ELSE "accepted")
Inv(s) == /\ \A x \in X : s.o[x].t = T(x) /\ (Is(s.o[x]) => s.o[x].v # <<>> /\ (x \in I => s.o[x].k = "hash" /\ s.o[x].n = s.o[x].v))
          /\ s.f # "none" => Is(s.b)
StepInv(s, o, a) ==
  \A x \in X : \/ a.s.o[x] = s.o[x]
               \/ o.n \in {"make", "makem", "copy", "cctor", "move", "mctor", "clear", "parse"} /\ o.a[1] = x
               \/ o.n \in {"move", "mctor"} /\ o.a[2] = x
=============================================================================
