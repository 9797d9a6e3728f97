----------------------------- MODULE DataNames -----------------------------
(* Pairs of a name (64 bytes) and a type id (its decimal digits): order, file names, serialised form.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Pairs, Texts
Init0 == "-"
Full(n) == [i \in 1..64 |-> IF i = 64 THEN n[2] ELSE n[1]]
RECURSIVE Less(_, _)
Less(u, v) == IF v = <<>> THEN FALSE ELSE IF u = <<>> THEN TRUE
              ELSE IF u[1] # v[1] THEN u[1] < v[1] ELSE Less(Tail(u), Tail(v))
LessId(u, v) == IF Len(u) # Len(v) THEN Len(u) < Len(v) ELSE Less(u, v)
LessP(p, q) == IF p[1] # q[1] THEN Less(p[1], q[1]) ELSE LessId(p[2], q[2])
Digit(x) == IF x < 10 THEN 48 + x ELSE 87 + x
FileOf(name, id) == [i \in 1..128 |-> LET b == name[(i + 1) \div 2] IN Digit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]
                    \o <<95>> \o [i \in DOMAIN id |-> 48 + id[i]]
File(p) == FileOf(Full(p[1]), p[2])
Max == <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>
Val(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Good(t) == /\ Len(t) \in 130..139
           /\ t[129] = 95
           /\ \A i \in 1..128 : Val(t[i]) >= 0
           /\ \A i \in 130..Len(t) : t[i] \in 48..57
           /\ t[130] = 48 => Len(t) = 130
           /\ LET d == [i \in 1..(Len(t) - 129) |-> t[129 + i] - 48] IN ~LessId(Max, d)
Of(t) == [name |-> [i \in 1..64 |-> 16 * Val(t[2 * i - 1]) + Val(t[2 * i])], id |-> [i \in 1..(Len(t) - 129) |-> t[129 + i] - 48]]
Ops(s) == [n : {"cmp"}, a : {<<p[1], p[2], q[1], q[2]>> : p, q \in Pairs}]
          \cup [n : {"file", "trip"}, a : Pairs]
          \cup [n : {"parse"}, a : {<<t>> : t \in Texts}]
Apply(s, o) ==
  [s |-> s, r |->
    CASE o.n = "cmp" -> LET p == <<o.a[1], o.a[2]>>  q == <<o.a[3], o.a[4]>> IN
                        IF p = q THEN "== <= >=" ELSE IF LessP(p, q) THEN "!= < <=" ELSE "!= > >="
      [] o.n = "file" -> File(o.a)
      [] o.n = "trip" -> "same"
      [] o.n = "parse" -> IF Good(o.a[1]) THEN Of(o.a[1]) ELSE [err |-> "rejected"]]
Inv(s) == TRUE
\* one to one, and a total order
StepInv(s, o, a) ==
  CASE o.n = "file" -> Good(a.r) /\ FileOf(Of(a.r).name, Of(a.r).id) = a.r /\ Of(a.r) = [name |-> Full(o.a[1]), id |-> o.a[2]]
    [] o.n = "cmp" -> LET p == <<o.a[1], o.a[2]>>  q == <<o.a[3], o.a[4]>> IN
                      /\ (a.r = "== <= >=") <=> File(p) = File(q)
                      /\ p # q => LessP(p, q) # LessP(q, p)
                      /\ \A u \in Pairs : LessP(p, q) /\ LessP(q, u) => LessP(p, u)
    [] OTHER -> TRUE
=============================================================================
