---------------------------------- MODULE Random ----------------------------------
(* Random strings and numbers.  What is drawn is left open; it is decided by the seed and the calls since.  *)
(* kinds: 1, 2 string and bytes, 3, 4 alphanumeric ones, 5, 6 signed and unsigned numbers as four bytes.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Env
Init0 == [seed |-> -1, calls |-> <<>>, known |-> {}, fresh |-> {}]
AlphaNumeric == 48..57 \cup 65..90 \cup 97..122
Alphabet(k) == IF k \in {3, 4} THEN AlphaNumeric ELSE 0..255
Size(o) == IF o.a[1] >= 5 THEN {4} ELSE IF o.a[3] = -1 THEN {o.a[2]} ELSE o.a[2]..o.a[3]
Fits(o, r) == /\ Len(ToString(r)) > 0
              /\ DOMAIN r = 1..Len(r) /\ Len(r) \in Size(o)
              /\ \A i \in DOMAIN r : r[i] \in Alphabet(o.a[1])
\* the same calls after the same seed, or after another one
Again(s, c, r) == \A k \in s.known : k[2] = c => IF k[1] = s.seed THEN k[3] = r ELSE Len(r) < 12 \/ k[3] # r
Draw(s, o, r) == LET c == Append(s.calls, o.a) IN [s EXCEPT !.calls = c, !.known = IF s.seed = -1 THEN @ ELSE @ \cup {<<s.seed, c, r>>}]
Sorted(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN <<x>> \o F(T \ {x}) IN F(S)
Example(o) == LET n == CHOOSE x \in Size(o) : TRUE IN [i \in 1..n |-> 48]
Apply(s, o) ==
  CASE o.n = "seed" -> [s |-> [s EXCEPT !.seed = o.a[1], !.calls = <<>>], r |-> o.a[1]]
    [] o.n = "get" -> [s |-> Draw(s, o, Example(o)), r |-> Example(o)]
    \* of many draws: the sizes and the bytes which occur
    [] o.n = "many" -> [s |-> [s EXCEPT !.calls = Append(@, o.a)], r |-> <<Sorted(Size(o)), Sorted(Alphabet(o.a[1]))>>]
    [] o.n = "fresh" -> [s |-> s, r |-> <<>>]
ApplySeen(s, o, r) ==
  CASE o.n = "get" -> IF Fits(o, r) /\ Again(s, Append(s.calls, o.a), r) THEN [s |-> Draw(s, o, r), r |-> r] ELSE [s |-> s, r |-> <<-1>>]
    \* the first bytes drawn by a program which sets no seed
    [] o.n = "fresh" -> IF Len(r) = 16 /\ r \notin s.fresh THEN [s |-> [s EXCEPT !.fresh = @ \cup {r}], r |-> r] ELSE [s |-> s, r |-> <<-1>>]
    [] OTHER -> Apply(s, o)
Ops(s) == {}
Inv(s) == \A x, y \in s.known : x[1] = y[1] /\ x[2] = y[2] => x[3] = y[3]
StepInv(s, o, a) == TRUE
=============================================================================
