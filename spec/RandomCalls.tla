------------------------------- MODULE RandomCalls -------------------------------
(* Random values drawn by several threads.  First one thread draws all of a seed (ref), then, after the same seed,  *)
(* several do: each call gets a value of that sequence, no two the same one, and none an earlier one than a call     *)
(* which returned before it began.                                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Init0 == [ref |-> <<>>, used |-> {}, low |-> {}]
TInit(cfg) == Init0
If(c, S) == IF c THEN S ELSE {}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Step(s, e) ==
  CASE e.e = "ref" -> {[s EXCEPT !.ref = Append(@, e.r)]}
    [] e.e = "call" -> If(~\E c \in s.low : c[1] = e.t, {[s EXCEPT !.low = @ \cup {<<e.t, Max({0} \cup s.used)>>}]})
    [] e.e = "ret" -> UNION {{[s EXCEPT !.used = @ \cup {i}, !.low = {d \in @ : d[1] # e.t}] :
                               i \in {j \in DOMAIN s.ref \ s.used : j > c[2] /\ s.ref[j] = e.r}} : c \in {d \in s.low : d[1] = e.t}}
    [] e.e = "end" -> If(e.op = "ok" /\ s.low = {} /\ s.used = DOMAIN s.ref, {s})
    [] OTHER -> {}
Silent(s) == {}

-----------------------------------------------------------------------------
Ev(e, t, op, a, r) == [e |-> e, t |-> t, op |-> op, a |-> a, r |-> r]
Values == {"x", "y", "z"}
Events(s) == {Ev("ref", 0, "", <<>>, v) : v \in Values}
             \cup {Ev(x, t, "", <<>>, v) : x \in {"call", "ret"}, t \in 1..2, v \in Values}
Allowed(s, e) == CASE e.e = "ref" -> Len(s.ref) < 3 /\ s.low = {} /\ s.used = {}
                   [] e.e = "call" -> e.r = "x" /\ Len(s.ref) = 3 /\ Cardinality(s.used) + Cardinality(s.low) < 3
                   [] OTHER -> TRUE
\* everything drawn while nothing is under way is a prefix: what returned was drawn
Inv(s) == /\ s.used \subseteq DOMAIN s.ref
          /\ \A c \in s.low : c[2] <= Len(s.ref)
Final(s) == TRUE
=============================================================================
