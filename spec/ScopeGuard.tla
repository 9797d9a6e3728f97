----------------------------- MODULE ScopeGuard -----------------------------
(* Programs of nested scopes, each with a guard.  A program is a sequence of steps <<what, which>>:        *)
(*   "open" k: a scope with a guard whose action is k;  "set" k: the innermost guard's action becomes k;    *)
(*   "fn" k: the same with a plain function object;  "fail" k: a scope whose guard may fail to store its     *)
(*   action, which runs all the same;  "release";  "x" v, "y" v: assign a variable;  "try": a scope which catches;  "leave";  "throw".        *)
(* Actions: 0 none, 1..9 are noted, 11 reverts x and 12 reverts y to the value it has when the action is    *)
(* made.  Whatever is open at the end of the program is left.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Steps, MaxLen
Init0 == "-"
Act(m, k) == IF k = 11 THEN <<"x", m.x>> ELSE IF k = 12 THEN <<"y", m.y>> ELSE <<"note", k>>
Do(m, a) == CASE a[1] = "note" -> IF a[2] = 0 THEN m ELSE [m EXCEPT !.log = Append(@, a[2])]
              [] a[1] = "x" -> [m EXCEPT !.x = a[2]]
              [] a[1] = "y" -> [m EXCEPT !.y = a[2]]
\* m: variables, log, and the stack of open scopes: a guard's action, or <<"try">>
Pop(m) == LET t == m.st[Len(m.st)]  r == [m EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)] IN
          IF t = <<"try", 0>> THEN r ELSE Do(r, t)
RECURSIVE Unwind(_)
Unwind(m) == IF m.st = <<>> THEN [m EXCEPT !.log = Append(@, 20), !.over = TRUE]     \* caught outside
             ELSE IF m.st[Len(m.st)] = <<"try", 0>> THEN [m EXCEPT !.st = SubSeq(@, 1, Len(@) - 1), !.log = Append(@, 21)]
             ELSE Unwind(Pop(m))
RECURSIVE Close(_)
Close(m) == IF m.st = <<>> THEN m ELSE Close(Pop(m))
RECURSIVE Inner(_)
Inner(st) == IF st = <<>> THEN 0 ELSE IF st[Len(st)] # <<"try", 0>> THEN Len(st) ELSE Inner(SubSeq(st, 1, Len(st) - 1))
RECURSIVE Go(_, _)
Go(m, p) ==
  IF p = <<>> \/ m.over THEN Close(m)
  ELSE LET w == p[1][1]  k == p[1][2]  g == Inner(m.st) IN
       Go(CASE w = "fn" -> [m EXCEPT !.st = Append(@, <<"note", k>>)]
            [] w = "fail" -> [m EXCEPT !.log = Append(@, k)]
            [] w = "open" -> [m EXCEPT !.st = Append(@, Act(m, k))]
            [] w = "try" -> [m EXCEPT !.st = Append(@, <<"try", 0>>)]
            [] w = "set" -> IF g = 0 THEN m ELSE [m EXCEPT !.st[g] = Act(m, k)]
            [] w = "release" -> IF g = 0 THEN m ELSE [m EXCEPT !.st[g] = <<"note", 0>>]
            [] w = "x" -> [m EXCEPT !.x = k]
            [] w = "y" -> [m EXCEPT !.y = k]
            [] w = "leave" -> IF m.st = <<>> THEN m ELSE Pop(m)
            [] w = "throw" -> Unwind(m), Tail(p))
Start == [x |-> 0, y |-> 0, log |-> <<>>, st |-> <<>>, over |-> FALSE]
Programs == UNION {[1..n -> Steps] : n \in 0..MaxLen}
Ops(s) == [n : {"prog"}, a : {<<p>> : p \in Programs}]
Apply(s, o) == LET m == Go(Start, o.a[1]) IN [s |-> s, r |-> [x |-> m.x, y |-> m.y, log |-> m.log]]
Inv(s) == TRUE
\* every noted action runs at most as often as it was given to a guard
Given(p, k) == {i \in DOMAIN p : p[i] \in {<<"open", k>>, <<"set", k>>, <<"fn", k>>, <<"fail", k>>}}
Ran(l, k) == {i \in DOMAIN l : l[i] = k}
StepInv(s, o, a) == \A k \in 1..9 : Cardinality(Ran(a.r.log, k)) <= Cardinality(Given(o.a[1], k))
=============================================================================
