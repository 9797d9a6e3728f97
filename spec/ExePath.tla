------------------------------- MODULE ExePath -------------------------------
(* The path of the running program: set once, from what the system says or else from the first argument.    *)
(* A program is a number of steps; "link" is what the system says: 0 the truth, 1 nothing.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Links, Steps, MaxLen
Init0 == "-"
Unset == [err |-> "uninitialised"]
RECURSIVE Go(_, _, _, _)
Go(link, p, set, moved) ==
  IF p = <<>> THEN <<>>
  ELSE LET w == p[1][1]  k == p[1][2] IN
       CASE w = "set" -> <<0>> \o Go(link, Tail(p), IF set = -1 THEN (IF link = 0 THEN 9 ELSE k) ELSE set, moved)
         [] w = "cd" -> <<0>> \o Go(link, Tail(p), set, TRUE)
         [] w = "get" -> <<IF set = -1 THEN Unset ELSE IF set = 9 THEN "self" ELSE "argv " \o ToString(set)>> \o Go(link, Tail(p), set, moved)
         [] w = "dir" -> <<IF set = -1 THEN Unset ELSE IF set = 9 THEN "self dir" ELSE "argv dir " \o ToString(set)>> \o Go(link, Tail(p), set, moved)
Programs == UNION {[1..n -> Steps] : n \in 1..MaxLen}
Ops(s) == [n : {"run"}, a : Links \X Programs]
Apply(s, o) == [s |-> s, r |-> Go(o.a[1], o.a[2], -1, FALSE)]
Inv(s) == TRUE
StepInv(s, o, a) == Len(a.r) = Len(o.a[2])
=============================================================================
