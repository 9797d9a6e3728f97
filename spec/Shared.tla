-------------------------------- MODULE Shared --------------------------------
(* Named areas of shared memory, each holding a list of byte strings.  Operations are done by processes,     *)
(* which can be killed; "many" reads from several processes at the same time.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs, Names, Lists, Counts
Absent == [there |-> FALSE, items |-> <<>>]
Init0 == <<>>                                                               \* list of <<name, items>>
At(s, n) == LET i == {k \in DOMAIN s : s[k][1] = n} IN
            IF i = {} THEN Absent ELSE [there |-> TRUE, items |-> s[CHOOSE k \in i : TRUE][2]]
Without(s, n) == SelectSeq(s, LAMBDA e : e[1] # n)
\* the areas in a fixed order, so that equal contents are one state
RECURSIVE Before(_, _)
Before(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE ELSE IF x[1] = y[1] THEN Before(Tail(x), Tail(y)) ELSE x[1] < y[1]
With(s, n, l) == LET r == Without(s, n) IN
                 SelectSeq(r, LAMBDA e : Before(e[1], n)) \o <<<<n, l>>>> \o SelectSeq(r, LAMBDA e : ~Before(e[1], n))
Thrown == [err |-> "thrown"]
Read(s, n, k) == LET a == At(s, n) IN
                 IF ~a.there \/ k > Len(a.items) THEN Thrown ELSE IF k <= 0 THEN <<>> ELSE SubSeq(a.items, 1, k)
Apply(s, o) ==
  CASE o.n = "create" -> [s |-> With(s, o.a[2], o.a[3]), r |-> 0]
    [] o.n = "remove" -> [s |-> Without(s, o.a[2]), r |-> 0]
    [] o.n \in {"read", "many"} -> [s |-> s, r |-> Read(s, o.a[2], o.a[3])]
    [] o.n = "kill" -> [s |-> s, r |-> 0]
Ops(s) == [n : {"create"}, a : Procs \X Names \X Lists] \cup [n : {"remove"}, a : Procs \X Names]
          \cup [n : {"read"}, a : Procs \X Names \X Counts] \cup [n : {"kill"}, a : {<<p>> : p \in Procs}]
Inv(s) == \A i, j \in DOMAIN s : i # j => s[i][1] # s[j][1]
StepInv(s, o, a) == \A n \in Names : (o.n \in {"read", "many", "kill"} \/ o.a[2] # n) => At(a.s, n) = At(s, n)
=============================================================================
