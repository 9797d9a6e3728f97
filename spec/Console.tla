------------------------------ MODULE Console ------------------------------
(* A menu driven by lines of input, and reading of lines from a terminal.                                   *)
(* Lines and texts are sequences of character codes.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Part,                \* 1: menu, 2: lines
          MaxItems, Names, Kinds, Scripts, \* Kinds of operation: "none", "ok", "error", "std"
          Texts

Space(c) == c \in {32, 9, 10, 11, 12, 13}
IsDigit(c) == c \in 48..57
RECURSIVE Skip(_)
Skip(t) == IF t # <<>> /\ Space(Head(t)) THEN Skip(Tail(t)) ELSE t
RECURSIVE Digits(_)
Digits(t) == IF t # <<>> /\ IsDigit(Head(t)) THEN <<Head(t)>> \o Digits(Tail(t)) ELSE <<>>
RECURSIVE Zeros(_)
Zeros(d) == IF Len(d) > 1 /\ Head(d) = 48 THEN Zeros(Tail(d)) ELSE d
RECURSIVE Word(_)
Word(t) == IF t = <<>> \/ Space(Head(t)) THEN <<>> ELSE <<Head(t)>> \o Word(Tail(t))
RECURSIVE Leq(_, _)
Leq(u, v) == u = <<>> \/ u[1] < v[1] \/ (u[1] = v[1] /\ Leq(Tail(u), Tail(v)))
Max(neg) == <<50, 49, 52, 55, 52, 56, 51, 54, 52, IF neg THEN 56 ELSE 55>>
\* the number at the start of a line, as its decimal digits; <<>> if there is none
Number(line) ==
  LET t == Skip(line)
      neg == t # <<>> /\ t[1] = 45
      d == Digits(IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t)
      z == Zeros(d)
  IN IF d = <<>> \/ Len(z) > 10 \/ (Len(z) = 10 /\ ~Leq(z, Max(neg))) THEN <<>>
     ELSE IF neg /\ z # <<48>> THEN <<45>> \o z ELSE z

(* ---------------- menu ---------------- *)
\* items: the first is the top level; p is the index of the parent, c the indices of the children
Item(p, n, k) == [p |-> p, n |-> n, k |-> k, c |-> <<>>]
Top == <<84>>
Small(z) == IF Len(z) = 1 /\ z[1] # 45 THEN z[1] - 48 ELSE IF Len(z) = 2 /\ z[1] # 45 THEN 10 * (z[1] - 48) + z[2] - 48 ELSE -1
Show(m, cur) == [title |-> m[cur].n, items |-> [i \in DOMAIN m[cur].c |-> m[m[cur].c[i]].n],
                 back |-> IF m[cur].p = 0 THEN <<>> ELSE m[m[cur].p].n]
RECURSIVE Run(_, _, _, _, _, _)
Run(m, cur0, fresh, lines, ran, shown) ==
  LET cur == IF fresh /\ m[cur0].c = <<>> /\ m[cur0].p # 0 THEN m[cur0].p ELSE cur0
      sh == IF fresh THEN Append(shown, Show(m, cur)) ELSE shown
      End(c, res, ra) == [cur |-> c, res |-> [ret |-> res, ran |-> ra, shown |-> sh]]
  IN IF lines = <<>> THEN End(cur, "unknown", ran)
     ELSE LET z == Number(lines[1])  v == Small(z)
              next == IF v = 99 /\ m[cur].p # 0 THEN m[cur].p
                      ELSE IF v > 0 /\ v <= Len(m[cur].c) THEN m[cur].c[v] ELSE 0
          IN IF z # <<>> /\ v = 0 THEN End(cur, "success", ran)
             ELSE IF next = 0 THEN Run(m, cur, FALSE, Tail(lines), ran, sh)
             ELSE LET k == m[next].k
                      ra == IF k = "none" THEN ran ELSE Append(ran, next)
                  IN IF k = "error" THEN End(next, "no_such_element", ra)
                     ELSE IF k = "std" THEN End(next, "unknown", ra)
                     ELSE Run(m, next, TRUE, Tail(lines), ra, sh)

(* ---------------- lines ---------------- *)
RECURSIVE Split(_, _)
Split(t, w) == IF t = <<>> THEN (IF w = <<>> THEN <<>> ELSE <<w>>)
               ELSE IF Head(t) = 32 THEN (IF w = <<>> THEN <<>> ELSE <<w>>) \o Split(Tail(t), <<>>)
               ELSE Split(Tail(t), Append(w, Head(t)))
Get(t, line) == LET v == IF t = "int" THEN Number(line) ELSE Word(Skip(line)) IN
                IF v = <<>> THEN [err |-> "invalid_argument"] ELSE [value |-> v]
\* the password which is entered, and how many lines were read
RECURSIVE Pass(_, _, _)
Pass(lines, repeat, n) ==
  LET W(i) == Word(Skip(lines[i])) IN
  IF lines = <<>> THEN [err |-> "unknown", n |-> n]
  ELSE IF W(1) = <<>> THEN [err |-> "invalid_argument", n |-> n + 1]
  ELSE IF ~repeat THEN [value |-> W(1), n |-> n + 1]
  ELSE IF Len(lines) < 2 THEN [err |-> "unknown", n |-> n + 1]
  ELSE IF W(2) = <<>> THEN [err |-> "invalid_argument", n |-> n + 2]
  ELSE IF W(1) = W(2) THEN [value |-> W(1), n |-> n + 2]
  ELSE Pass(SubSeq(lines, 3, Len(lines)), repeat, n + 2)

Init0 == [m |-> <<Item(0, Top, "none")>>, cur |-> 1]
Ops(s) ==
  IF Part = 1
  THEN [n : {"add"}, a : {<<p, nm, k>> : p \in IF Len(s.m) <= MaxItems THEN DOMAIN s.m ELSE {}, nm \in Names, k \in Kinds}]
       \cup [n : {"run"}, a : {<<l>> : l \in Scripts}]
  ELSE [n : {"tok"}, a : {<<t>> : t \in Texts}]
       \cup [n : {"get"}, a : {<<t, e, l>> : t \in {"int", "str"}, e \in {"echo", "quiet"}, l \in Texts}]
       \cup [n : {"eof"}, a : {<<t, e>> : t \in {"int", "str"}, e \in {"echo", "quiet"}}]
       \cup [n : {"pass"}, a : {<<r, l>> : r \in {"once", "repeat"}, l \in Scripts}]
Apply(s, o) ==
  CASE o.n = "add" ->
         LET p == o.a[1]  nm == o.a[2] IN
         IF nm = <<>> \/ \E i \in DOMAIN s.m : s.m[i].p = p /\ s.m[i].n = nm THEN [s |-> s, r |-> [err |-> "invalid_argument"]]
         ELSE [s |-> [s EXCEPT !.m = Append([@ EXCEPT ![p].c = Append(@, Len(s.m) + 1)], Item(p, nm, o.a[3]))], r |-> [err |-> "none"]]
    [] o.n = "run" -> LET x == Run(s.m, s.cur, TRUE, o.a[1], <<>>, <<>>) IN [s |-> [s EXCEPT !.cur = x.cur], r |-> x.res]
    [] o.n = "tok" -> [s |-> s, r |-> Split(<<45, 45>> \o o.a[1], <<>>)]
    [] o.n = "get" -> [s |-> s, r |-> [got |-> Get(o.a[1], o.a[3]), during |-> o.a[2] = "echo", after |-> TRUE]]
    [] o.n = "eof" -> [s |-> s, r |-> [got |-> [err |-> "unknown"], during |-> o.a[2] = "echo", after |-> TRUE]]
    [] o.n = "pass" -> LET g == Pass(o.a[2], o.a[1] = "repeat", 0) IN [s |-> s, r |-> [got |-> g, shown |-> FALSE, after |-> TRUE]]
Inv(s) == /\ s.cur \in DOMAIN s.m
          /\ \A i \in DOMAIN s.m : (i = 1 <=> s.m[i].p = 0) /\ s.m[i].p < i /\ \A j \in DOMAIN s.m[i].c : s.m[s.m[i].c[j]].p = i
\* an operation runs once per choice; nothing runs after one which threw
StepInv(s, o, a) ==
  o.n = "run" => /\ Len(a.r.ran) <= Len(o.a[1])
                 /\ \A i \in DOMAIN a.r.ran : s.m[a.r.ran[i]].k \in {"error", "std"} => i = Len(a.r.ran)
                 /\ a.s.m = s.m
=============================================================================
