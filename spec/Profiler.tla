------------------------------- MODULE Profiler -------------------------------
(* Uses of places in the source are counted and timed, and reported when the program ends.                 *)
(* Durations are <<seconds, milliseconds, microseconds, nanoseconds>>; texts are lists of bytes.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Files, Lines, Functions, Durations, MaxUses
Slash(t) == [i \in DOMAIN t |-> IF t[i] = 92 THEN 47 ELSE t[i]]
Project == <<109, 97, 105, 100, 115, 97, 102, 101>>                         \* "maidsafe"
At(t, i) == i + 7 <= Len(t) /\ SubSeq(t, i, i + 7) = Project
\* the part of the path below the last "maidsafe", unless the path begins with it
Below(t) == IF \E i \in DOMAIN t : At(t, i) THEN
              LET i == CHOOSE j \in DOMAIN t : At(t, j) /\ \A k \in (j + 1)..Len(t) : ~At(t, k) IN
              IF i = 1 THEN t ELSE SubSeq(t, i + 9, Len(t))
            ELSE t
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Place(f, l, g) == Below(Slash(f)) \o <<58>> \o Dec(l) \o <<93, 32>> \o g
Add(x, y) == LET n == x[4] + y[4]  u == x[3] + y[3] + n \div 1000  m == x[2] + y[2] + u \div 1000 IN
             <<x[1] + y[1] + m \div 1000, m % 1000, u % 1000, n % 1000>>
Times(x, k) == LET RECURSIVE T(_)
                   T(i) == IF i = 0 THEN <<0, 0, 0, 0>> ELSE Add(T(i - 1), x) IN T(k)
Div(x, k) == LET m == ((x[1] % k) * 1000) + x[2]
                 u == ((m % k) * 1000) + x[3]
                 n == ((u % k) * 1000) + x[4] IN <<x[1] \div k, m \div k, u \div k, n \div k>>
\* state: a sequence of [place, count, total], by place
RECURSIVE Before(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE IF a[1] = b[1] THEN Before(Tail(a), Tail(b)) ELSE a[1] < b[1]
Init0 == <<>>
RECURSIVE Put(_, _)
Put(s, e) == IF s = <<>> THEN <<e>>
             ELSE IF s[1].place = e.place THEN <<[s[1] EXCEPT !.count = @ + e.count, !.total = Add(@, e.total)]>> \o Tail(s)
             ELSE IF Before(e.place, s[1].place) THEN <<e>> \o s
             ELSE <<s[1]>> \o Put(Tail(s), e)
RECURSIVE Less(_, _, _)
Less(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Less(a, b, i + 1)
Key(k, e) == CASE k = "calls" -> <<e.count>> [] k = "average" -> Div(e.total, e.count) [] k = "total" -> e.total
\* sorted downwards by a key, equals by place
RECURSIVE Insert(_, _, _)
Insert(k, s, e) == IF s = <<>> THEN <<e>>
                   ELSE IF Less(Key(k, s[1]), Key(k, e), 1) THEN <<e>> \o s ELSE <<s[1]>> \o Insert(k, Tail(s), e)
RECURSIVE Sorted(_, _, _)
Sorted(k, s, acc) == IF s = <<>> THEN acc ELSE Sorted(k, Tail(s), Insert(k, acc, Head(s)))
Line(e) == [place |-> e.place, count |-> e.count, average |-> Div(e.total, e.count), total |-> e.total]
Lines4(s) == [i \in DOMAIN s |-> Line(s[i])]
Reported(s) == <<Lines4(s), Lines4(Sorted("calls", s, <<>>)), Lines4(Sorted("average", s, <<>>)), Lines4(Sorted("total", s, <<>>))>>
Sum(s) == LET RECURSIVE S(_)
              S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + s[i].count IN S(Len(s))
Ops(s) == [n : {"use"}, a : IF Sum(s) < MaxUses THEN Files \X Lines \X Functions \X Durations \X {1, 2} ELSE {}]
          \cup [n : {"report"}, a : {<<>>}]
Apply(s, o) ==
  CASE o.n = "use" -> [s |-> Put(s, [place |-> Place(o.a[1], o.a[2], o.a[3]), count |-> o.a[5], total |-> Times(o.a[4], o.a[5])]), r |-> 0]
    [] o.n = "report" -> [s |-> s, r |-> Reported(s)]
Inv(s) == \A i \in 1..(Len(s) - 1) : Before(s[i].place, s[i + 1].place)
\* every section of the report has every place once
StepInv(s, o, a) == o.n = "report" => \A k \in 1..4 : /\ Len(a.r[k]) = Len(s)
                                                      /\ {a.r[k][i].place : i \in DOMAIN s} = {s[i].place : i \in DOMAIN s}
=============================================================================
