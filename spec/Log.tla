----------------------------------- MODULE Log -----------------------------------
(* What a run of a program which logs writes, and where.  Texts are byte sequences.  A run is                      *)
(*   <<flags, options of the command line, options of the file, values, paths, texts, messages, other arguments>>; *)
(* flags: <<console is a terminal with colours, not asynchronous, no console, colour mode, folder>>; an option:    *)
(* <<project (0: all), value>>; a message: <<thread, level, line, path, text>>, from level 100 on one for tests in *)
(* a colour.  The answer is <<unused arguments, lines on the console, files with their lines>>; a line is          *)
(* <<thread, bytes>>, with 64 for the thread's id and the time; thread 0: a line without them.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Paths, Levels, Values
Init0 == "-"
Names == << <<97,112,105>>, <<99,111,109,109,111,110>>, <<99,114,117,120>>, <<100,114,105,118,101>>, <<101,110,99,114,121,112,116>>, <<108,97,117,110,99,104,101,114>>, <<110,102,115>>, <<112,97,115,115,112,111,114,116>>, <<114,111,117,116,105,110,103>>, <<118,97,117,108,116>>, <<118,97,117,108,116,95,109,97,110,97,103,101,114>> >>
Combined == <<99,111,109,98,105,110,101,100>>
Words == << <<<<118>>, <<118,101,114,98,111,115,101>>, <<107,118,101,114,98,111,115,101>>, <<45,49>>>>, <<<<105>>, <<105,110,102,111>>, <<107,105,110,102,111>>, <<48>>>>, <<<<115>>, <<115,117,99,99,101,115,115>>, <<107,115,117,99,99,101,115,115>>, <<49>>>>, <<<<119>>, <<119,97,114,110,105,110,103>>, <<107,119,97,114,110,105,110,103>>, <<50>>>>, <<<<101>>, <<101,114,114,111,114>>, <<107,101,114,114,111,114>>, <<51>>>>, <<<<97>>, <<97,108,119,97,121,115>>, <<107,97,108,119,97,121,115>>, <<52>>>> >>
Maidsafe == <<109,97,105,100,115,97,102,101>>
Lower(t) == TLCEval([i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]])
All == -1000
LevelOf(t) == LET S == {i \in 1..6 : \E k \in 1..4 : Words[i][k] = Lower(t)} IN IF S = {} THEN All ELSE (CHOOSE i \in S : TRUE) - 2
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Seps == {47, 92}
Seen(t) == {i \in 1..(Len(t) - 7) : SubSeq(t, i, i + 7) = Maidsafe}
Before(t) == SubSeq(t, 1, Max(Seen(t)) - 1)
Found(t) == Seen(t) # {} /\ Max(Seen(t)) + 7 < Len(t)
LastSep(t) == Max({0} \cup {i \in DOMAIN t : t[i] \in Seps})
UpTo(t) == SubSeq(t, 1, LastSep(t) - 1)
\* the directory two above the last "maidsafe": .../<project>/src/maidsafe/...
ProjectIn(t) == IF LastSep(t) = 0 \/ LastSep(UpTo(t)) = 0 THEN <<>>
                ELSE LET q == UpTo(UpTo(t)) IN SubSeq(q, LastSep(q) + 1, Len(q))
Project(t) == LET p == IF Found(t) THEN ProjectIn(Before(t)) ELSE <<>> IN IF p = <<>> THEN Names[2] ELSE p
Slashes(t) == TLCEval([i \in 1..Len(t) |-> IF t[i] = 92 THEN 47 ELSE t[i]])
File(t) == Slashes(IF Found(t) THEN SubSeq(t, Max(Seen(t)) + 9, Len(t)) ELSE t)

Flag(o, i) == o.a[1][i]
Tty(o) == Flag(o, 1) = 1
Mode(o) == IF Flag(o, 4) \in {-1, -2} THEN 1 ELSE Flag(o, 4)
Refused(o) == Flag(o, 4) > 2 \/ Flag(o, 6) = 1                              \* or only asked for help
\* the level of each project with one: the command line is before the file, the project's own before all's
Given(o, p) == LET c == {i \in DOMAIN o.a[2] : o.a[2][i][1] = p}
                   f == {i \in DOMAIN o.a[3] : o.a[3][i][1] = p} IN
               IF c # {} THEN <<o.a[4][o.a[2][CHOOSE i \in c : TRUE][2]]>> ELSE IF f # {} THEN <<o.a[4][o.a[3][CHOOSE i \in f : TRUE][2]]>> ELSE <<>>
Filter(o) == IF Refused(o) THEN {}
             ELSE {<<Names[p], LevelOf((IF Given(o, p) # <<>> THEN Given(o, p) ELSE Given(o, 0))[1])>> :
                    p \in {x \in 1..11 : Given(o, x) # <<>> \/ Given(o, 0) # <<>>}}
Tlog(m) == m[2] >= 100
Admitted(F, o, m) == \E f \in F : f[1] = Project(o.a[5][m[4]]) /\ f[2] <= m[2]
Esc(c) == <<27, 91, 48, 59, 51, c, 109>>
Off == <<27, 91, 109>>
Letter(l) == IF l \in -1..4 THEN <<86, 73, 83, 87, 69, 65>>[l + 2] ELSE 32
Colour(m) == IF Tlog(m) THEN <<0, 49, 50, 51, 54>>[m[2] - 99] ELSE IF m[2] \in -1..3 THEN <<54, 0, 50, 51, 49>>[m[2] + 2] ELSE 0
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
Entry(m) == <<Letter(m[2]), 32, 64>>
Rest(o, m) == <<32>> \o File(o.a[5][m[4]]) \o <<58>> \o Decimal(m[3]) \o <<93, 32>> \o o.a[6][m[5]]
InFile(o, m) == IF Tlog(m) THEN <<0, o.a[6][m[5]]>> ELSE <<m[1], Entry(m) \o Rest(o, m)>>
OnScreen(o, m) ==
  LET c == Tty(o) /\ Colour(m) # 0  l == InFile(o, m) IN
  IF ~c \/ (Mode(o) = 0 /\ ~Tlog(m)) THEN l
  ELSE IF Tlog(m) \/ Mode(o) = 2 THEN <<l[1], Esc(Colour(m)) \o l[2] \o Off>> ELSE <<l[1], Esc(Colour(m)) \o Entry(m) \o Off \o Rest(o, m)>>
Map(S, f(_)) == TLCEval([i \in 1..Len(S) |-> f(S[i])])
Written(o) == LET F == Filter(o) IN SelectSeq(o.a[7], LAMBDA m : Tlog(m) \/ Admitted(F, o, m))
Screen(o) == Map(SelectSeq(Written(o), LAMBDA m : Tlog(m) \/ Flag(o, 3) = 0), LAMBDA m : OnScreen(o, m))
\* a file for every project with a level, and one for all unless there is just one
FileNames(o) == LET F == Filter(o) IN
                IF Refused(o) \/ Flag(o, 5) # 1 THEN {}
                ELSE {f[1] : f \in F} \cup (IF Cardinality(F) = 1 THEN {} ELSE {Combined})
One(o) == Cardinality(Filter(o)) = 1
FileLines(o, n) == Map(SelectSeq(Written(o), LAMBDA m : IF n = Combined THEN TRUE ELSE IF Tlog(m) THEN One(o) ELSE Project(o.a[5][m[4]]) = n),
                       LAMBDA m : InFile(o, m))
Unused(o) == o.a[8] \o (IF Flag(o, 6) = 1 THEN <<<<45, 45, 104, 101, 108, 112>>>> ELSE <<>>)
\* lines of one thread are in order; those of different threads may be in any
Threads(o) == {o.a[7][i][1] : i \in DOMAIN o.a[7]}
ByThread(l, t) == SelectSeq(l, LAMBDA x : x[1] = t)
SameLines(o, have, want) == IF Cardinality(Threads(o)) <= 1 THEN ToString(have) = ToString(want)
                            ELSE Len(have) = Len(want) /\ \A t \in Threads(o) \cup {0} : ToString(ByThread(have, t)) = ToString(ByThread(want, t))
\* what else is on the console: why nothing is logged to files; several threads at once print the parts of a line
Mixed(o) == /\ Flag(o, 2) = 1 /\ Cardinality(Threads(o)) > 1
            /\ (Mode(o) = 1 \/ (Mode(o) = 0 /\ Tty(o) /\ \E i \in DOMAIN o.a[7] : Tlog(o.a[7][i])))
Dated(l) == SelectSeq(l, LAMBDA x : x[1] # 0)
SameScreen(o, have) == Refused(o) \/ Mixed(o) \/ (IF Flag(o, 5) = 2 THEN SameLines(o, Dated(have), Dated(Screen(o))) ELSE SameLines(o, have, Screen(o)))
Files(o) == {<<n, FileLines(o, n)>> : n \in FileNames(o)}
Same(o, r) ==
  /\ ToString(r[1]) = ToString(Unused(o))
  /\ SameScreen(o, r[2])
  /\ {r[3][i][1] : i \in DOMAIN r[3]} = FileNames(o) /\ Len(r[3]) = Cardinality(FileNames(o))
  /\ \A i \in DOMAIN r[3] : SameLines(o, r[3][i][2], FileLines(o, r[3][i][1]))
Apply(s, o) == [s |-> s, r |-> <<Unused(o), Screen(o), Files(o)>>]
ApplySeen(s, o, r) == IF Len(ToString(r)) > 0 /\ DOMAIN r = 1..3 /\ Same(o, r) THEN [s |-> s, r |-> r] ELSE Apply(s, o)

\* one message, one or two options
Run(c, f, v, p, l) == [n |-> "run", a |-> <<<<0, 1, 0, -2, 1, 0>>, c, f, v, <<p>>, <<<<120>>>>, <<<<1, l, 7, 1, 1>>>>, <<>>>>]
Ops(s) == {Run(<<>>, <<>>, <<>>, p, 4) : p \in Paths}
          \cup {Run(<<<<k, 1>>>>, <<>>, <<v>>, p, l) : k \in {0, 2, 9}, v \in Values, p \in Paths, l \in Levels}
          \cup {Run(<<>>, <<<<k, 1>>, <<j, 2>>>>, <<v, w>>, p, l) : k \in {0}, j \in {2}, v \in Values, w \in Values, p \in Paths, l \in Levels}
Inv(s) == TRUE
StepInv(s, o, a) == /\ \A i \in DOMAIN Written(o) : Tlog(Written(o)[i]) \/ \E f \in Filter(o) : f[2] <= Written(o)[i][2]
                    /\ \A x \in Files(o) : Len(x[2]) <= Len(o.a[7])
=============================================================================
