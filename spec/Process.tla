-------------------------------- MODULE Process --------------------------------
(* Child processes, command lines and the paths of sibling programs.  Texts are sequences of byte values.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Kids, Words, MaxWords, Others, Exts
Init0 == [k \in Kids |-> "none"]
Quote == 34
Space == 32
Dot == 46
Slash == 47
\* the program in quotes, then the arguments as they are, one space between; empty ones are left out
RECURSIVE Joined(_)
Joined(ws) == IF ws = <<>> THEN <<>>
              ELSE IF Head(ws) = <<>> THEN Joined(Tail(ws))
              ELSE LET r == Joined(Tail(ws)) IN IF r = <<>> THEN Head(ws) ELSE Head(ws) \o <<Space>> \o r
Line(ws) == IF ws = <<>> THEN <<>>
            ELSE (IF ws[1][1] = Quote THEN ws[1] ELSE <<Quote>> \o ws[1] \o <<Quote>>) \o <<Space>> \o Joined(Tail(ws))
\* recovering the arguments of a line
RECURSIVE Split(_, _)
Split(l, w) == IF l = <<>> THEN (IF w = <<>> THEN <<>> ELSE <<w>>)
               ELSE IF Head(l) = Space THEN (IF w = <<>> THEN <<>> ELSE <<w>>) \o Split(Tail(l), <<>>)
               ELSE Split(Tail(l), Append(w, Head(l)))
Recovers(ws) == LET e == CHOOSE k \in 2..Len(Line(ws)) : Line(ws)[k] = Quote /\ \A j \in 2..(k - 1) : Line(ws)[j] # Quote IN
                Split(SubSeq(Line(ws), e + 1, Len(Line(ws))), <<>>) = SelectSeq(Tail(ws), LAMBDA w : w # <<>>)
\* the name beside the running program, with the running program's extension
Last(p) == IF \E i \in DOMAIN p : p[i] = Slash THEN CHOOSE i \in DOMAIN p : p[i] = Slash /\ \A j \in (i + 1)..Len(p) : p[j] # Slash ELSE 0
Stem(p) == LET b == Last(p)
               d == {i \in (b + 1)..Len(p) : p[i] = Dot} IN
           IF d = {} THEN p ELSE SubSeq(p, 1, (CHOOSE i \in d : \A j \in d : j <= i) - 1)
Sibling(p, ext) == Stem(p) \o ext
Apply(s, o) ==
  CASE o.n = "start" -> [s |-> [s EXCEPT ![o.a[1]] = "alive"], r |-> 0]
    [] o.n = "exit" -> [s |-> [s EXCEPT ![o.a[1]] = "exited"], r |-> 0]
    [] o.n = "reap" -> [s |-> [s EXCEPT ![o.a[1]] = "gone"], r |-> 0]
    [] o.n = "drop" -> [s |-> [s EXCEPT ![o.a[1]] = "none"], r |-> 0]
    [] o.n = "running" -> [s |-> s, r |-> CASE o.a[1] = "self" -> TRUE [] o.a[1] = "nobody" -> FALSE
                                            [] o.a[1] = "forbidden" -> [err |-> "invalid_argument"]
                                            [] OTHER -> s[o.a[1]] \in {"alive", "exited"}]
    [] o.n = "pid" -> [s |-> s, r |-> 0]
    [] o.n = "line" -> [s |-> s, r |-> Line(o.a[1])]
    [] o.n = "other" -> [s |-> s, r |-> Sibling(o.a[1], o.a[2])]
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Quoted(w) == w # <<>>
Ops(s) ==
  [n : {"start"}, a : {<<k>> : k \in {x \in Kids : s[x] = "none"}}]
  \cup [n : {"exit"}, a : {<<k>> : k \in {x \in Kids : s[x] = "alive"}}]
  \cup [n : {"reap"}, a : {<<k>> : k \in {x \in Kids : s[x] = "exited"}}]
  \cup [n : {"drop"}, a : {<<k>> : k \in {x \in Kids : s[x] = "gone"}}]
  \cup [n : {"running"}, a : {<<k>> : k \in {x \in Kids : s[x] # "none"} \cup {"self", "nobody", "forbidden"}}]
  \cup [n : {"pid"}, a : {<<0>>, <<1>>, <<2>>}]
  \cup [n : {"line"}, a : {<<ws>> : ws \in {x \in Seqs(Words, MaxWords) : x # <<>> => x[1] # <<>>}}]
  \cup [n : {"other"}, a : Others \X Exts]
Inv(s) == s \in [Kids -> {"none", "alive", "exited", "gone"}]
StepInv(s, o, a) == o.n = "line" /\ o.a[1] # <<>> /\ (\A i \in DOMAIN o.a[1] : \A j \in DOMAIN o.a[1][i] : o.a[1][i][j] \notin {Space, Quote}) => Recovers(o.a[1])
=============================================================================
