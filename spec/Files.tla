-------------------------------- MODULE Files --------------------------------
(* Reading and writing whole files, and paths given as program options.                                    *)
(* Contents are lists of runs <<byte, count>>.  "d" is a directory or not, "d/x" is below it; "full" is a     *)
(* device which takes nothing, "none" the empty path and "d/" a path without a file name.  "l" is a symbolic   *)
(* link to one of the others, or nothing; a socket stands for what is neither a file nor a directory.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Contents, Caps, Parts
Names == {"a", "d", "d/x"}
Init0 == [n \in Names \cup {"l"} |-> [k |-> "none", c |-> <<>>, locked |-> FALSE]]
RECURSIVE Len0(_)
Len0(c) == IF c = <<>> THEN 0 ELSE Head(c)[2] + Len0(Tail(c))
File(c) == [k |-> "file", c |-> c, locked |-> FALSE]
Dir == [k |-> "dir", c |-> <<>>, locked |-> FALSE]
Gone == [k |-> "none", c |-> <<>>, locked |-> FALSE]
HasDir(s, p) == p = "d/x" => s["d"].k = "dir"
Sock == [k |-> "socket", c |-> <<>>, locked |-> FALSE]
Real(s, p) == IF p = "l" /\ s["l"].k # "none" THEN s["l"].k ELSE p
Opens(s, p) == p \in Names /\ HasDir(s, p) /\ s[p].k \in {"none", "file", "lost"} /\ ~s[p].locked
\* the outcome of writing when no file may exceed 'cap' bytes
Write(s, p, c, cap) ==
  IF p = "full" THEN [s |-> s, r |-> c = <<>>]
  ELSE IF ~Opens(s, p) THEN [s |-> s, r |-> FALSE]
  ELSE IF cap >= 0 /\ Len0(c) > cap THEN [s |-> [s EXCEPT ![p] = [k |-> "lost", c |-> <<>>, locked |-> FALSE]], r |-> FALSE]
  ELSE [s |-> [s EXCEPT ![p] = File(c)], r |-> TRUE]
Missing == [err |-> "filesystem_io_error"]
\* reading when reads fail after 'cap' bytes
Read(s, p, cap) ==
  IF p \notin Names \/ ~HasDir(s, p) \/ s[p].k # "file" \/ s[p].locked THEN Missing
  ELSE IF cap >= 0 /\ Len0(s[p].c) > cap THEN Missing
  ELSE [ok |-> s[p].c]
\* the path of an option: it must exist, or be created, and be of the kind asked for
Known(s, p) == p \in Names /\ HasDir(s, p) /\ s[p].k # "none"
Made(s, n, dir) ==
  LET p == Real(s, n) IN
  IF Known(s, p) \/ p \notin Names THEN s
  ELSE IF dir THEN IF n = "l" THEN s        \* the link is in the way
                   ELSE IF p = "d/x" /\ s["d"].k = "none" THEN [s EXCEPT !["d"] = Dir, !["d/x"] = Dir]
                   ELSE IF HasDir(s, p) THEN [s EXCEPT ![p] = Dir] ELSE s
  ELSE IF HasDir(s, p) THEN [s EXCEPT ![p] = File(<<>>)] ELSE s
Option(s, p, dir, create) ==
  LET t == IF create THEN Made(s, p, dir) ELSE s IN
  LET q == Real(t, p) IN
  [s |-> t, r |-> IF Known(t, q) /\ t[q].k \in (IF dir THEN {"dir"} ELSE {"file", "lost"}) THEN p ELSE "none"]
Ops(s) ==
  LET L == IF s["l"].k = "none" THEN {} ELSE {"l"}
      W == {"a", "d", "d/x", "full", "none", "d/"} \cup L IN
  [n : {"write"}, a : W \X Contents \X (IF 1 \in Parts THEN Caps ELSE {-1})]
  \cup [n : {"read"}, a : {<<p, k>> : p \in {q \in W \ {"full", "d/"} : Real(s, q) \notin Names \/ s[Real(s, q)].k # "lost"}, k \in IF 1 \in Parts THEN Caps ELSE {}}]
  \cup [n : {"mkdir"}, a : IF s["d"].k = "none" THEN {<<>>} ELSE {}]
  \cup [n : {"remove"}, a : {<<p>> : p \in Names \cup L}]
  \cup [n : {"link"}, a : IF L = {} THEN {<<p>> : p \in {"a", "d/x"}} ELSE {}]
  \cup [n : {"socket"}, a : {<<p>> : p \in {q \in {"a", "d/x"} : HasDir(s, q) /\ s[q].k = "none" /\ 2 \in Parts}}]
  \cup [n : {"lock"}, a : {<<p>> : p \in {q \in Names : HasDir(s, q) /\ s[q].k = "file" /\ s[q].c # <<>> /\ ~s[q].locked /\ 1 \in Parts}}]
  \cup [n : {"option"}, a : IF 2 \in Parts THEN ({"a", "d", "d/x", "none", "absent"} \cup L) \X BOOLEAN \X BOOLEAN ELSE {}]
Apply(s, o) ==
  CASE o.n = "write" -> Write(s, Real(s, o.a[1]), o.a[2], o.a[3])
    [] o.n = "read" -> [s |-> s, r |-> Read(s, Real(s, o.a[1]), o.a[2])]
    [] o.n = "mkdir" -> [s |-> IF s["d"].k = "none" THEN [s EXCEPT !["d"] = Dir] ELSE s, r |-> 0]
    [] o.n = "remove" -> [s |-> IF o.a[1] = "d" THEN [s EXCEPT !["d"] = Gone, !["d/x"] = Gone] ELSE [s EXCEPT ![o.a[1]] = Gone], r |-> 0]
    [] o.n = "lock" -> [s |-> IF s[o.a[1]].k = "file" THEN [s EXCEPT ![o.a[1]].locked = TRUE] ELSE s, r |-> 0]
    [] o.n = "link" -> [s |-> [s EXCEPT !["l"].k = o.a[1]], r |-> 0]
    [] o.n = "socket" -> [s |-> [s EXCEPT ![o.a[1]] = Sock], r |-> 0]
    [] o.n = "option" -> Option(s, o.a[1], o.a[2], o.a[3])
Inv(s) == s["d"].k # "dir" => s["d/x"].k = "none"
\* what a successful write wrote is read back, and a failing one says so
StepInv(s, o, a) == o.n = "write" /\ a.r /\ Real(s, o.a[1]) \in Names => Read(a.s, Real(s, o.a[1]), -1) = [ok |-> o.a[2]]
=============================================================================
