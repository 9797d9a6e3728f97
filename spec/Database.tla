------------------------------- MODULE Database -------------------------------
(* A database file with a table of keys and values, connections to it from one process, and transactions.   *)
(* "kill" ends the process; the file stays.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Conns, Keys, Vals, Modes
None == <<>>                                   \* no row; the values are not empty
Init0 == [db |-> [k \in Keys |-> None], work |-> [k \in Keys |-> None], tx |-> 0,
          conn |-> [c \in Conns |-> "closed"], obj |-> [c \in Conns |-> "none"], old |-> [c \in Conns |-> FALSE]]
RECURSIVE RowsFrom(_, _)
RowsFrom(d, ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE x \in ks : \A y \in ks : x <= y IN
                   (IF d[k] = None THEN <<>> ELSE <<<<k, d[k]>>>>) \o RowsFrom(d, ks \ {k})
Rows(d) == RowsFrom(d, Keys)
Err(e) == [err |-> e]
Busy(s, c) == s.tx \notin {0, c}
Shown(s, c) == IF s.tx = c THEN s.work ELSE s.db
Changed(s, c, d) == IF s.tx = c THEN [s EXCEPT !.work = d] ELSE [s EXCEPT !.db = d]
Write(s, c, d) == IF s.conn[c] = "r" \/ Busy(s, c) THEN [s |-> s, r |-> Err("db_error")] ELSE [s |-> Changed(s, c, d), r |-> 0]
Rollback(s) == [s EXCEPT !.tx = 0, !.work = [k \in Keys |-> None]]
Committed(s) == [s EXCEPT !.db = s.work, !.tx = 0, !.work = [k \in Keys |-> None]]
Dead(s) == [Init0 EXCEPT !.db = s.db]
Retried == Err("unable_to_handle_request")
\* opening what is there in place of a database: the outcome, whether it opened and whether it made the file
Opened(kind, mode) == kind \in {"empty", "short", "long"} \/ (kind = "missing" /\ mode = "c")
OnFile(kind, mode, what) ==
  <<IF ~Opened(kind, mode) \/ (kind \in {"short", "long"} /\ what # "open") THEN "db_not_present" ELSE "fine",
    Opened(kind, mode), kind = "missing" /\ mode = "c">>
Apply(s, o) ==
  LET c == IF o.a = <<>> \/ o.n = "file" THEN 0 ELSE o.a[1] IN
  CASE o.n = "open" -> [s |-> [s EXCEPT !.conn[c] = o.a[2]], r |-> 0]
    [] o.n = "close" -> [s |-> [s EXCEPT !.conn[c] = "closed"], r |-> 0]
    [] o.n = "begin" -> IF s.tx # 0 THEN [s |-> s, r |-> Retried]
                        ELSE [s |-> [s EXCEPT !.tx = c, !.work = s.db, !.obj[c] = "open", !.old[c] = s.old[c] \/ s.obj[c] = "done"], r |-> 0]
    [] o.n = "forget" -> [s |-> [s EXCEPT !.old[c] = FALSE], r |-> 0]         \* the committed ones go while a later one is open
    [] o.n = "put" -> Write(s, c, [Shown(s, c) EXCEPT ![o.a[2]] = o.a[3]])
    [] o.n = "ins" -> IF Shown(s, c)[o.a[2]] # None THEN [s |-> s, r |-> Err("db_error")]
                      ELSE Write(s, c, [Shown(s, c) EXCEPT ![o.a[2]] = o.a[3]])
    [] o.n = "del" -> Write(s, c, [Shown(s, c) EXCEPT ![o.a[2]] = None])
    [] o.n = "list" -> [s |-> s, r |-> Rows(Shown(s, c))]
    [] o.n = "commit" -> IF s.obj[c] = "open" THEN [s |-> [Committed(s) EXCEPT !.obj[c] = "done"], r |-> 0] ELSE [s |-> s, r |-> Retried]
    [] o.n \in {"drop", "throw"} -> [s |-> IF s.obj[c] = "open" THEN [Rollback(s) EXCEPT !.obj[c] = "none"] ELSE [s EXCEPT !.obj[c] = "none"], r |-> 0]
    [] o.n = "checkpoint" -> [s |-> s, r |-> 0]
    [] o.n = "kill" -> [s |-> Dead(s), r |-> 0]
    [] o.n = "file" -> [s |-> s, r |-> OnFile(o.a[1], o.a[2], o.a[3])]
\* the outcomes the specification allows are more than one: the observed answer r says which
\*   "die" c what n: the process does "what" on connection c and dies at its n-th access to the files, or after it
\*   "fail" c what n: every access to the files from the n-th on fails; then the process dies.  "once": only the n-th one fails
\*   "race" p t: p processes increment the value of the first key t times each, dropping some
ApplySeen(s, o, r) ==
  CASE o.n \in {"die", "fail", "once"} ->
         LET after == IF o.a[2] = "commit" THEN Committed(s) ELSE s
             may == IF r.done THEN {after} ELSE IF o.n # "die" THEN {s} ELSE {s, after}
             fit == {t \in may : ToString(r.rows) = ToString(Rows(t.db))} IN
         IF fit = {} THEN [s |-> s, r |-> [allowed |-> {Rows(t.db) : t \in may}]]
         ELSE [s |-> Dead(CHOOSE t \in fit : TRUE), r |-> r]
    [] o.n = "race" ->
         [s |-> s, r |-> [commits |-> r.commits, final |-> r.commits, seen |-> "increasing"]]
    [] OTHER -> Apply(s, o)
Open(s, c) == s.conn[c] # "closed"
Ops(s) ==
  LET A == {c \in Conns : Open(s, c)} IN
  {[n |-> "open", a |-> <<c, m>>] : c \in Conns \ A, m \in Modes}
  \cup [n : {"close"}, a : {<<c>> : c \in {d \in A : s.obj[d] = "none" /\ ~s.old[d]}}]
  \cup [n : {"begin"}, a : {<<c>> : c \in {d \in A : s.obj[d] # "open" /\ s.conn[d] = "w"}}]
  \cup [n : {"forget"}, a : {<<c>> : c \in {d \in A : s.old[d]}}]
  \cup [n : {"put", "ins"}, a : A \X Keys \X Vals]
  \cup [n : {"del"}, a : A \X Keys]
  \cup [n : {"list", "checkpoint"}, a : {<<c>> : c \in A}]
  \cup [n : {"commit", "drop", "throw"}, a : {<<c>> : c \in {d \in A : s.obj[d] # "none"}}]
  \cup [n : {"kill"}, a : {<<>>}]
  \cup [n : {"file"}, a : IF Conns # {} THEN {} ELSE
        {f \in {"missing", "empty", "short", "long", "folder"} \X {"r", "w", "c"} \X {"open", "begin", "select"} : ~(f[2] = "r" /\ f[3] = "begin")}]
Inv(s) == /\ s.tx # 0 => s.obj[s.tx] = "open" /\ s.conn[s.tx] = "w"
          /\ Cardinality({c \in Conns : s.obj[c] = "open"}) <= 1
\* only a commit, or a write outside a transaction, changes what others read
StepInv(s, o, a) == /\ (o.n \notin {"commit", "put", "ins", "del"} => a.s.db = s.db)
                    /\ (o.n \in {"put", "ins", "del"} /\ s.tx # 0 => a.s.db = s.db)
                    /\ (o.n = "commit" /\ a.s.db # s.db => a.s.db = s.work)
=============================================================================
