------------------------------- MODULE Statement -------------------------------
(* One prepared statement at a time over a table of texts (unique, never null) and blobs.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Texts, Blobs, MaxRows
Unbound == <<>>
Null == <<>>
Closed == [q |-> "none", b |-> <<>>, run |-> "fresh", left |-> <<>>]
Init0 == [rows |-> <<>>, st |-> Closed]
Params(q) == CASE q = "ins" -> 2 [] q \in {"key", "del", "ge"} -> 1 [] OTHER -> 0
Err == [err |-> "db_error"]
Bad == {"syntax", "notable", "nocolumn"}
Prepared(q) == [q |-> q, b |-> [i \in 1..Params(q) |-> Unbound], run |-> "fresh", left |-> <<>>]
\* texts compare byte by byte; blobs are greater than texts
RECURSIVE Less(_, _)
Less(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE ELSE IF x[1] = y[1] THEN Less(Tail(x), Tail(y)) ELSE x[1] < y[1]
Same(s, t) == {i \in DOMAIN s.rows : s.rows[i][1] = t}
Given(s, i) == s.st.b[i] # Unbound
Pick(s, P(_)) == SelectSeq(s.rows, P)
Result(s) ==
  CASE s.st.q = "all" -> s.rows
    [] s.st.q = "key" -> IF Given(s, 1) /\ s.st.b[1][1] = "text" THEN SelectSeq(s.rows, LAMBDA r : r[1] = s.st.b[1][2]) ELSE <<>>
    [] s.st.q = "ge" -> IF Given(s, 1) /\ s.st.b[1][1] = "text" THEN SelectSeq(s.rows, LAMBDA r : ~Less(r[1], s.st.b[1][2])) ELSE <<>>
    [] OTHER -> <<>>
Fits(s) == /\ Given(s, 1)
           /\ ~\E r \in 1..Len(s.rows) : s.st.b[1][1] = "text" /\ s.rows[r][1] = s.st.b[1][2]
Value(b) == IF b = Unbound THEN Null ELSE b[2]
Step(s) ==
  IF s.st.run = "fresh" THEN
    CASE s.st.q = "ins" -> IF Fits(s) THEN [s |-> [s EXCEPT !.rows = Append(@, <<Value(s.st.b[1]), Value(s.st.b[2])>>), !.st.run = "done"], r |-> "done"]
                           ELSE [s |-> [s EXCEPT !.st.run = "failed"], r |-> Err]
      [] s.st.q = "del" -> [s |-> [s EXCEPT !.rows = IF Given(s, 1) /\ s.st.b[1][1] = "text" THEN SelectSeq(@, LAMBDA r : r[1] # s.st.b[1][2]) ELSE @,
                                            !.st.run = "done"], r |-> "done"]
      [] OTHER -> LET l == Result(s) IN
                  IF l = <<>> THEN [s |-> [s EXCEPT !.st.run = "done"], r |-> "done"]
                  ELSE [s |-> [s EXCEPT !.st.run = "rows", !.st.left = Tail(l)], r |-> [row |-> l[1]]]
  ELSE IF s.st.left = <<>> THEN [s |-> [s EXCEPT !.st.run = "done"], r |-> "done"]
  ELSE [s |-> [s EXCEPT !.st.left = Tail(@)], r |-> [row |-> s.st.left[1]]]
Apply(s, o) ==
  CASE o.n = "prep" -> IF o.a[1] \in Bad THEN [s |-> [s EXCEPT !.st = Closed], r |-> Err] ELSE [s |-> [s EXCEPT !.st = Prepared(o.a[1])], r |-> 0]
    [] o.n = "bind" -> IF s.st.run # "fresh" \/ o.a[1] \notin 1..Params(s.st.q) THEN [s |-> s, r |-> Err]
                       ELSE [s |-> [s EXCEPT !.st.b[o.a[1]] = <<o.a[2], o.a[3]>>], r |-> 0]
    [] o.n = "step" -> Step(s)
    [] o.n = "more" -> IF s.st.run = "rows" THEN Step(s) ELSE [s |-> s, r |-> 0]   \* a step if there is a row
    [] o.n = "again" -> [s |-> [s EXCEPT !.st.run = "fresh", !.st.left = <<>>], r |-> 0]
    [] o.n = "dump" -> [s |-> s, r |-> s.rows]                              \* by a statement of another connection
Ops(s) ==
  [n : {"prep"}, a : {<<q>> : q \in {"ins", "all", "key", "ge", "del"} \cup Bad}]
  \cup [n : {"dump"}, a : {<<>>}]
  \cup (IF s.st.q = "none" THEN {} ELSE
        [n : {"bind"}, a : ({0, 1, 2, 3} \X {"text"} \X Texts) \cup ({2} \X {"blob"} \X Blobs)]
        \cup [n : {"step"}, a : IF s.st.run \in {"fresh", "rows"} /\ (s.st.q = "ins" => Len(s.rows) < MaxRows) THEN {<<>>} ELSE {}]
        \cup [n : {"again"}, a : {<<>>}])
Inv(s) == \A i, j \in DOMAIN s.rows : i # j => s.rows[i][1] # s.rows[j][1]
StepInv(s, o, a) == /\ o.n # "step" => a.s.rows = s.rows
                    /\ a.s.st.run = "failed" => a.s.rows = s.rows
=============================================================================
