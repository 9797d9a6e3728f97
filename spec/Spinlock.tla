------------------------------- MODULE Spinlock -------------------------------
(* Locks used by several threads.  A thread calls for a lock, enters the section, leaves it and is done.    *)
(* Each lock protects a number which every section reads when it enters and raises by one.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Locks == 1..2
Init0 == [held |-> [l \in Locks |-> 0], n |-> [l \in Locks |-> 0], want |-> {}, out |-> {}]
TInit(cfg) == Init0
Silent(s) == {}
If(c, S) == IF c THEN S ELSE {}
Holds(s, t) == \E l \in Locks : s.held[l] = t
Step(s, e) ==
  LET l == IF e.a = <<>> THEN 1 ELSE e.a[1] IN
  CASE e.e = "call" -> If(~\E w \in s.want : w[1] = e.t, {[s EXCEPT !.want = @ \cup {<<e.t, l>>}]})
    [] e.e = "enter" -> If(<<e.t, l>> \in s.want /\ s.held[l] = 0 /\ e.r = ToString(s.n[l]),
                           {[s EXCEPT !.want = @ \ {<<e.t, l>>}, !.held[l] = e.t]})
    [] e.e = "leave" -> If(s.held[l] = e.t, {[s EXCEPT !.held[l] = 0, !.n[l] = @ + 1]})
    [] e.e = "end" -> If(e.op = "ok" /\ s.want = {} /\ \A k \in Locks : s.held[k] = 0, {s})
    [] OTHER -> {}
-----------------------------------------------------------------------------
Ev(e, t, l, r) == [e |-> e, t |-> t, op |-> "lock", a |-> <<l>>, r |-> r]
Threads == 1..3
\* locks are taken in order, so that no two threads wait for each other
Events(s) == {Ev("call", t, l, "") : t \in Threads, l \in Locks} \cup {Ev("leave", t, l, "") : t \in Threads, l \in Locks}
             \cup {Ev("enter", t, l, ToString(s.n[l])) : t \in Threads, l \in Locks}
Allowed(s, e) == e.e = "call" => /\ \A k \in Locks : s.held[k] = e.t => k < e.a[1]
                                 /\ s.n[e.a[1]] + Cardinality({w \in s.want : w[2] = e.a[1]}) + (IF s.held[e.a[1]] = 0 THEN 0 ELSE 1) < 3
Inv(s) == \A w \in s.want : ~\E l \in Locks : s.held[l] = w[1] /\ l >= w[2]
Final(s) == s.want = {} /\ \A k \in Locks : s.held[k] = 0
=============================================================================
