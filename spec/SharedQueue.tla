----------------------------- MODULE SharedQueue -----------------------------
(* A first-in-first-out queue used by several threads: each operation takes effect at one moment     *)
(* between its call and its return.  Results are texts; "none" is a failed non-blocking pop.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Init0 == [q |-> <<>>, pend |-> {}, popped |-> <<>>, pushed |-> <<>>]   \* pend: [t, op, v, lin, r]
TInit(cfg) == Init0

Lin(s, p, q, r) == [s EXCEPT !.q = q, !.pend = (@ \ {p}) \cup {[p EXCEPT !.lin = TRUE, !.r = r]},
                             !.popped = IF Len(q) < Len(s.q) THEN Append(@, Head(s.q)) ELSE @,
                             !.pushed = IF Len(q) > Len(s.q) THEN Append(@, p.v) ELSE @]
Effect(s, p) ==
  CASE p.op = "push"  -> {Lin(s, p, Append(s.q, p.v), "ok")}
    [] p.op = "try"   -> {IF s.q = <<>> THEN Lin(s, p, s.q, "none") ELSE Lin(s, p, Tail(s.q), ToString(Head(s.q)))}
    [] p.op = "wait"  -> IF s.q = <<>> THEN {} ELSE {Lin(s, p, Tail(s.q), ToString(Head(s.q)))}
    [] p.op = "size"  -> {Lin(s, p, s.q, ToString(Len(s.q)))}
    [] p.op = "empty" -> {Lin(s, p, s.q, IF s.q = <<>> THEN "1" ELSE "0")}
Silent(s) == UNION {Effect(s, p) : p \in {x \in s.pend : ~x.lin}}

If(c, S) == IF c THEN S ELSE {}
Step(s, e) ==
  CASE e.e = "call" -> If(~\E p \in s.pend : p.t = e.t,
         {[s EXCEPT !.pend = @ \cup {[t |-> e.t, op |-> e.op, v |-> IF e.op = "push" THEN e.a[1] ELSE 0,
                                      lin |-> FALSE, r |-> ""]}]})
    [] e.e = "ret" -> {[s EXCEPT !.pend = @ \ {p}] :
                         p \in {x \in s.pend : x.t = e.t /\ x.op = e.op /\ x.lin /\ x.r = e.r}}
    \* at rest: only blocking pops are left, and the queue is empty
    [] e.e = "quiet" -> If(s.q = <<>> \/ s.pend = {}, {s}) \cap If(\A p \in s.pend : p.op = "wait" /\ ~p.lin, {s})
    [] e.e = "end" -> If(e.op = "ok" /\ s.pend = {}, {s})
    [] OTHER -> {}

-----------------------------------------------------------------------------
Ev(e, t, op, a, r) == [e |-> e, t |-> t, op |-> op, a |-> a, r |-> r]
Threads == 1..3
Events(s) ==
  {Ev("call", t, "push", <<Len(s.pushed) + Cardinality({p \in s.pend : p.op = "push" /\ ~p.lin}) + 1>>, "") : t \in Threads}
  \cup {Ev("call", t, o, <<>>, "") : t \in Threads, o \in {"try", "wait", "size", "empty"}}
  \cup {Ev("ret", p.t, p.op, <<>>, p.r) : p \in s.pend}
Allowed(s, e) == e.e = "call" /\ e.op = "push" => e.a[1] <= 3
Inv(s) == /\ s.popped \o s.q = s.pushed                       \* everything pushed, once, in order
          /\ \A p \in s.pend : p.lin /\ p.op = "wait" => p.r # "none"
Final(s) == \A p \in s.pend : p.op = "wait"
=============================================================================
