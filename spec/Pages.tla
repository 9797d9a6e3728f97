---------------------------------- MODULE Pages ----------------------------------
(* Secret memory: blocks in pages, which are locked against paging.  A block is [id, p1, p2, own]: its first and  *)
(* last page and the thread whose call is using it (0: none).  Blocks of the kind which is only erased have p1 =  *)
(* 0, p2 = -1.  What is seen: calls and returns, memory given out and taken back, pages being locked and unlocked. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* live: blocks handed out; mine: blocks obtained or being given back by a call under way
\* pend: the calls under way, and whether any other was at the same time
Init0 == [live |-> {}, mine |-> {}, locked |-> {}, pend |-> {}]
TInit(cfg) == Init0
If(c, S) == IF c THEN S ELSE {}
PagesOf(b) == b.p1..b.p2
Covered(S) == UNION {PagesOf(b) : b \in S}
Of(S, t) == {b \in S : b.own = t}
Seen(e) == e.a[1]..(e.a[1] + e.a[2] - 1)      \* pages named by an event
Busy(s, t) == \E p \in s.pend : p.t = t
\* with no call under way, exactly the pages with blocks on them are locked
Exact(s) == s.pend = {} => s.locked = Covered(s.live)
Step(s, e) ==
  CASE e.e = "call" ->
         If(~Busy(s, e.t),
            LET q == [s EXCEPT !.pend = {[p EXCEPT !.alone = FALSE] : p \in @} \cup {[t |-> e.t, op |-> e.op, alone |-> @ = {}]}] IN
            IF e.op = "free" THEN {[q EXCEPT !.live = @ \ {b}, !.mine = @ \cup {[b EXCEPT !.own = e.t]}] : b \in {x \in s.live : x.id = e.a[1]}}
            ELSE {q})
    \* memory obtained: no other block is there
    [] e.e = "new" -> If(Busy(s, e.t) /\ ~\E b \in s.live \cup s.mine : b.id = e.a[1],
                         {[s EXCEPT !.mine = @ \cup {[id |-> e.a[1], p1 |-> e.a[2], p2 |-> e.a[3], own |-> e.t]}]})
    [] e.e = "lock" -> If(e.a[2] > 0 /\ Seen(e) \subseteq Covered(Of(s.mine, e.t)), {[s EXCEPT !.locked = @ \cup Seen(e)]})
    \* only once nothing is handed out there, and nothing is left to be read
    [] e.e = "unlock" -> If(/\ e.a[2] > 0 /\ e.r = "zero"
                            /\ Seen(e) \subseteq Covered(Of(s.mine, e.t)) /\ Seen(e) \cap Covered(s.live) = {},
                            {[s EXCEPT !.locked = @ \ Seen(e)]})
    [] e.e = "delete" -> If(e.r = "zero", {[s EXCEPT !.mine = @ \ {b}] : b \in {x \in Of(s.mine, e.t) : x.id = e.a[1]}})
    [] e.e = "ret" ->
         LET b == Of(s.mine, e.t)
             q == [s EXCEPT !.pend = {p \in @ : p.t # e.t}, !.mine = @ \ b, !.live = @ \cup {[x EXCEPT !.own = 0] : x \in b}] IN
         If(/\ \E p \in s.pend : p.t = e.t /\ p.op = e.op
            /\ Cardinality(b) = (IF e.op = "alloc" /\ e.r = "ok" THEN 1 ELSE 0)
            /\ Covered(b) \subseteq s.locked
            /\ Exact(q)
            /\ e.op = "count" /\ (\E p \in s.pend : p.t = e.t /\ p.alone) => e.a[1] = Cardinality(s.locked), {q})
    \* a string in use within a call
    [] e.e = "use" -> If(Covered(Of(s.mine, e.t)) \subseteq s.locked, {s})
    [] e.e = "quiet" -> If(s.pend = {} /\ Exact(s), {s})
    [] e.e = "end" -> If(e.op = "ok" /\ s.pend = {}, {s})
    [] OTHER -> {}
Silent(s) == {}

-----------------------------------------------------------------------------
Ev(e, t, op, a, r) == [e |-> e, t |-> t, op |-> op, a |-> a, r |-> r]
Threads == 1..2
Blocks == {<<1, 0, 0>>, <<2, 0, 1>>, <<3, 1, 1>>, <<4, 0, -1>>}
Ids(S) == {b.id : b \in S}
Events(s) ==
  {Ev("call", t, "alloc", <<>>, "") : t \in Threads}
  \cup {Ev("call", t, "free", <<b.id>>, "") : t \in Threads, b \in s.live}
  \cup {Ev("new", p.t, "", b, "") : p \in {x \in s.pend : x.op = "alloc"}, b \in Blocks}
  \cup {Ev(x, p.t, "", <<n, 1>>, "zero") : x \in {"lock", "unlock"}, p \in s.pend, n \in 0..1}
  \cup {Ev("delete", b.own, "", <<b.id>>, "zero") : b \in s.mine}
  \cup {Ev("ret", p.t, p.op, <<>>, x) : p \in s.pend, x \in {"ok", "bad_alloc"}}
\* what an implementation with a count for each page does: a call obtains or returns one block, and locks or
\* unlocks a page while no other block of a live or unfinished allocation is on it
Freeing(s, t) == \E p \in s.pend : p.t = t /\ p.op = "free"
Allowed(s, e) ==
  CASE e.e = "new" -> Of(s.mine, e.t) = {}
    [] e.e = "lock" -> ~Freeing(s, e.t) /\ e.a[1] \notin s.locked
    [] e.e = "unlock" -> Freeing(s, e.t) /\ e.a[1] \in s.locked /\ e.a[1] \notin Covered({b \in s.mine : b.own # e.t})
    [] e.e = "delete" -> /\ Freeing(s, e.t)
                         /\ \A b \in Of(s.mine, e.t) : \A n \in PagesOf(b) \cap s.locked : n \in Covered(s.live \cup {x \in s.mine : x.own # e.t})
    [] OTHER -> TRUE
Inv(s) == /\ \A b \in s.live : PagesOf(b) \subseteq s.locked
          /\ \A b, c \in s.live \cup s.mine : b.id = c.id => b = c
          /\ Exact(s)
Final(s) == s.pend = {}
=============================================================================
