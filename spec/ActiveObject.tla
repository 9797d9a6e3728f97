---------------------------- MODULE ActiveObject ----------------------------
(* An active object runs the functors sent to it one at a time, in the order in which they were      *)
(* accepted, on one thread of its own; its destructor waits for those sent before it began.          *)
(* Functions of the state give the successors for an observed event (Step) and for the steps which   *)
(* are not observed (Silent).                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Init0 == [q |-> <<>>, run |-> 0, worker |-> 0, dst |-> "no",
          pend |-> {},      \* sends in progress: [t, id, in]
          must |-> {},      \* functors whose sending returned before destruction began
          done |-> {}]
TInit(cfg) == Init0

Enqueue(s) == {[s EXCEPT !.q = Append(@, p.id), !.pend = (@ \ {p}) \cup {[p EXCEPT !.in = TRUE]}] :
                 p \in {x \in s.pend : ~x.in /\ s.dst # "done"}}
\* Once destruction has begun, functors which were not sent before may be forgotten.
Refuse(s) == IF s.dst = "no" THEN {}
             ELSE {[s EXCEPT !.pend = (@ \ {p}) \cup {[p EXCEPT !.in = TRUE]}] : p \in {x \in s.pend : ~x.in}}
Forget(s) == IF s.dst = "no" \/ s.q = <<>> THEN {}
             ELSE {[s EXCEPT !.q = RemoveAt(@, i)] : i \in {j \in DOMAIN s.q : s.q[j] \notin s.must}}
Silent(s) == Enqueue(s) \cup Refuse(s) \cup Forget(s)

If(c, S) == IF c THEN S ELSE {}
Step(s, e) ==
  CASE e.e = "call" /\ e.op = "send" ->
         If(~\E p \in s.pend : p.t = e.t, {[s EXCEPT !.pend = @ \cup {[t |-> e.t, id |-> e.a[1], in |-> FALSE]}]})
    [] e.e = "ret" /\ e.op = "send" ->
         {[s EXCEPT !.pend = @ \ {p}, !.must = IF s.dst = "no" THEN @ \cup {e.a[1]} ELSE @] :
            p \in {x \in s.pend : x.t = e.t /\ x.id = e.a[1] /\ x.in}}
    [] e.e = "begin" ->
         If(s.run = 0 /\ s.q # <<>> /\ Head(s.q) = e.a[1] /\ e.t > 100 /\ s.worker \in {0, e.t},
            {[s EXCEPT !.q = Tail(@), !.run = e.a[1], !.worker = e.t]})
    [] e.e = "done" ->
         If(s.run = e.a[1] /\ s.worker = e.t /\ ~\E p \in s.pend : p.t = e.t,
            {[s EXCEPT !.run = 0, !.done = @ \cup {e.a[1]}]})
    [] e.e = "call" /\ e.op = "destroy" -> If(s.dst = "no", {[s EXCEPT !.dst = "called"]})
    [] e.e = "ret" /\ e.op = "destroy" ->
         If(s.dst = "called" /\ s.run = 0 /\ s.must \subseteq s.done, {[s EXCEPT !.dst = "done", !.q = <<>>]})
    \* at rest: nothing is waiting to be run
    [] e.e = "quiet" -> If(s.run = 0 /\ s.q = <<>> /\ s.pend = {}, {s})
    [] e.e = "end" -> If(e.op = "ok" /\ s.dst = "done", {s})
    [] OTHER -> {}

-----------------------------------------------------------------------------
\* Environment for model checking: two senders of two functors each; functor 11 sends functor 111.
Ids == {11, 12, 21, 22}
Sent(s) == {x \in Ids \cup {111} : x \in s.done \cup s.must \cup Range(s.q) \cup {s.run} \cup {p.id : p \in s.pend}}
Ev(e, t, op, a) == [e |-> e, t |-> t, op |-> op, a |-> a, r |-> ""]
NextOf(s, t) == IF ~\E p \in s.pend : p.t = t
                THEN {x \in Ids : x \div 10 = t /\ x \notin Sent(s) /\ (x % 10 = 1 \/ x - 1 \in s.must)} ELSE {}
Events(s) ==
  {Ev("call", t, "send", <<x>>) : t \in {u \in 1..2 : s.dst = "no"}, x \in Ids}
  \cup {Ev("ret", p.t, "send", <<p.id>>) : p \in s.pend}
  \cup {Ev("begin", 101, "run", <<x>>) : x \in Range(s.q)}
  \cup (IF s.run = 0 THEN {} ELSE IF s.run = 11 /\ 111 \notin Sent(s) THEN {Ev("call", 101, "send", <<111>>)}
        ELSE {Ev("done", 101, "run", <<s.run>>)})
  \cup (IF \A t \in 1..2 : NextOf(s, t) = {} /\ ~\E p \in s.pend : p.t = t
        THEN {Ev(x, 0, "destroy", <<>>) : x \in {"call", "ret"}} ELSE {})
Allowed(s, e) == e.op = "send" /\ e.e = "call" /\ e.t < 100 => e.a[1] \in NextOf(s, e.t)
Inv(s) ==
  /\ s.run # 0 => s.run \notin s.done /\ s.run \notin Range(s.q)           \* once
  /\ Cardinality(Range(s.q)) = Len(s.q) /\ Range(s.q) \cap s.done = {}
  /\ \A t \in 1..2 : t * 10 + 2 \in s.done => t * 10 + 1 \in s.done          \* in order
  /\ s.dst = "done" => s.must \subseteq s.done
Final(s) == s.dst = "done"
=============================================================================
