------------------------------- MODULE IoPool -------------------------------
(* A pool of n threads which runs the handlers posted to it, each once.  Stop waits until everything *)
(* posted before it, and by the handlers of that, has run; a handler can't stop its own pool.     *)
(* Events of clients have thread numbers below 100, those of pool threads above.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

State0(n) == [n |-> n, up |-> "no", q |-> {}, run |-> {}, done |-> {}, must |-> {}, thr |-> {},
              pend |-> {},          \* calls in progress: [t, op, id, ph, r]
              zero |-> FALSE,       \* whether the reported number of threads is 0
              stops |-> 0]          \* stops (or destruction) begun by clients
TInit(cfg) == State0(cfg[1])

If(c, S) == IF c THEN S ELSE {}
End(s, p, r) == [s EXCEPT !.pend = (@ \ {p}) \cup {[p EXCEPT !.ph = "done", !.r = r]}]
Pool(t) == t > 100
Effect(s, p) ==
  CASE p.op = "post" -> {End([s EXCEPT !.q = @ \cup {p.id}, !.must = IF \E r \in s.run : r[1] = p.t /\ r[2] \in s.must THEN @ \cup {p.id} ELSE @], p, "ok")}
    [] p.op = "count" -> {End(s, p, ToString(IF s.zero THEN 0 ELSE s.n))}
    [] p.op \in {"stop", "destroy"} ->
         If(Pool(p.t), {End(s, p, "cannot_invoke_from_this_thread")})
         \cup If(~Pool(p.t) /\ ~s.zero, {[s EXCEPT !.zero = TRUE]})
         \cup If(~Pool(p.t) /\ s.zero /\ s.run = {} /\ s.must \subseteq s.done, {End([s EXCEPT !.up = "stopped", !.q = {}], p, "ok")})
\* What a client posts while the pool is being stopped may be forgotten.
Forget(s) == If(s.stops > 0, {[s EXCEPT !.q = @ \ {x}] : x \in s.q \ s.must})
Silent(s) == UNION {Effect(s, p) : p \in {x \in s.pend : x.ph = "call"}} \cup Forget(s)

Step(s, e) ==
  CASE e.e = "new" -> If(s.up = "no" /\ e.r = (IF s.n = 0 THEN "invalid_argument" ELSE "ok"),
                         {[s EXCEPT !.up = IF s.n = 0 THEN "gone" ELSE "yes"]})
    [] e.e = "call" ->
         If(~\E p \in s.pend : p.t = e.t,
            {[s EXCEPT !.pend = @ \cup {[t |-> e.t, op |-> e.op, id |-> IF e.op = "post" THEN e.a[1] ELSE 0, ph |-> "call", r |-> ""]},
                       !.stops = IF e.op \in {"stop", "destroy"} /\ ~Pool(e.t) THEN @ + 1 ELSE @]})
    [] e.e = "ret" ->
         {[s EXCEPT !.pend = @ \ {p},
                    !.must = IF p.op = "post" /\ s.stops = 0 THEN @ \cup {p.id} ELSE @,
                    !.up = IF p.op = "destroy" THEN "gone" ELSE @] :
            p \in {x \in s.pend : x.t = e.t /\ x.op = e.op /\ x.ph = "done" /\ x.r = e.r}}
    [] e.e = "begin" ->
         If(s.up = "yes" /\ Pool(e.t) /\ e.a[1] \in s.q /\ ~\E r \in s.run : r[1] = e.t /\ Cardinality(s.thr \cup {e.t}) <= s.n,
            {[s EXCEPT !.q = @ \ {e.a[1]}, !.run = @ \cup {<<e.t, e.a[1]>>}, !.thr = @ \cup {e.t}]})
    [] e.e = "done" ->
         If(<<e.t, e.a[1]>> \in s.run /\ ~\E p \in s.pend : p.t = e.t,
            {[s EXCEPT !.run = @ \ {<<e.t, e.a[1]>>}, !.done = @ \cup {e.a[1]}]})
    \* at rest: everything has run and nothing is blocked
    [] e.e = "quiet" -> If(s.run = {} /\ s.q = {} /\ s.pend = {}, {s})
    [] e.e = "end" -> If(e.op = "ok" /\ s.up = "gone", {s})
    [] OTHER -> {}

-----------------------------------------------------------------------------
\* Environment for model checking: two posters (1, 2), two stoppers (3, 4), two pool threads; handler 11
\* posts 111, handler 21 tries to stop the pool.
Init0 == [State0(2) EXCEPT !.up = "yes"]
Ev(e, t, op, a, r) == [e |-> e, t |-> t, op |-> op, a |-> a, r |-> r]
Seen(s) == s.q \cup s.done \cup {r[2] : r \in s.run} \cup {p.id : p \in s.pend} \cup s.must
Busy(s, t) == \E p \in s.pend : p.t = t
Events(s) ==
  {Ev("call", t, "post", <<x>>, "") : t \in {1, 2}, x \in {11, 12, 21}}
  \cup {Ev("call", t, "stop", <<>>, "") : t \in {3, 4}} \cup {Ev("call", 3, "count", <<>>, "")}
  \cup {Ev("ret", p.t, p.op, <<>>, p.r) : p \in s.pend}
  \cup {Ev("begin", t, "run", <<x>>, "") : t \in {101, 102}, x \in s.q}
  \cup UNION {IF r[2] = 11 /\ 111 \notin Seen(s) THEN {Ev("call", r[1], "post", <<111>>, "")}
              ELSE {Ev("done", r[1], "run", <<r[2]>>, ""), Ev("call", r[1], "stop", <<>>, "")} : r \in s.run}
Allowed(s, e) ==
  e.e = "call" => /\ ~Busy(s, e.t)
                  /\ e.op = "post" /\ e.t < 100 => e.a[1] \div 10 = e.t /\ e.a[1] \notin Seen(s)
                  /\ e.op = "stop" /\ e.t < 100 => s.stops < 2
                  /\ e.op = "stop" /\ e.t > 100 => <<e.t, 21>> \in s.run
                  /\ e.op = "count" => s.stops > 0
Inv(s) ==
  /\ \A x, y \in s.run : x # y => x[1] # y[1] /\ x[2] # y[2]
  /\ \A x \in s.run : x[2] \notin s.done /\ x[2] \notin s.q
  /\ s.q \cap s.done = {}
  /\ s.up = "stopped" => s.must \subseteq s.done /\ s.run = {} /\ s.zero
  /\ \A p \in s.pend : Pool(p.t) /\ p.op = "stop" => s.up = "yes"
Final(s) == s.stops > 0 /\ s.pend = {}
=============================================================================
