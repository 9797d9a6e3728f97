---------------------------- MODULE TcpListener ----------------------------
(* Listeners 1 and 2 on the loopback interface: which port each gets, which connections each reports,   *)
(* what is left when it has stopped.  busy: ports others listen on.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

L == {1, 2}
Above == 10
MaxPort == 65535
State0 == [busy |-> {}, up |-> <<"no", "no">>, port |-> <<0, 0>>,
           conn |-> <<{}, {}>>, rep |-> <<{}, {}>>, in |-> <<0, 0>>, pend |-> {}]
TInit(cfg) == State0

If(c, S) == IF c THEN S ELSE {}
Taken(s) == s.busy \cup {s.port[l] : l \in {x \in L : s.up[x] \in {"yes", "stopping"}}}
Free(s, d) == {p \in d..(d + Above) : p <= MaxPort /\ p \notin Taken(s)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

Silent(s) == {}
Step(s, e) ==
  CASE e.e = "busy" -> {[s EXCEPT !.busy = @ \cup {e.a[1]}]}
    \* a: listener, port asked for, port it reports
    [] e.e = "listen" ->
         LET l == e.a[1]  F == Free(s, e.a[2]) IN
         IF F = {} THEN If(e.r = "failed_to_listen", {s})
         ELSE If(e.r = "ok" /\ e.a[3] = Least(F), {[s EXCEPT !.up[l] = "yes", !.port[l] = e.a[3]]})
    [] e.e = "connect" ->   \* a: listener, connection
         LET l == e.a[1] IN
         IF e.r = "ok" THEN If(s.up[l] \in {"yes", "stopping"}, {[s EXCEPT !.conn[l] = @ \cup {e.a[2]}]})
         ELSE If(s.up[l] # "yes", {s})
    [] e.e = "begin" ->
         LET l == e.a[1] IN
         If(s.in[l] = 0 /\ s.up[l] \in {"yes", "stopping"} /\ e.a[2] \in s.conn[l] \ s.rep[l],
            {[s EXCEPT !.in[l] = e.a[2], !.rep[l] = @ \cup {e.a[2]}]})
    [] e.e = "done" -> If(s.in[e.a[1]] = e.a[2], {[s EXCEPT !.in[e.a[1]] = 0]})
    [] e.e = "call" -> {[s EXCEPT !.pend = @ \cup {<<e.t, e.a[1]>>}, !.up[e.a[1]] = IF @ = "yes" THEN "stopping" ELSE @]}
    [] e.e = "ret" -> {[s EXCEPT !.pend = @ \ {p}] : p \in {q \in s.pend : q[1] = e.t}}
    \* at rest: all who connected have been reported, whoever was told to stop has stopped
    [] e.e = "quiet" ->
         If(s.pend = {} /\ \A l \in L : s.in[l] = 0 /\ (s.up[l] = "yes" => s.conn[l] = s.rep[l]),
            {[s EXCEPT !.up = [l \in L |-> IF @[l] = "stopping" THEN "stopped" ELSE @[l]]]})
    \* the connections through which a message of the reported end has arrived
    [] e.e = "live" -> If(Range(e.a) = s.rep[1] \cup s.rep[2], {s})
    [] e.e = "rebind" -> If((e.r = "ok") = (e.a[1] \notin Taken(s)), {s})
    [] e.e = "end" -> If(e.op = "ok", {s})
    [] OTHER -> {}

-----------------------------------------------------------------------------
Ev(e, t, op, a, r) == [e |-> e, t |-> t, op |-> op, a |-> a, r |-> r]
Init0 == State0
Busy(s, t) == \E p \in s.pend : p[1] = t
Events(s) ==
  {Ev("busy", 0, "busy", <<p>>, "") : p \in {100, 65534, 65535}}
  \cup {Ev("listen", 0, "listen", <<l, d, p>>, r) : l \in L, d \in {100, 65534}, p \in {0, 100, 101, 102, 65534, 65535}, r \in {"ok", "failed_to_listen"}}
  \cup {Ev("connect", 1, "connect", <<l, 10 * l + i>>, r) : l \in L, i \in {1, 2}, r \in {"ok", "refused"}}
  \cup {Ev("begin", 9, "new", <<l, i>>, "") : l \in L, i \in s.conn[1] \cup s.conn[2]}
  \cup {Ev("done", 9, "new", <<l, s.in[l]>>, "") : l \in {x \in L : s.in[x] # 0}}
  \cup {Ev("call", t, "stop", <<l>>, "") : t \in {1, 2}, l \in L} \cup {Ev("ret", t, "stop", <<>>, "") : t \in {1, 2}}
  \cup {Ev("quiet", 0, "quiet", <<>>, "")} \cup {Ev("rebind", 0, "rebind", <<p>>, r) : p \in {100, 101}, r \in {"ok", "busy"}}
Allowed(s, e) ==
  CASE e.e = "busy" -> e.a[1] \notin Taken(s) /\ s.up = <<"no", "no">>
    [] e.e = "listen" -> s.up[e.a[1]] = "no" /\ (e.r # "ok" => e.a[3] = 0)
    [] e.e = "connect" -> s.up[e.a[1]] # "no" /\ e.a[2] \notin s.conn[e.a[1]]
    [] e.e = "call" -> ~Busy(s, e.t) /\ s.up[e.a[1]] # "no"
    [] OTHER -> TRUE
Inv(s) ==
  /\ \A l \in L : s.rep[l] \subseteq s.conn[l] /\ (s.in[l] # 0 => s.in[l] \in s.rep[l])
  /\ \A l \in L : s.up[l] \in {"yes", "stopping"} => s.port[l] \in 1..MaxPort /\ s.port[l] \notin s.busy
  /\ s.up[1] \in {"yes", "stopping"} /\ s.up[2] \in {"yes", "stopping"} => s.port[1] # s.port[2]
  /\ \A l \in L : s.up[l] = "stopped" => s.in[l] = 0
Final(s) == TRUE
=============================================================================
