------------------------------- MODULE TcpConn -------------------------------
(* Two ends, 1 and 2, of a connection which carries messages as frames.  End 1 is an object of the     *)
(* library; end 2 is another, or (Raw) a peer which writes bytes itself: frames, parts of frames,      *)
(* frames which claim to be too large, the end of the stream, a reset.                                 *)
(* ch[x]: the items on their way to end x, in the order sent: numbers of messages, "over" -1,          *)
(* "part" -2.                                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Ends == {1, 2}
Other(x) == 3 - x
OVER == -1
PART == -2
State0(raw) == [raw |-> raw, ch |-> <<(<<>>), <<>>>>, pend |-> {},
                st |-> <<FALSE, FALSE>>,     \* started
                rep |-> <<FALSE, FALSE>>,    \* open when Start returned: must report its end
                tags |-> <<{}, {}>>, set |-> <<FALSE, FALSE>>,   \* which registration of callbacks counts
                want |-> <<FALSE, FALSE>>,   \* Close called
                cb |-> <<"no", "no">>,       \* the closed callback
                in |-> <<0, 0>>,             \* message being delivered
                fin |-> "no",                \* the raw peer's: "fin" end of stream, "rst" reset
                sent |-> <<(<<>>), <<>>>>, got |-> <<(<<>>), <<>>>>]
TInit(cfg) == State0(cfg.raw)

If(c, S) == IF c THEN S ELSE {}
Lib(s, x) == x = 1 \/ ~s.raw
HeadIs(s, x, i) == s.ch[x] # <<>> /\ Head(s.ch[x]) = i
HasFrame(s, x) == s.ch[x] # <<>> /\ Head(s.ch[x]) > 0
\* what makes an end close of itself
Base(s, x) == Lib(s, x) /\ (s.want[x] \/ s.cb[x] # "no" \/ (s.st[x] /\ HeadIs(s, x, OVER)))
Ending(s, x) == \/ Base(s, x) \/ Base(s, Other(x))
                \/ s.raw /\ (s.fin = "rst" \/ (s.fin = "fin" /\ ~HasFrame(s, 1)))

Err(n) == IF n = 0 THEN "outside_of_bounds" ELSE IF n > 1048576 THEN "ipc_message_too_large" ELSE "ok"
\* a: end, message, size
Silent(s) ==
  {[s EXCEPT !.pend = (@ \ {p}) \cup {[p EXCEPT !.ph = "done"]},
             !.ch[Other(p.a[1])] = IF p.r = "ok" THEN Append(@, p.a[2]) ELSE @,
             !.sent[p.a[1]] = IF p.r = "ok" THEN Append(@, p.a[2]) ELSE @] : p \in {q \in s.pend : q.op = "send" /\ q.ph = "call"}}

Put(s, x, i) == [s EXCEPT !.ch[x] = Append(@, i), !.sent[Other(x)] = IF i > 0 THEN Append(@, i) ELSE @]
Step(s, e) ==
  CASE e.e = "call" /\ e.op = "send" ->
         {[s EXCEPT !.pend = @ \cup {[t |-> e.t, op |-> "send", a |-> e.a, ph |-> "call", r |-> Err(e.a[3])]}]}
    [] e.e = "call" /\ e.op = "start" ->   \* a: end, registration
         {[s EXCEPT !.pend = @ \cup {[t |-> e.t, op |-> "start", a |-> e.a, ph |-> "done", r |-> "ok"]},
                    !.st[e.a[1]] = TRUE, !.tags[e.a[1]] = IF s.set[e.a[1]] THEN @ ELSE @ \cup {e.a[2]}]}
    [] e.e = "call" /\ e.op = "close" ->
         {[s EXCEPT !.pend = @ \cup {[t |-> e.t, op |-> "close", a |-> e.a, ph |-> "done", r |-> "ok"]}, !.want[e.a[1]] = TRUE]}
    [] e.e = "ret" ->
         {[s EXCEPT !.pend = @ \ {p},
                    !.rep[p.a[1]] = @ \/ (p.op = "start" /\ ~Ending(s, p.a[1])),
                    !.set[p.a[1]] = @ \/ p.op = "start"] :
            p \in {q \in s.pend : q.t = e.t /\ q.op = e.op /\ q.ph = "done" /\ q.r = e.r}}
    \* what the raw peer writes
    [] e.e = "raw" -> {CASE e.op = "frame" -> Put(s, 1, e.a[1])
                         [] e.op = "over" -> Put(s, 1, OVER)
                         [] e.op = "part" -> Put(s, 1, PART)
                         [] e.op \in {"fin", "rst"} -> [s EXCEPT !.fin = e.op]}
    \* what it has read: the messages in order; r: how the last one ended
    [] e.e = "wire" -> If(/\ IsPrefix(e.a, s.ch[2])
                          /\ e.r \in (IF Ending(s, 1) \/ s.fin # "no" THEN {"whole", "partial"} ELSE {"whole"})
                          /\ (Ending(s, 1) \/ s.fin # "no" \/ e.a = s.ch[2]), {s})
    \* callbacks; a: end, message, registration
    [] e.e = "begin" /\ e.op = "msg" ->
         LET x == e.a[1] IN
         If(/\ s.st[x] /\ s.cb[x] = "no" /\ s.in[x] = 0 /\ HeadIs(s, x, e.a[2]) /\ e.a[2] > 0 /\ e.a[3] \in s.tags[x],
            {[s EXCEPT !.in[x] = e.a[2], !.tags[x] = {e.a[3]}, !.set[x] = TRUE, !.ch[x] = Tail(@), !.got[x] = Append(@, e.a[2])]})
    [] e.e = "done" /\ e.op = "msg" -> If(s.in[e.a[1]] = e.a[2], {[s EXCEPT !.in[e.a[1]] = 0]})
    [] e.e = "begin" /\ e.op = "closed" ->
         LET x == e.a[1] IN
         If(s.st[x] /\ s.cb[x] = "no" /\ s.in[x] = 0 /\ Ending(s, x) /\ e.a[3] \in s.tags[x],
            {[s EXCEPT !.cb[x] = "run", !.tags[x] = {e.a[3]}, !.set[x] = TRUE]})
    [] e.e = "done" /\ e.op = "closed" -> If(s.cb[e.a[1]] = "run", {[s EXCEPT !.cb[e.a[1]] = "done"]})
    \* at rest: what was to be delivered has been, and ends which were to be reported have been
    [] e.e = "quiet" ->
         If(s.pend = {} /\ \A x \in {y \in Ends : Lib(s, y)} :
              /\ s.in[x] = 0 /\ s.cb[x] # "run"
              /\ s.rep[x] => ((Ending(s, x) => s.cb[x] = "done") /\ (~Ending(s, x) => ~HasFrame(s, x))), {s})
    [] e.e = "end" -> If(e.op = "ok", {s})
    [] OTHER -> {}

-----------------------------------------------------------------------------
\* Environment for model checking.
CONSTANT Raw, Deep
Init0 == State0(Raw)
Ev(e, t, op, a, r) == [e |-> e, t |-> t, op |-> op, a |-> a, r |-> r]
Busy(s, t) == \E p \in s.pend : p.t = t
Known(s, x, m) == m \in Range(s.sent[x]) \cup {p.a[2] : p \in {q \in s.pend : q.op = "send"}}
Calls(s) ==
  {Ev("call", 1, "send", <<1, m, 5>>, "") : m \in {1, 2}} \cup If(Deep, {Ev("call", 2, "send", <<1, 3, 5>>, "")})
  \cup {Ev("call", 3, "start", <<1, 1>>, ""), Ev("call", 4, "close", <<1>>, "")} \cup If(Deep \/ Raw, {Ev("call", 4, "start", <<1, 2>>, "")})
  \cup (IF Raw THEN {Ev("raw", 5, "frame", <<m>>, "") : m \in {4, 5}} \cup {Ev("raw", 5, o, <<>>, "") : o \in {"over", "part", "fin", "rst"}}
        ELSE {Ev("call", 5, "send", <<2, m, 5>>, "") : m \in {4}} \cup {Ev("call", 5, "start", <<2, 3>>, ""), Ev("call", 5, "close", <<2>>, "")})
Callbacks(s) ==
  {Ev("begin", 9, "msg", <<x, Head(s.ch[x]), t>>, "") : x \in {y \in Ends : Lib(s, y) /\ s.ch[y] # <<>>}, t \in {1, 2, 3}}
  \cup {Ev("begin", 9, "closed", <<x, 0, t>>, "") : x \in {y \in Ends : Lib(s, y)}, t \in {1, 2, 3}}
  \cup {Ev("done", 9, "msg", <<x, s.in[x]>>, "") : x \in {y \in Ends : s.in[y] # 0}}
  \cup {Ev("done", 9, "closed", <<x>>, "") : x \in {y \in Ends : s.cb[y] = "run"}}
Events(s) == Calls(s) \cup Callbacks(s) \cup {Ev("ret", p.t, p.op, p.a, p.r) : p \in {q \in s.pend : q.ph = "done"}}
Allowed(s, e) ==
  /\ e.e = "call" => /\ ~Busy(s, e.t)
                     /\ e.op = "send" => ~Known(s, e.a[1], e.a[2])
                     /\ e.op = "start" => e.a[2] \notin s.tags[e.a[1]] /\ ~s.set[e.a[1]]
                     /\ e.op = "close" => ~s.want[e.a[1]]
  /\ e.e = "raw" => s.fin = "no" /\ Len(s.ch[1]) < 3 /\ (e.op = "frame" => ~Known(s, 2, e.a[1]))
                    /\ (s.ch[1] # <<>> => Last(s.ch[1]) > 0)
Inv(s) ==
  \A x \in Ends : /\ IsPrefix(s.got[x], s.sent[Other(x)])                \* in order, whole, once
                  /\ s.in[x] # 0 => s.cb[x] = "no"
                  /\ s.set[x] /\ (s.got[x] # <<>> \/ s.cb[x] # "no") => Cardinality(s.tags[x]) = 1
Final(s) == s.pend = {}
\* Once nothing more can happen at the ends, all has arrived or the ends have been reported.
=============================================================================
