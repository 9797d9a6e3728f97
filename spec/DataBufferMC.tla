---------------------------- MODULE DataBufferMC ----------------------------
(* DataBuffer in a small environment, for model checking. *)
EXTENDS DataBuffer
CONSTANTS Cfg, Threads, Keys, Programs, NGet
\* Programs[t]: the sequence of <<operation, args>> thread t may start with; each also may get NGet times.

Init0 == LET s == [State0(Cfg) EXCEPT !.dst = "no"] IN s @@ [pc |-> [t \in Threads |-> 1], gets |-> [t \in Threads |-> 0]]
Ev(e, t, op, a, r) == [e |-> e, t |-> t, op |-> op, a |-> a, r |-> r]
Idle(s, t) == ~\E p \in s.pend : p.t = t
Calls(s) ==
  {Ev("call", t, Programs[t][s.pc[t]][1], Programs[t][s.pc[t]][2], "") : t \in {u \in Threads : s.pc[u] <= Len(Programs[u])}}
  \cup {Ev("call", t, "get", <<k>>, "") : t \in {u \in Threads : s.gets[u] < NGet}, k \in Keys}
Events(s) ==
  {e \in Calls(s) : Idle(s, e.t)}
  \cup {Ev("ret", p.t, p.op, p.a, p.r) : p \in {x \in s.pend : x.ph = "done"}}
  \cup {Ev("pop", 0, "pop", <<x.k, x.v>>, "") : x \in Range(OnDisk(s))}
Allowed(s, e) == TRUE
Count(s, e, t) == IF e.e # "call" THEN t
                  ELSE IF e.op = "get" THEN [t EXCEPT !.gets[e.t] = @ + 1] ELSE [t EXCEPT !.pc[e.t] = @ + 1]
VARIABLE st
Init == st = Init0
Next == \/ \E e \in Events(st) : \E t \in Step(st, e) : st' = Count(st, e, t)
        \/ st' \in Silent(st)
Stable(s) == Raw(s) = {} /\ ~CanPop(s) /\ \A p \in s.pend : p.ph # "done"
Spec == Init /\ [][Next]_st /\ WF_st(Next)

Held(s, k) == k \in DOMAIN s.cur /\ s.cur[k] # 0
StateInv ==
  /\ MemBytes(st) <= st.maxm /\ DiskBytes(st) <= st.maxd
  /\ \A i, j \in DOMAIN st.mem : i # j => st.mem[i].k # st.mem[j].k
  /\ \A i, j \in DOMAIN st.disk : i # j /\ st.disk[i].k = st.disk[j].k => st.disk[i].st = "x" \/ st.disk[j].st = "x"
  \* a get answers with what was there at some moment of the call
  /\ \A p \in st.pend : p.op = "get" /\ p.ph = "done" => p.r \in p.seen
  \* nothing is lost: the current value of a key can be got, or has been handed over
  /\ \A k \in Keys : Held(st, k) /\ st.cur[k] \notin st.hand => Lookup(st, k) = st.cur[k]
  \* a value is handed over once, and only if current
  /\ \A i \in DOMAIN st.disk : st.disk[i].v \notin st.hand
  \* with a callback nothing stays blocked; without one only what has no room
  /\ Stable(st) => \A p \in st.pend : /\ ~st.pop /\ p.op = "store"
                                      /\ \E i \in DOMAIN st.disk : st.disk[i].st = "s" /\ ~DiskRoom(st, st.disk[i].v)
PopOnce == [][\A e \in {st'.hand \ st.hand} : Cardinality(e) <= 1]_st
=============================================================================
