----------------------------- MODULE DataBuffer -----------------------------
(* A buffer of values by key.  Stored values go to memory, from where a worker copies them, oldest   *)
(* first, to disk; values which exceed the memory limit go to disk directly.  When memory is full,   *)
(* values which are also on disk leave it.  When the disk is full, either the oldest values on it    *)
(* are handed to a callback (Pop), or the store (or the worker) waits until there is space.          *)
(* Functions of the state give the successors for an observed event (Step) and for the steps which   *)
(* are not observed (Silent).  Keys, values and threads are numbers; sz[v] is the size of value v.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANT Ghost      \* whether to keep the history variables used by the invariants

Worker == 99
State0(cfg) == [mem |-> <<>>,    \* [k, v, st]: st "n" not yet, "s" being, "c" completely on disk
                disk |-> <<>>,   \* [k, v, st, o]: "s" waiting for space, "x" cancelled, "c" on disk; o: who
                maxm |-> cfg.maxm, maxd |-> cfg.maxd, pop |-> cfg.pop, sz |-> cfg.sz,
                wrk |-> [ph |-> "idle", k |-> 0, v |-> 0],
                pend |-> {}, stopped |-> FALSE, wiped |-> FALSE, dst |-> "none", keep |-> cfg.keep,
                hand |-> {}, cur |-> <<>>]
TInit(cfg) == State0(cfg)

Bytes(s, q) == FoldLeft(LAMBDA n, e : n + s.sz[e.v], 0, q)
MemBytes(s) == Bytes(s, s.mem)
OnDisk(s) == SelectSeq(s.disk, LAMBDA e : e.st = "c")
DiskBytes(s) == Bytes(s, OnDisk(s))
DiskRoom(s, v) == DiskBytes(s) + s.sz[v] <= s.maxd
MemRoom(s, v) == MemBytes(s) + s.sz[v] <= s.maxm
InMem(s, k) == \E i \in DOMAIN s.mem : s.mem[i].k = k
MemAt(s, k) == s.mem[CHOOSE i \in DOMAIN s.mem : s.mem[i].k = k]
Live(s, k) == \E i \in DOMAIN s.disk : s.disk[i].k = k /\ s.disk[i].st # "x"
LiveAt(s, k) == s.disk[CHOOSE i \in DOMAIN s.disk : s.disk[i].k = k /\ s.disk[i].st # "x"]
Lookup(s, k) == IF InMem(s, k) THEN MemAt(s, k).v ELSE IF Live(s, k) THEN LiveAt(s, k).v ELSE 0

\* Removing keys ks from memory, and from disk (where a store in progress is cancelled).
DropMem(s, ks) == [s EXCEPT !.mem = SelectSeq(@, LAMBDA e : e.k \notin ks)]
DropDisk(s, ks) ==
  [s EXCEPT !.disk = SelectSeq([i \in DOMAIN s.disk |-> IF s.disk[i].k \in ks /\ s.disk[i].st = "s"
                                                        THEN [s.disk[i] EXCEPT !.st = "x"] ELSE s.disk[i]],
                               LAMBDA e : ~(e.k \in ks /\ e.st = "c"))]

Go(s, p, ph) == [s EXCEPT !.pend = (@ \ {p}) \cup {[p EXCEPT !.ph = ph]}]
End(s, p, r) == [s EXCEPT !.pend = (@ \ {p}) \cup {[p EXCEPT !.ph = "done", !.r = r]}]
Val(v) == IF v = 0 THEN "no_such_element" ELSE ToString(v)
SetCur(s, ks, v) == IF Ghost THEN [s EXCEPT !.cur = [k \in DOMAIN @ \cup ks |-> IF k \in ks THEN v ELSE @[k]]] ELSE s

If(c, S) == IF c THEN S ELSE {}
Ks(p) == {p.a[i] : i \in DOMAIN p.a}
K(p) == p.a[1]
V(p) == p.a[2]
\* A client's unobserved steps.
Client(s, p) ==
  CASE p.ph = "rm1" /\ p.op \in {"store", "del"} ->
         {LET t == SetCur(DropMem(s, {K(p)}), {K(p)}, 0)
              next == IF p.op = "store" THEN Go(t, p, "ins") ELSE End(t, p, "ok")
          IN IF InMem(s, K(p)) /\ MemAt(s, K(p)).st = "n" THEN next ELSE Go(t, p, "rm2")}
    [] p.ph = "rm2" /\ p.op \in {"store", "del"} ->
         {LET t == SetCur(DropDisk(s, {K(p)}), {K(p)}, 0)
          IN IF p.op = "store" THEN Go(t, p, "ins")
             ELSE End(t, p, IF Live(s, K(p)) THEN "ok" ELSE "no_such_element")}
    [] p.op = "delp" /\ p.ph = "rm1" -> {Go(SetCur(DropMem(s, Ks(p)), Ks(p), 0), p, "rm2")}
    [] p.op = "delp" /\ p.ph = "rm2" -> {End(SetCur(DropDisk(s, Ks(p)), Ks(p), 0), p, "ok")}
    [] p.ph \in {"ins", "insw"} /\ s.sz[V(p)] <= s.maxm ->
         If(MemRoom(s, V(p)),
            {End(SetCur([s EXCEPT !.mem = Append(@, [k |-> K(p), v |-> V(p), st |-> "n"])], {K(p)}, V(p)), p, "ok")})
         \cup If(p.ph = "ins" /\ ~MemRoom(s, V(p)), {Go(s, p, "insw")})
         \* having had to wait, it removes something which is also on disk even if there is room meanwhile
         \cup If(p.ph = "insw", {Go([s EXCEPT !.mem = RemoveAt(@, i)], p, "ins") :
                                  i \in {j \in DOMAIN s.mem : s.mem[j].st = "c"}})
    [] p.ph = "ins" /\ s.sz[V(p)] > s.maxd -> {End([s EXCEPT !.stopped = TRUE], p, "cannot_exceed_limit")}
    [] p.ph = "ins" ->
         {Go(SetCur([s EXCEPT !.disk = Append(@, [k |-> K(p), v |-> V(p), st |-> "s", o |-> p.t])], {K(p)}, V(p)), p, "disk")}
    [] p.op = "get" /\ p.ph = "g1" ->
         {IF InMem(s, K(p)) THEN End(s, p, Val(MemAt(s, K(p)).v)) ELSE Go(s, p, "g2")}
    [] p.op = "get" /\ p.ph = "g2" ->
         {End(s, p, IF s.wiped /\ Live(s, K(p)) THEN "gone" ELSE IF Live(s, K(p)) THEN Val(LiveAt(s, K(p)).v) ELSE Val(0))}
    [] p.op = "setm" -> {IF p.a[1] > s.maxd THEN End(s, p, "invalid_argument") ELSE End([s EXCEPT !.maxm = p.a[1]], p, "ok")}
    [] p.op = "setd" -> {IF s.maxm > p.a[1] THEN End(s, p, "invalid_argument") ELSE End([s EXCEPT !.maxd = p.a[1]], p, "ok")}
    [] OTHER -> {}

Oldest(s) == CHOOSE i \in DOMAIN s.mem : s.mem[i].st = "n" /\ \A j \in 1..(i - 1) : s.mem[j].st # "n"
WorkerStart(s) ==
  If(s.wrk.ph = "idle" /\ ~s.stopped /\ \E i \in DOMAIN s.mem : s.mem[i].st = "n",
     {LET i == Oldest(s)  e == s.mem[i]
      IN [s EXCEPT !.mem[i].st = "s", !.wrk = [ph |-> "disk", k |-> e.k, v |-> e.v],
                   !.disk = Append(@, [k |-> e.k, v |-> e.v, st |-> "s", o |-> Worker])]})
WorkerMark(s) ==
  If(s.wrk.ph = "mark",
     {[s EXCEPT !.wrk.ph = "idle",
                !.mem = [i \in DOMAIN @ |-> IF @[i].v = s.wrk.v THEN [@[i] EXCEPT !.st = "c"] ELSE @[i]]]})
\* Whoever waits to put disk entry i there is finished.
Settle(s, o) == IF o = Worker THEN [s EXCEPT !.wrk.ph = "mark"]
                ELSE [s EXCEPT !.pend = {IF p.t = o THEN [p EXCEPT !.ph = "done", !.r = "ok"] ELSE p : p \in @}]
DiskDone(s) ==
  {Settle([s EXCEPT !.disk[i].st = "c", !.disk[i].o = 0], s.disk[i].o) :
     i \in {j \in DOMAIN s.disk : s.disk[j].st = "s" /\ DiskRoom(s, s.disk[j].v)}}
DiskCancel(s) ==
  {Settle([s EXCEPT !.disk = RemoveAt(@, i)], s.disk[i].o) : i \in {j \in DOMAIN s.disk : s.disk[j].st = "x"}}

Raw(s) == IF s.dst = "done" THEN {}
          ELSE UNION {Client(s, p) : p \in s.pend} \cup WorkerStart(s) \cup WorkerMark(s) \cup DiskDone(s) \cup DiskCancel(s)
Track(s) == IF Ghost THEN [s EXCEPT !.pend = {IF p.op = "get" THEN [p EXCEPT !.seen = @ \cup {Val(Lookup(s, K(p)))}] ELSE p : p \in @}]
            ELSE s
Silent(s) == {Track(t) : t \in Raw(s)}

CanPop(s) == /\ s.pop /\ OnDisk(s) # <<>>
             /\ \E i \in DOMAIN s.disk : s.disk[i].st = "s" /\ ~DiskRoom(s, s.disk[i].v)

Start(op) == CASE op \in {"store", "del", "delp"} -> "rm1" [] op = "get" -> "g1" [] OTHER -> "set"
\* Construction with these limits and a directory which can or can't be used.
New(s, a) == IF a[1] > a[2] THEN "invalid_argument" ELSE IF a[3] = 0 THEN "uninitialised" ELSE "ok"
Observed(s, e) ==
  CASE e.e = "new" -> If(s.dst = "none" /\ e.r = New(s, e.a), {[s EXCEPT !.dst = IF e.r = "ok" THEN "no" ELSE "done"]})
    [] e.e = "call" /\ e.op = "destroy" -> If(s.dst = "no", {[s EXCEPT !.dst = "called"]})
    [] e.e = "ret" /\ e.op = "destroy" ->
         If(s.dst = "called" /\ s.pend = {} /\ e.r = (IF s.keep THEN "kept" ELSE "removed"), {[s EXCEPT !.dst = "done"]})
    [] e.e = "call" -> If(s.dst = "no" /\ ~\E p \in s.pend : p.t = e.t,
         {[s EXCEPT !.pend = @ \cup {[t |-> e.t, op |-> e.op, a |-> e.a, ph |-> Start(e.op), r |-> "", seen |-> {}]}]})
    [] e.e = "ret" ->
         {[s EXCEPT !.pend = @ \ {p}] :
            p \in {x \in s.pend : x.t = e.t /\ x.op = e.op /\
                     \/ x.ph = "done" /\ x.r = e.r
                     \* once a value which can't be stored has stopped it, calls just end
                     \/ s.stopped /\ e.r \in {"ok", "filesystem_io_error", "no_such_element", "cannot_exceed_limit", "gone"}}}
    [] e.e = "pop" -> If(CanPop(s) /\ LET x == Head(OnDisk(s)) IN x.k = e.a[1] /\ x.v = e.a[2],
         {[s EXCEPT !.disk = SelectSeq(@, LAMBDA x : ~(x.st = "c" /\ x.v = e.a[2])),
                    !.hand = IF Ghost THEN @ \cup {e.a[2]} ELSE @]})
    \* bytes in files: within the limit, or what was there when the limit was reduced
    [] e.e = "disk" -> If(e.a[1] <= s.maxd \/ e.a[1] <= DiskBytes(s), {s})
    \* at rest: nothing more can happen, and the calls which have not returned are stores without room
    [] e.e = "quiet" -> If(s.stopped /\ s.pend = {}, {s})
                        \cup If(~s.stopped /\ Raw(s) = {} /\ ~CanPop(s) /\ \A p \in s.pend : p.ph # "done", {s})
    \* the values found in files, ordered
    [] e.e = "files" -> If(s.stopped \/ e.a = SetToSortSeq({s.disk[i].v : i \in {j \in DOMAIN s.disk : s.disk[j].st = "c"}}, <), {s})
    [] e.e = "wipe" -> {[s EXCEPT !.wiped = TRUE]}
    [] e.e = "end" -> If(e.op = "ok" /\ s.dst = "done", {s})
    [] OTHER -> {}
Step(s, e) == {Track(t) : t \in Observed(s, e)}
=============================================================================
