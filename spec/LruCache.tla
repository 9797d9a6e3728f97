------------------------------ MODULE LruCache ------------------------------
(* A least-recently-used cache with a capacity (0: none) and a time-to-live (0: none), and the    *)
(* key-only variant of it ("filter").  Entries are kept in order of use, least recent first, each *)
(* with its age since it was added.  Time passes in ticks; ages saturate just above the TTL.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS NKeys, NVals, Cap, TTL, Kind   \* Kind: "cache" or "filter"

Keys == 1..NKeys
Vals == 1..NVals
Init0 == <<>>

Has(s, k) == \E i \in DOMAIN s : s[i].k = k
At(s, k) == CHOOSE i \in DOMAIN s : s[i].k = k
Without(s, k) == SelectSeq(s, LAMBDA e : e.k # k)
Size(s) == Len(s)
Contents(s) == [k \in Keys |-> IF Has(s, k) THEN 1 ELSE 0]

\* Drops, from the least recently used end, the entries older than the TTL up to the first younger.
RECURSIVE Sweep(_)
Sweep(s) == IF TTL > 0 /\ s # <<>> /\ Head(s).age > TTL THEN Sweep(Tail(s)) ELSE s

Obs(s, x) == [res |-> x, size |-> Size(s), has |-> [k \in 1..NKeys |-> Has(s, k)]]

Add(s, k, v) ==
  IF Has(s, k) THEN s
  ELSE LET s1 == IF Cap > 0 /\ Len(s) = Cap THEN Tail(s) ELSE s
       IN Append(Sweep(s1), [k |-> k, v |-> v, age |-> 0])
Touch(s, k) == IF Has(s, k) THEN Append(Without(s, k), s[At(s, k)]) ELSE s
Age(s, n) == [i \in DOMAIN s |-> [s[i] EXCEPT !.age = IF @ + n > TTL + 1 THEN TTL + 1 ELSE @ + n]]

Ops(s) ==
  [n : {"add"}, a : {<<k, v>> : k \in Keys, v \in Vals}]
  \cup (IF Kind = "cache" THEN [n : {"get", "del"}, a : {<<k>> : k \in Keys}] ELSE {})
  \cup (IF TTL > 0 THEN [n : {"tick"}, a : {<<1>>}] ELSE {})

Apply(s, o) ==
  CASE o.n = "add"  -> LET t == Add(s, o.a[1], o.a[2]) IN [s |-> t, r |-> Obs(t, "ok")]
    [] o.n = "get"  -> LET t == Touch(s, o.a[1])
                       IN [s |-> t, r |-> Obs(t, IF Has(s, o.a[1]) THEN ToString(s[At(s, o.a[1])].v)
                                                 ELSE "no_such_element")]
    [] o.n = "del"  -> LET t == Without(s, o.a[1]) IN [s |-> t, r |-> Obs(t, "ok")]
    [] o.n = "tick" -> LET t == Age(s, o.a[1]) IN [s |-> t, r |-> Obs(t, "ok")]

-----------------------------------------------------------------------------
\* The properties, stated on states and transitions.
Inv(s) == /\ Cap > 0 => Len(s) <= Cap
          /\ \A i, j \in DOMAIN s : s[i].k = s[j].k => i = j
KeySet(s) == {s[i].k : i \in DOMAIN s}
Dropped(s, t) == KeySet(s) \ KeySet(t)
StepInv(s, o, a) ==
  LET t == a.s IN
  /\ o.n \in {"get", "tick"} => KeySet(t) = KeySet(s)
  /\ o.n = "del" => KeySet(t) = KeySet(s) \ {o.a[1]}
  /\ o.n = "add" /\ Has(s, o.a[1]) => t = s
  /\ o.n = "add" /\ ~Has(s, o.a[1]) =>
       /\ t[Len(t)].k = o.a[1] /\ t[Len(t)].v = o.a[2]
       \* without expiry exactly the least recently used entry goes, and only when full
       /\ TTL = 0 => Dropped(s, t) = IF Cap > 0 /\ Len(s) = Cap THEN {s[1].k} ELSE {}
       \* an entry within its time-to-live goes only as the least recently used of a full cache
       /\ \A k \in Dropped(s, t) : s[At(s, k)].age > TTL \/ (Cap > 0 /\ Len(s) = Cap /\ k = s[1].k)
       \* the least recently used survivor is not expired
       /\ TTL > 0 => t[1].age <= TTL
  /\ \A i \in DOMAIN t : \A j \in DOMAIN s : (t[i].k = s[j].k) => t[i].v = s[j].v
=============================================================================
