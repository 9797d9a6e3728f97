---------------------------------- MODULE Gzip ----------------------------------
(* Compressed texts in slots.  A text is <<bytes, n>>: the bytes, then n times 7.  "dirty" says how a compressed *)
(* text was altered.                                                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Slots, Texts, Levels
None == [p |-> <<<<>>, 0>>, dirty |-> "no", more |-> <<>>]
Init0 == [i \in Slots |-> None]
Total(p) == Len(p[1]) + p[2]
Is(s, i) == Total(s[i].p) > 0
Err(e) == [err |-> e]
Bad == Err("uncompression_error")
\* a long run of one byte needs less space at any level which compresses
Apply(s, o) ==
  LET i == o.a[1] IN
  CASE o.n = "zip" -> IF o.a[4] > 9 THEN [s |-> s, r |-> Err("invalid_argument")]
                      ELSE IF Total(<<o.a[2], o.a[3]>>) = 0 THEN [s |-> s, r |-> Err("uninitialised")]
                      ELSE [s |-> [s EXCEPT ![i] = [p |-> <<o.a[2], o.a[3]>>, dirty |-> "no", more |-> <<>>]], r |-> 0]
    [] o.n = "unzip" -> [s |-> s, r |-> IF ~Is(s, i) THEN Err("uninitialised") ELSE IF s[i].dirty = "no" THEN s[i].p ELSE Bad]
    [] o.n = "flip" -> [s |-> [s EXCEPT ![i].dirty = "flip"], r |-> 0]
    [] o.n = "cut" -> [s |-> [s EXCEPT ![i].dirty = "cut"], r |-> 0]
    [] o.n = "ext" -> [s |-> [s EXCEPT ![i].dirty = "ext", ![i].more = o.a[2]], r |-> 0]
\* An alteration is noticed or harmless; a missing end is always noticed.
\* Known finding: bytes after the end may be handed out after the text.
Followed(x) == <<x.p[1] \o [k \in 1..x.p[2] |-> 7] \o x.more, 0>>
May(x) == (IF x.dirty \in {"flip", "ext"} THEN {x.p} ELSE {}) \cup (IF x.dirty = "ext" THEN {Followed(x)} ELSE {})
ApplySeen(s, o, r) ==
  IF o.n = "unzip" /\ Is(s, o.a[1]) /\ \E t \in May(s[o.a[1]]) : ToString(r) = ToString(t)
  THEN [s |-> s, r |-> r] ELSE Apply(s, o)
Ops(s) ==
  LET A == {i \in Slots : Is(s, i) /\ s[i].dirty = "no"} IN
  {[n |-> "zip", a |-> <<i, p[1], p[2], l>>] : i \in Slots, p \in Texts, l \in Levels}
  \cup {[n |-> "unzip", a |-> <<i>>] : i \in Slots}
  \cup {[n |-> "cut", a |-> <<i, n>>] : i \in A, n \in {1, 4, 8, 9, 15}}
Inv(s) == TRUE
StepInv(s, o, a) == o.n = "unzip" => a.s = s
=============================================================================
