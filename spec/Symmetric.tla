------------------------------- MODULE Symmetric -------------------------------
(* Ciphertexts in slots.  A text is <<bytes, n>>: the bytes, then n times 7.  A key is <<seed, bit>>: the key   *)
(* of the seed with one of its 384 bits inverted (-1: none); seed -1: no key.  What a ciphertext is, is known   *)
(* by where it comes from: the text, the key, the bits inverted since, and whether its size was changed.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Slots, Texts, Keys, Flips
Len2(p) == Len(p[1]) + p[2]
Tag == 16
None == [p |-> <<<<>>, 0>>, k |-> <<-1, -1>>, flips |-> {}, cut |-> 0, ext |-> 0]
Init0 == [i \in Slots |-> None]
Is(s, i) == s[i].k[1] # -1
Size(x) == Len2(x.p) + Tag - x.cut + x.ext
Intact(x) == x.flips = {} /\ x.cut = 0 /\ x.ext = 0
Err(e) == [err |-> e]
NoArg == Err("uninitialised")
Toggle(S, b) == IF b \in S THEN S \ {b} ELSE S \cup {b}
Open(s, i, k) == IF ~Is(s, i) \/ k[1] = -1 THEN NoArg
                 ELSE IF Intact(s[i]) /\ s[i].k = k THEN s[i].p ELSE Err("symmetric_decryption_error")
Apply(s, o) ==
  LET i == o.a[1] IN
  CASE o.n = "enc" -> IF Len2(<<o.a[2], o.a[3]>>) = 0 \/ o.a[4] = -1 THEN [s |-> s, r |-> NoArg]
                      ELSE [s |-> [s EXCEPT ![i] = [None EXCEPT !.p = <<o.a[2], o.a[3]>>, !.k = <<o.a[4], o.a[5]>>]], r |-> 0]
    [] o.n = "flip" -> [s |-> [s EXCEPT ![i].flips = Toggle(@, o.a[2] % (8 * Size(s[i])))], r |-> 0]
    [] o.n = "cut" -> [s |-> [s EXCEPT ![i].cut = @ + o.a[2]], r |-> 0]
    [] o.n = "ext" -> [s |-> [s EXCEPT ![i].ext = @ + Len(o.a[2])], r |-> 0]
    [] o.n = "copy" -> [s |-> [s EXCEPT ![o.a[2]] = s[i]], r |-> 0]
    [] o.n = "same" -> [s |-> s, r |-> s[i] = s[o.a[2]]]                    \* encryption is a function of text and key
    [] o.n = "size" -> [s |-> s, r |-> Size(s[i])]
    [] o.n = "dec" -> [s |-> s, r |-> Open(s, i, <<o.a[2], o.a[3]>>)]
Ops(s) ==
  LET A == {i \in Slots : Is(s, i)}
      W == {i \in A : s[i].cut = 0 /\ s[i].ext = 0} IN
  {[n |-> "enc", a |-> <<i, p[1], p[2], k[1], k[2]>>] : i \in Slots, p \in Texts, k \in Keys}
  \cup {[n |-> "dec", a |-> <<i, k[1], k[2]>>] : i \in Slots, k \in Keys}
  \cup [n : {"flip"}, a : {<<i, b>> : i \in {x \in W : Cardinality(s[x].flips) < 2}, b \in Flips}]
  \cup {[n |-> "cut", a |-> <<i, n>>] : i \in W, n \in {1, 15, 16}}
  \cup {[n |-> "ext", a |-> <<i, e>>] : i \in W, e \in {<<0>>, <<1, 2>>}}
  \cup {[n |-> x, a |-> <<i, j>>] : x \in {"copy", "same"}, i \in W, j \in W}
  \cup {[n |-> "size", a |-> <<i>>] : i \in A}
Inv(s) == \A i \in Slots : Is(s, i) => Size(s[i]) >= 1
\* one key and text opens each ciphertext, and only an unaltered one
StepInv(s, o, a) == o.n = "dec" /\ Is(s, o.a[1]) /\ ToString(a.r) = ToString(s[o.a[1]].p) => Intact(s[o.a[1]]) /\ s[o.a[1]].k = <<o.a[2], o.a[3]>>
=============================================================================
