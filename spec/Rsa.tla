----------------------------------- MODULE Rsa -----------------------------------
(* Signatures, ciphertexts and encoded keys in slots, known by where they come from.  Keys are numbers; 0 is a    *)
(* key which was never set, those from 10 on are of other sizes.  Texts are <<bytes, n>> as elsewhere.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Slots, Texts, Keys, Flips
None == [what |-> "none", p |-> <<<<>>, 0>>, k |-> 0, flips |-> {}, dirty |-> "no"]
Init0 == [i \in Slots |-> None]
Total(p) == Len(p[1]) + p[2]
Err(e) == [err |-> e]
Thrown == Err("thrown")
Toggle(S, b) == IF b \in S THEN S \ {b} ELSE S \cup {b}
Intact(x) == x.flips = {} /\ x.dirty = "no"
Made(s, i, w, p, k) == [s |-> [s EXCEPT ![i] = [what |-> w, p |-> p, k |-> k, flips |-> {}, dirty |-> "no"]], r |-> 0]
Fails(s, e) == [s |-> s, r |-> Err(e)]
Apply(s, o) ==
  LET i == o.a[1] IN
  CASE o.n \in {"sign", "signfile"} ->
         LET p == <<o.a[2], o.a[3]>> IN
         IF o.n = "sign" /\ Total(p) = 0 THEN Fails(s, "uninitialised")
         ELSE IF o.a[4] = 0 THEN Fails(s, IF o.n = "sign" THEN "invalid_private_key" ELSE "signing_error")
         ELSE Made(s, i, "sig", p, o.a[4])
    [] o.n \in {"check", "checkfile"} ->
         LET p == <<o.a[2], o.a[3]>> IN
         [s |-> s, r |-> IF s[i].dirty # "no" THEN Err("outside_of_bounds")      \* no signature is of another size
                         ELSE IF s[i].what = "none" \/ (o.n = "check" /\ Total(p) = 0) THEN Err("uninitialised")
                         ELSE IF o.a[4] = 0 THEN Err("invalid_public_key")
                         ELSE Intact(s[i]) /\ s[i].k = o.a[4] /\ s[i].p = p]
    [] o.n = "nofile" -> Fails(s, "invalid_file")
    [] o.n = "seal" -> LET p == <<o.a[2], o.a[3]>> IN
                       IF o.a[4] = 0 THEN Fails(s, "invalid_public_key")
                       ELSE IF Total(p) = 0 THEN Fails(s, "uninitialised") ELSE Made(s, i, "ct", p, o.a[4])
    [] o.n = "open" -> [s |-> s, r |-> IF s[i].what = "ct" /\ Intact(s[i]) /\ s[i].k = o.a[2] THEN s[i].p ELSE Thrown]
    [] o.n = "save" -> IF o.a[3] = 0 THEN Fails(s, IF o.a[2] = "private" THEN "invalid_private_key" ELSE "invalid_public_key")
                       ELSE Made(s, i, o.a[2], <<<<>>, 0>>, o.a[3])
    [] o.n = "load" -> [s |-> s, r |-> IF s[i].what = "none" THEN Err("uninitialised")
                                       ELSE IF s[i].what = o.a[2] /\ Intact(s[i]) THEN <<s[i].k>>
                                       ELSE Err(IF o.a[2] = "private" THEN "invalid_private_key" ELSE "invalid_public_key")]
    [] o.n = "match" -> [s |-> s, r |-> o.a[2] = o.a[3]]
    [] o.n = "valid" -> [s |-> s, r |-> TRUE]
    [] o.n = "flip" -> [s |-> [s EXCEPT ![i].flips = Toggle(@, o.a[2])], r |-> 0]
    [] o.n = "ext" -> [s |-> [s EXCEPT ![i].dirty = "ext"], r |-> 0]
    [] o.n = "cut" -> [s |-> [s EXCEPT ![i].dirty = "cut"], r |-> 0]
    [] o.n = "copy" -> [s |-> [s EXCEPT ![o.a[2]] = s[i]], r |-> 0]
Ops(s) ==
  LET W == {i \in Slots : s[i].what # "none" /\ s[i].dirty = "no"}
      Is(w) == {i \in Slots : s[i].what = w}
      T(i) == Texts \X Keys IN
  {[n |-> x, a |-> <<i, p[1], p[2], k>>] : x \in {"sign", "signfile", "seal"}, i \in {y \in Slots : s[y] = None}, p \in Texts, k \in Keys}
  \cup {[n |-> x, a |-> <<i, p[1], p[2], k>>] : x \in {"check", "checkfile"}, i \in Is("sig") \cup Is("none"), p \in Texts, k \in Keys \cup {10, 11}}
  \cup {[n |-> "open", a |-> <<i, k>>] : i \in Is("ct"), k \in Keys}
  \cup {[n |-> "save", a |-> <<i, w, k>>] : i \in {y \in Slots : s[y] = None}, w \in {"private", "public"}, k \in Keys}
  \cup {[n |-> "load", a |-> <<i, w>>] : i \in Is("private") \cup Is("public") \cup Is("none"), w \in {"private", "public"}}
  \cup {[n |-> "match", a |-> <<w, j, k>>] : w \in {"private", "public"}, j \in Keys \ {0}, k \in Keys \ {0}}
  \cup {[n |-> "nofile", a |-> <<w, k>>] : w \in {"sign", "check"}, k \in Keys \ {0}}
  \cup {[n |-> "valid", a |-> <<k>>] : k \in Keys \ {0}}
  \cup {[n |-> "flip", a |-> <<i, b>>] : i \in {x \in W : s[x].what \in {"sig", "ct"} /\ s[x].flips = {}}, b \in Flips}
  \cup {[n |-> "cut", a |-> <<i, n>>] : i \in {x \in W : s[x].flips = {}}, n \in {1, 100}}
  \cup {[n |-> "ext", a |-> <<i, <<0>>>>] : i \in {x \in W : s[x].what = "sig" /\ s[x].flips = {}}}
Inv(s) == \A i \in Slots : s[i].what # "none" => s[i].k # 0
StepInv(s, o, a) == o.n \notin {"sign", "signfile", "seal", "save", "flip", "cut", "ext", "copy"} => a.s = s
=============================================================================
