--------------------------------- MODULE Derived ---------------------------------
(* Passwords, hashes and obfuscation from their inputs.  PBKDF2 and the hash functions are not defined here: the   *)
(* last argument of an operation is their value for these inputs by another implementation.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

CONSTANTS Missing
Init0 == "-"
NoArg == [err |-> "uninitialised"]
Data(o) == o.a[4] \o [i \in 1..o.a[5] |-> 7]
\* every byte of the data with the byte of the pad at its position, the pad being repeated
Mixed(d, pad) == TLCEval([i \in 1..Len(d) |-> d[i] ^^ pad[((i - 1) % Len(pad)) + 1]])
Apply(s, o) ==
  [s |-> s,
   r |-> CASE o.n = "derive" -> IF o.a[1] = <<>> \/ o.a[2] = <<>> THEN NoArg ELSE o.a[5]
           [] o.n = "hash" -> o.a[3]
           [] o.n = "obfuscate" -> IF \E i \in 1..3 : o.a[i] = <<>> THEN NoArg ELSE Mixed(Data(o), o.a[6])
           [] o.n = "userkey" -> IF o.a[2] = <<>> \/ o.a[3] = <<>> THEN NoArg ELSE o.a[4]]
Ops(s) == {[n |-> "obfuscate", a |-> <<m[1], m[2], m[3], <<1>>, 0, <<>>>>] : m \in Missing}
Inv(s) == \A d, p \in {<<1>>, <<0, 255, 7>>} : Mixed(Mixed(d, p), p) = d
StepInv(s, o, a) == o.n = "obfuscate" /\ ToString(a.r) # ToString(NoArg) => Mixed(a.r, o.a[6]) = Data(o)
=============================================================================
