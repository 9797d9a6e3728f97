---- MODULE IdentityOps ----
(* The functions of identities as a module of the common shape. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Part
I == INSTANCE Identity WITH Small <- {0}
Init0 == 0
Ops(s) == I!IdOps
Apply(s, o) == I!IdApply(s, o)
Inv(s) == I!IdInv(s)
StepInv(s, o, a) == TRUE
====
