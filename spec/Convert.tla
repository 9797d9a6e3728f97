------------------------------ MODULE Convert ------------------------------
(* Conversions between the two kinds of addresses, of error codes and of texts keep what they convert.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ips, Ports, Codes, Texts
Init0 == "-"
Ops(s) == [n : {"ends"}, a : {<<i[1], i[2], p>> : i \in Ips, p \in Ports}]
          \cup [n : {"code"}, a : {<<c>> : c \in Codes}]
          \cup [n : {"text"}, a : {<<t>> : t \in Texts}]
Apply(s, o) == [s |-> s, r |-> CASE o.n = "ends" -> [ip |-> o.a[1], scope |-> o.a[2], port |-> o.a[3]]
                                 [] o.n \in {"code", "text"} -> o.a[1]]
Inv(s) == TRUE
StepInv(s, o, a) == TRUE
=============================================================================
