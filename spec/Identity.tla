------------------------------ MODULE Identity ------------------------------
(* 64-byte identities: the XOR metric and the encodings.  Identities are given either in full or as      *)
(* <<k, x, seed>>: base(i) for i <= k, then x, then numbers derived from seed.  <<>>: uninitialised.     *)
EXTENDS Encoding

CONSTANT Part     \* 1: distances, 2: encodings
Size == 64
Base(i) == (i * 37) % 256
Full(a) == IF Len(a) # 3 THEN a
           ELSE [i \in 1..Size |-> IF i <= a[1] THEN Base(i) ELSE IF i = a[1] + 1 THEN a[2] ELSE (a[3] * i * 91 + a[3] + i) % 256]
RECURSIVE XorN(_, _, _)
XorN(a, b, n) == IF n = 0 THEN 0 ELSE ((a + b) % 2) + 2 * XorN(a \div 2, b \div 2, n - 1)
Xor8(a, b) == XorN(a, b, 8)
Differ(a, b) == {i \in 1..Size : a[i] # b[i]}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
RECURSIVE Lead(_)    \* leading zero bits of a byte
Lead(v) == IF v >= 128 THEN 0 ELSE IF v = 0 THEN 8 ELSE 1 + Lead(2 * v)
Common(a, b) == IF a = b THEN 8 * Size ELSE LET i == First(Differ(a, b)) IN 8 * (i - 1) + Lead(Xor8(a[i], b[i]))
\* a XOR t < b XOR t: at the first byte where a and b differ
Closer(a, b, t) == a # b /\ LET i == First(Differ(a, b)) IN Xor8(a[i], t[i]) < Xor8(b[i], t[i])

Bits(v) == [i \in 1..8 |-> 48 + ((v \div (2^(8 - i))) % 2)]
BinEnc(a) == [i \in 1..(8 * Size) |-> Bits(a[(i + 7) \div 8])[((i - 1) % 8) + 1]]
BinDec(c) == IF Len(c) # 8 * Size \/ \E i \in DOMAIN c : c[i] \notin {48, 49} THEN [err |-> "invalid_identity"]
             ELSE [b |-> [k \in 1..Size |-> LET q == 8 * (k - 1) IN 128 * (c[q + 1] - 48) + 64 * (c[q + 2] - 48) + 32 * (c[q + 3] - 48) + 16 * (c[q + 4] - 48)
                                              + 8 * (c[q + 5] - 48) + 4 * (c[q + 6] - 48) + 2 * (c[q + 7] - 48) + (c[q + 8] - 48)]]
Sized(d) == IF "err" \in DOMAIN d \/ Len(d.b) # Size THEN [err |-> "invalid_identity"] ELSE d

IdOps ==
  IF Part = 1
  THEN [n : {"common"}, a : {<<<<p, x, 1>>, <<p, y, 2>>>> : p \in {0, 63}, x \in 0..255, y \in 0..255}
                            \cup {<<<<p, 90, 1>>, <<p, y, 2>>>> : p \in 0..63, y \in {0, 88, 90, 91, 218}} \cup {<<<<>>, <<0, 1, 2>>>>, <<<<0, 1, 2>>, <<>>>>, <<<<>>, <<>>>>}]
       \cup [n : {"closer"}, a : {<<<<p, x, 1>>, <<p, y, q>>, <<r, t, 3>>>> : p \in {0, 1, 31, 62, 63}, x, y, t \in {0, 1, 127, 128, 255}, q \in {1, 2}, r \in {0, 63}}
                            \cup {<<<<>>, <<1, 1, 1>>, <<1, 1, 1>>>>, <<<<1, 1, 1>>, <<>>, <<1, 1, 1>>>>, <<<<1, 1, 1>>, <<1, 1, 1>>, <<>>>>}]
  ELSE [n : {"encode"}, a : {<<<<p, x, q>>>> : p \in {0, 63}, x \in 0..255, q \in {1, 2}} \cup {<<<<>>>>}]
       \cup [n : {"random"}, a : {<<i>> : i \in 1..20}]
IdApply(s, o) ==
  LET U == \E i \in DOMAIN o.a : o.a[i] = <<>> IN
  [s |-> 0, r |->
   CASE o.n = "common" -> IF U THEN [err |-> "invalid_identity"] ELSE [bits |-> Common(Full(o.a[1]), Full(o.a[2]))]
     [] o.n = "closer" -> IF U THEN [err |-> "invalid_identity"] ELSE [closer |-> Closer(Full(o.a[1]), Full(o.a[2]), Full(o.a[3]))]
     [] o.n = "encode" -> IF U THEN [bin |-> "invalid_identity", hex |-> "uninitialised", b64 |-> "uninitialised"]
                          ELSE LET a == Full(o.a[1]) IN [bin |-> BinEnc(a), hex |-> HexEnc(a), b64 |-> B64Enc(a), back |-> TRUE]
     [] o.n = "frombin" -> BinDec(o.a[1])
     [] o.n = "fromhex" -> Sized(HexDec(o.a[1]))
     [] o.n = "fromb64" -> Sized(B64Dec(o.a[1]))
     [] o.n = "random" -> [size |-> Size, fresh |-> TRUE]]

Ids == {Full(<<p, x, 1>>) : p \in {0, 1, 63}, x \in {0, 1, 128}}
IdInv(s) ==
  /\ \A a, b \in Ids, t \in Ids : Closer(a, b, t) => ~Closer(b, a, t)
  /\ \A a, b \in Ids, t \in Ids : a # b => Closer(a, b, t) \/ Closer(b, a, t)
  /\ \A a, b \in Ids : Common(a, b) = Common(b, a) /\ (Common(a, b) > Common(a, a) - 1 => a = b)
  /\ \A a, b, t \in Ids : Common(a, t) > Common(b, t) => Closer(a, b, t)
  /\ \A a \in Ids : BinDec(BinEnc(a)) = [b |-> a]
=============================================================================
