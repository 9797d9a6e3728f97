------------------------------ MODULE Encoding ------------------------------
(* Hexadecimal and base64 encodings of byte sequences.  Bytes and characters are numbers 0..255.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Small    \* bytes of the exhaustive environment
HexDigits == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
\* value of a character, or -1
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
HexEnc(b) == [i \in 1..(2 * Len(b)) |-> HexDigits[1 + (IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)]]
HexDec(c) == IF Len(c) % 2 = 1 \/ \E i \in DOMAIN c : HexVal(c[i]) = -1 THEN [err |-> "invalid_conversion"]
             ELSE [b |-> [i \in 1..(Len(c) \div 2) |-> 16 * HexVal(c[2 * i - 1]) + HexVal(c[2 * i])]]

\* The 64 digits: A-Z a-z 0-9 + /
B64Digit(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
             ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
Pad == 61
At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
\* the k-th (from 0) six bits of the byte sequence, continued with zeros
Six(b, k) == LET i == (k \div 4) * 3 + 1 IN
             CASE k % 4 = 0 -> At(b, i) \div 4
               [] k % 4 = 1 -> (At(b, i) % 4) * 16 + At(b, i + 1) \div 16
               [] k % 4 = 2 -> (At(b, i + 1) % 16) * 4 + At(b, i + 2) \div 64
               [] k % 4 = 3 -> At(b, i + 2) % 64
B64Enc(b) == [j \in 1..(4 * ((Len(b) + 2) \div 3)) |->
                IF (j - 1) * 6 < 8 * Len(b) THEN B64Digit(Six(b, j - 1)) ELSE Pad]
\* number of padding characters at the end
Pads(c) == IF c = <<>> \/ Last(c) # Pad THEN 0 ELSE IF c[Len(c) - 1] # Pad THEN 1 ELSE 2
B64Dec(c) ==
  IF Len(c) % 4 # 0 THEN [err |-> "invalid_conversion"]
  ELSE LET p == Pads(c)  n == Len(c) - p  len == (Len(c) \div 4) * 3 - p  V(i) == IF i <= n THEN B64Val(c[i]) ELSE 0 IN
       IF \E i \in 1..n : B64Val(c[i]) = -1 THEN [err |-> "invalid_conversion"]
       ELSE [b |-> [i \in 1..len |->
                     LET q == ((i - 1) \div 3) * 4 + 1 IN
                     CASE i % 3 = 1 -> V(q) * 4 + V(q + 1) \div 16
                       [] i % 3 = 2 -> (V(q + 1) % 16) * 16 + V(q + 2) \div 4
                       [] i % 3 = 0 -> (V(q + 2) % 4) * 64 + V(q + 3)]]
\* first and last six characters of a long encoding
Substr(c) == IF Len(c) <= 14 THEN c ELSE SubSeq(c, 1, 6) \o <<46, 46>> \o SubSeq(c, Len(c) - 5, Len(c))

Init0 == 0
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Ops(s) == [n : {"enc"}, a : {<<b>> : b \in Strings(Small, 4) \cup Strings(0..255, 1)}]
          \cup [n : {"hexdec"}, a : {<<c>> : c \in Strings({48, 57, 97, 102, 65, 71, 47}, 4) \cup Strings(0..255, 1)
                                                  \cup {<<49, x>> : x \in 0..255} \cup {<<x, 49>> : x \in 0..255}}]
          \cup [n : {"b64dec"}, a : {<<c>> : c \in {<<65, 81, 81, x>> : x \in 0..255} \cup {<<65, 81, x, Pad>> : x \in {65, 81, Pad, 45, 95, 0}}
                                                \cup {<<x, 81, 81, 81>> : x \in 0..255} \cup {<<81, 65, x, y>> : x \in {81, 65, Pad, 33}, y \in {65, 81, Pad, 32}}
                                                \cup [1..3 -> {65, Pad}] \cup {<<81, 81, Pad, Pad>> \o q : q \in {<<81, 81, 81, 81>>, <<81, 81, Pad, Pad>>, <<81>>}}}]
Canonical(c) == LET d == B64Dec(c) IN "err" \in DOMAIN d \/ B64Enc(d.b) = c
Apply(s, o) ==
  [s |-> 0, r |->
   CASE o.n = "enc" -> LET b == o.a[1] IN
          [hex |-> HexEnc(b), b64 |-> B64Enc(b), hback |-> b, bback |-> b, hsub |-> Substr(HexEnc(b)), bsub |-> Substr(B64Enc(b)), agree |-> TRUE]
     [] o.n = "hexdec" -> HexDec(o.a[1])
     \* leftover bits which are not zero: either answer
     [] o.n = "b64dec" -> IF Canonical(o.a[1]) THEN B64Dec(o.a[1]) ELSE [lenient |-> TRUE]]

Inv(s) == \A b \in Strings(Small, 3) :
            /\ HexDec(HexEnc(b)) = [b |-> b] /\ B64Dec(B64Enc(b)) = [b |-> b]
            /\ Len(HexEnc(b)) = 2 * Len(b) /\ Len(B64Enc(b)) % 4 = 0
StepInv(s, o, a) == TRUE
=============================================================================
