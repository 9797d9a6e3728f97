------------------------------ MODULE SipHash ------------------------------
(* SipHash-2-4 and the bytes which values feed to a hash.                                                  *)
(* Hashers a, b, c: a key and the message so far.  64-bit words are four limbs of 16 bits, lowest first.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise, SequencesExt

CONSTANTS Part,      \* 1: the algorithm, 2: bytes of values
          MaxLen, Pieces, Keys, Values      \* Values: pairs <<type, value>>
H == {"a", "b", "c"}

W(b) == TLCEval([i \in 1..4 |-> b[2 * i - 1] + 256 * b[2 * i]])                 \* from 8 bytes
B(w) == [i \in 1..8 |-> IF i % 2 = 1 THEN w[(i + 1) \div 2] % 256 ELSE w[i \div 2] \div 256]
XorW(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4]>>
AddW(x, y) ==
  LET c1 == x[1] + y[1]
      c2 == x[2] + y[2] + c1 \div 65536
      c3 == x[3] + y[3] + c2 \div 65536
      c4 == x[4] + y[4] + c3 \div 65536
  IN <<c1 % 65536, c2 % 65536, c3 % 65536, c4 % 65536>>
At(i) == ((i + 3) % 4) + 1                                           \* index modulo 4
Rot(x, n) == LET q == n \div 16  r == n % 16
                 y == TLCEval([i \in 1..4 |-> x[At(i - q + 4)]])
             IN TLCEval([i \in 1..4 |-> ((y[i] * 2^r) % 65536) + y[At(i + 3)] \div 2^(16 - r)])
\* one round on <<v0, v1, v2, v3>>
Round(v) ==
  LET a0 == AddW(v[1], v[2])      a1 == XorW(Rot(v[2], 13), a0)
      a2 == AddW(v[3], v[4])      a3 == XorW(Rot(v[4], 16), a2)
      b0 == AddW(Rot(a0, 32), a3) b3 == XorW(Rot(a3, 21), b0)
      b2 == AddW(a2, a1)          b1 == XorW(Rot(a1, 17), b2)
  IN <<b0, b1, Rot(b2, 32), b3>>
RECURSIVE Rounds(_, _)
Rounds(v, n) == IF n = 0 THEN v ELSE Rounds(Round(v), n - 1)
Block(v, m) == LET x == Rounds(<<v[1], v[2], v[3], XorW(v[4], m)>>, 2) IN <<XorW(x[1], m), x[2], x[3], x[4]>>
RECURSIVE Blocks(_, _)
Blocks(v, m) == IF Len(m) < 8 THEN v ELSE Blocks(Block(v, W(SubSeq(m, 1, 8))), SubSeq(m, 9, Len(m)))
Sip(k, m) ==
  LET k0 == W(SubSeq(k, 1, 8))  k1 == W(SubSeq(k, 9, 16))
      \* "somepseudorandomlygeneratedbytes"
      v == <<XorW(<<25973, 28787, 28005, 29551>>, k0), XorW(<<28525, 28260, 29281, 25711>>, k1),
             XorW(<<29281, 28261, 26469, 27769>>, k0), XorW(<<25971, 31092, 25698, 29797>>, k1)>>
      n == Len(m)
      last == TLCEval([i \in 1..8 |-> IF i = 8 THEN n % 256 ELSE IF i <= n % 8 THEN m[(n \div 8) * 8 + i] ELSE 0])
      x == Block(Blocks(v, m), W(last))
      y == Rounds(<<x[1], x[2], XorW(x[3], <<255, 0, 0, 0>>), x[4]>>, 4)
  IN TLCEval(B(XorW(XorW(y[1], y[2]), XorW(y[3], y[4]))))

\* the example of the SipHash paper: key 0..15, message 0..14
ASSUME Sip([i \in 1..16 |-> i - 1], [i \in 1..15 |-> i - 1]) = <<229, 69, 190, 73, 97, 202, 41, 161>>

(* ------------------------- bytes of values ------------------------- *)
RECURSIVE Le(_, _)
Le(n, w) == IF w = 0 THEN <<>> ELSE <<n % 256>> \o Le(n \div 256, w - 1)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
Sized(s, f(_)) == Cat(Map(f, s)) \o Le(Len(s), 8)
I8(n) == Le(n, 1)
I16(n) == Le(n, 2)
I32(n) == Le(n, 4)
Width == [i8 |-> 1, u8 |-> 1, bool |-> 1, char |-> 1, i16 |-> 2, u16 |-> 2, c16 |-> 2, i32 |-> 4, u32 |-> 4, i64 |-> 8, size |-> 8]
Float(b) == IF \A i \in DOMAIN b : IF i = Len(b) THEN b[i] \in {0, 128} ELSE b[i] = 0 THEN [i \in DOMAIN b |-> 0] ELSE b
Str(b) == b \o Le(Len(b), 8)
Pair8(p) == I8(p[1]) \o I32(p[2])
Pair32(p) == I32(p[1]) \o I32(p[2])
VecI(s) == Sized(s, I32)
Bytes(t, v) ==
  IF t \in DOMAIN Width THEN Le(v[1], Width[t])
  ELSE CASE t \in {"f32", "f64", "ref32"} -> Float(v)
         [] t \in {"str", "strref", "vu8"} -> Str(v)
         [] t = "u16s" -> Sized(v, I16)
         [] t \in {"vi", "ari", "carr", "li", "fi", "si", "ili", "irange"} -> VecI(v)
         [] t \in {"vstr", "lstr", "sstr"} -> Sized(v, Str)
         [] t = "mis" -> Cat([i \in DOMAIN v |-> I32(i) \o Str(v[i])]) \o Le(Len(v), 8)
         [] t \in {"mii", "vpp"} -> Sized(v, Pair32)
         [] t = "vp8" -> Sized(v, Pair8)
         [] t = "vvi" -> Sized(v, VecI)
         [] t = "vf64" -> Sized(v, Float)
         [] t = "p8" -> Pair8(v)
         [] t = "pp" -> Pair32(v)
         [] t \in {"args", "amp"} -> Cat(Map(I32, v))
         [] t \in {"ps", "custm", "custn", "ser", "sav", "ver", "args2"} -> I32(v[1][1]) \o Str(v[2])
         [] t = "tup" -> I32(v[1][1]) \o Str(v[2]) \o I8(v[3][1])

\* moving elements between neighbouring containers changes what is hashed
Texts == UNION {[1..n -> {0, 1}] : n \in 0..3}
ASSUME \A t \in {"str", "vi", "u16s"}, x, y, u, v \in Texts :
         x \o y = u \o v /\ x # u => Bytes(t, x) \o Bytes(t, y) # Bytes(t, u) \o Bytes(t, v)
ASSUME \A x, y, u, v \in Texts : <<x, y>> # <<u, v>> => Bytes("vstr", <<x, y>>) # Bytes("vstr", <<u, v>>)

(* ------------------------- hashers ------------------------- *)
None == [k |-> <<>>, m |-> <<>>]
Init0 == [x \in H |-> None]
Gen(p, n) == [i \in 1..n |-> ((p + i) * 37 + 11) % 256]
Fresh(s) == \A x \in H : s[x] = None
Ops(s) ==
  IF Part = 1
  THEN (IF Fresh(s) THEN [n : {"key"}, a : {<<"a", k>> : k \in Keys}] ELSE {})
       \cup [n : {"gen"}, a : {<<x, n>> \in H \X Pieces : s[x] # None /\ Len(s[x].m) + n <= MaxLen}]
       \cup [n : {"fin"}, a : {<<x>> : x \in {y \in H : s[y] # None}}]
       \cup [n : {"copy"}, a : {<<"a", "b">>, <<"b", "a">>} \cap {<<x, y>> \in H \X H : s[x] # None}]
  ELSE (IF Fresh(s) THEN [n : {"key"}, a : {<<"a", k>> : k \in Keys}] ELSE {})
       \cup (IF s["a"] # None /\ s["a"].m = <<>> THEN [n : {"add"}, a : {<<"a", v[1], v[2]>> : v \in Values}] ELSE {})
       \cup (IF Fresh(s) THEN [n : {"seeded"}, a : {<<v[1], v[2], w[1], w[2]>> : v, w \in Values}] ELSE {})
Apply(s, o) ==
  LET x == o.a[1] IN
  CASE o.n = "key" -> [s |-> [s EXCEPT ![x] = [k |-> o.a[2], m |-> <<>>]], r |-> 0]
    [] o.n = "gen" -> [s |-> [s EXCEPT ![x].m = @ \o Gen(Len(@), o.a[2])], r |-> 0]
    [] o.n = "up" -> [s |-> [s EXCEPT ![x].m = @ \o o.a[2]], r |-> 0]
    [] o.n = "add" -> LET b == Bytes(o.a[2], o.a[3]) IN [s |-> [s EXCEPT ![x].m = @ \o b], r |-> b]
    [] o.n = "fin" -> [s |-> s, r |-> Sip(s[x].k, s[x].m)]
    [] o.n = "copy" -> [s |-> [s EXCEPT ![o.a[2]] = s[x]], r |-> 0]
    [] o.n = "seeded" -> [s |-> s, r |-> Bytes(o.a[1], o.a[2]) = Bytes(o.a[3], o.a[4])]
Inv(s) == \A x \in H : s[x] # None => Len(s[x].k) = 16
StepInv(s, o, a) == \A x \in H : o.n \notin {"copy"} /\ x # o.a[1] => a.s[x] = s[x]
=============================================================================
