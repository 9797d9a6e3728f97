------------------------------- MODULE Serial -------------------------------
(* Values written to and read from a stream of bytes.  A value is <<type, parts>>.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Values, MaxPut
RECURSIVE Le(_, _)
Le(n, w) == IF w = 0 THEN <<>> ELSE <<n % 256>> \o Le(n \div 256, w - 1)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
Size(s) == Le(Len(s), 8)
Str(b) == Size(b) \o b
I32(n) == Le(n, 4)
Vec(s, f(_)) == Size(s) \o Cat(Map(f, s))
Ints(s) == Vec(s, I32)
Opt(s, f(_)) == IF s = <<>> THEN <<0>> ELSE <<1>> \o f(s[1])
\* shared strings: numbered when first seen
First(s, i) == CHOOSE j \in 1..i : s[j] = s[i] /\ \A k \in 1..i : s[k] = s[i] => j <= k
New(s, i) == First(s, i) = i
Number(s, i) == Cardinality({j \in 1..First(s, i) : New(s, j)})
Fly(s) == Size(s) \o Cat([i \in DOMAIN s |-> IF New(s, i) THEN Le(Number(s, i), 3) \o <<128>> \o Str(s[i]) ELSE Le(Number(s, i), 4)])
Width == [i8 |-> 1, u8 |-> 1, bool |-> 1, char |-> 1, i16 |-> 2, u16 |-> 2, i32 |-> 4, u32 |-> 4]
Bytes(t, v) ==
  IF t \in DOMAIN Width THEN Le(v[1], Width[t])
  ELSE CASE t \in {"i64", "u64", "f32", "f64"} -> v                     \* given as bytes
         [] t \in {"str", "bytes", "path"} -> Str(v)
         [] t = "vi" -> Ints(v)
         [] t = "vstr" -> Vec(v, Str)
         [] t = "vvi" -> Vec(v, Ints)
         [] t = "mis" -> Size(v) \o Cat([i \in DOMAIN v |-> I32(i) \o Str(v[i])])
         [] t = "msvi" -> Size(v) \o Cat([i \in DOMAIN v |-> Str(<<i>>) \o Ints(v[i])])
         [] t = "oi" -> Opt(v, I32)
         [] t = "ostr" -> Opt(v, Str)
         [] t = "ovi" -> Opt(v, Ints)
         [] t \in {"ip4", "bip4"} -> <<4>> \o v
         [] t \in {"ip6", "bip6"} -> <<16>> \o v
         [] t = "fly" -> Fly(v)
         [] t \in {"two", "split"} -> I32(v[1][1]) \o Str(v[2])
Init0 == [w |-> <<>>, at |-> 0, open |-> FALSE]
Ops(s) == [n : {"trip"}, a : IF s = Init0 THEN Values ELSE {}]
          \cup [n : {"put"}, a : IF Len(s.w) < MaxPut /\ ~s.open THEN Values ELSE {}]
          \cup [n : {"open"}, a : {<<>>}]
          \cup [n : {"many"}, a : IF s = Init0 /\ Values # {} THEN {<<n, t, v, b>> : n \in {0, 258}, t \in {<<>>, <<65, 0>>}, v \in {<<>>, <<1, 2>>}, b \in {0, 1}} ELSE {}]
          \cup [n : {"get"}, a : {<<t>> : t \in IF ~s.open THEN {} ELSE IF s.at < Len(s.w) THEN {s.w[s.at + 1][1]} ELSE {"i32", "str", "u8"}}]
Apply(s, o) ==
  CASE o.n = "trip" -> [s |-> s, r |-> [bytes |-> Bytes(o.a[1], o.a[2]), back |-> "equal", text |-> "equal", cut |-> "rejected"]]
    [] o.n = "put" -> LET t == [s EXCEPT !.w = Append(@, o.a)] IN
                      [s |-> t, r |-> Cat([i \in DOMAIN t.w |-> Bytes(t.w[i][1], t.w[i][2])])]
    [] o.n = "many" -> [s |-> s, r |-> [bytes |-> I32(o.a[1]) \o Str(o.a[2]) \o Ints(o.a[3]) \o <<o.a[4]>>, back |-> "equal"]]
    [] o.n = "open" -> [s |-> [s EXCEPT !.open = TRUE, !.at = 0], r |-> 0]
    [] o.n = "get" -> IF s.at = Len(s.w) THEN [s |-> s, r |-> [err |-> "rejected"]]
                      ELSE [s |-> [s EXCEPT !.at = @ + 1], r |-> [value |-> s.w[s.at + 1][2]]]
Inv(s) == s.at \in 0..Len(s.w)
StepInv(s, o, a) == /\ o.n = "trip" => \A i \in DOMAIN a.r.bytes : a.r.bytes[i] \in 0..255
                    /\ o.n \in {"open", "get"} => a.s.w = s.w
=============================================================================
