------------------------------- MODULE Numbers -------------------------------
(* Versions, byte counts, times, a small generator of random numbers, and combining texts.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Calls
Init0 == "-"
Ops(s) == Calls

\* ---- versions: major.minor.patch with one digit for the minor and three for the patch level
Digit(c) == c \in 48..57
RECURSIVE Parts(_, _)
Parts(t, cur) == IF t = <<>> THEN <<cur>>
                 ELSE IF Head(t) = 46 THEN <<cur>> \o Parts(Tail(t), <<>>)
                 ELSE Parts(Tail(t), Append(cur, Head(t)))
RECURSIVE Value(_, _)
Value(d, acc) == IF d = <<>> \/ acc > 32767 THEN acc ELSE Value(Tail(d), acc * 10 + Head(d) - 48)
Number(d) == \A i \in DOMAIN d : Digit(d[i])
Version(t) == LET p == Parts(t, <<>>) IN
  IF /\ Len(p) = 3 /\ Len(p[1]) > 0 /\ Len(p[2]) = 1 /\ Len(p[3]) = 3
     /\ Number(p[1]) /\ Number(p[2]) /\ Number(p[3]) /\ Value(p[1], 0) <= 32767
  THEN Value(p[1], 0) * 10000 + Value(p[2], 0) * 1000 + Value(p[3], 0) ELSE -1

\* ---- byte counts: the limbs of the number in base 1000 or 1024, lowest first.  The unit is the smallest in
\* which the rounded number of units stays below the next unit, and two decimals are shown.
Units(b) == IF b = 1000 THEN <<" B", " kB", " MB", " GB", " TB", " PB", " EB">>
            ELSE <<" B", " KiB", " MiB", " GiB", " TiB", " PiB", " EiB">>
Above(l, k) == \E i \in (k + 1)..7 : l[i] # 0
Fits(l, b, k) == ~Above(l, k) /\ (l[k] < b - 1 \/ l[k - 1] < b \div 2)      \* k: position of the unit's limb, from 2
Unit(l, b) == IF ~Above(l, 1) THEN 1
              ELSE IF \E k \in 2..6 : Fits(l, b, k) THEN CHOOSE k \in 2..6 : Fits(l, b, k) /\ \A j \in 2..(k - 1) : ~Fits(l, b, j) ELSE 7
Hundredths(l, b, k) == LET low == IF k > 2 THEN l[k - 2] ELSE 0
                           n == (l[k - 1] * b + low) * 100 IN
                       (2 * n + b * b) \div (2 * b * b)
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Size(b, l) == LET k == Unit(l, b) IN
  IF k = 1 THEN ToString(l[1]) \o Units(b)[1]
  ELSE LET h == Hundredths(l, b, k) + 100 * l[k] IN ToString(h \div 100) \o "." \o Two(h % 100) \o Units(b)[k]

\* ---- dates: day 0 is 1 January 2000
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
YearLen(y) == IF Leap(y) THEN 366 ELSE 365
MonthLen(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
RECURSIVE Year(_, _)
Year(y, d) == IF d < YearLen(y) THEN <<y, d>> ELSE Year(y + 1, d - YearLen(y))
RECURSIVE Month(_, _, _)
Month(ml, m, d) == IF d < ml[m] THEN <<m, d + 1>> ELSE Month(ml, m + 1, d - ml[m])
Date(d) == LET era == d \div 146097  \* the calendar repeats every 400 years
               y == Year(2000, d % 146097)  m == Month(MonthLen(y[1]), 1, y[2]) IN
           <<y[1] + 400 * era, m[1], m[2]>>
Time(ms) == <<ms \div 3600000, (ms \div 60000) % 60, (ms \div 1000) % 60, ms % 1000>>

\* ---- 32 bit numbers as two halves <<high, low>>
W == 65536
Add(x, y) == LET l == x[2] + y[2] IN <<(x[1] + y[1] + l \div W) % W, l % W>>
Sub(x, y) == Add(x, Add(<<W - 1 - y[1], W - 1 - y[2]>>, <<0, 1>>))
Xor16(a, b) == LET RECURSIVE X(_, _, _)
                   X(p, q, n) == IF n = 0 THEN 0 ELSE ((p + q) % 2) + 2 * X(p \div 2, q \div 2, n - 1) IN X(a, b, 16)
Xor(x, y) == <<Xor16(x[1], y[1]), Xor16(x[2], y[2])>>
Shl(n) == 2 ^ n
\* rotation by k in 16..31 : the halves swap, then by k - 16
Rot(x, k) == LET h == x[2]  l == x[1]  n == k - 16 IN
             <<((h * Shl(n)) % W) + (l \div Shl(16 - n)), ((l * Shl(n)) % W) + (h \div Shl(16 - n))>>
Next4(c) == LET e == Sub(c[1], Rot(c[2], 27))
                a == Xor(c[2], Rot(c[3], 17))
                b == Add(c[3], c[4])
                d == Add(c[4], e) IN TLCEval(<<a, b, d, Add(e, a)>>)
RECURSIVE Steps(_, _)
Steps(c, n) == IF n = 0 THEN c ELSE Steps(Next4(c), n - 1)
Seeded(s) == Steps(<<<<61930, 24301>>, s, s, s>>, 20)                      \* 0xf1ea5eed
RECURSIVE Values4(_, _)
Values4(c, n) == IF n = 0 THEN <<>> ELSE LET d == Next4(c) IN <<d[4]>> \o Values4(d, n - 1)

\* ---- combining two texts
Xor8(a, b) == Xor16(a, b)
Combine(x, y) == IF Len(x) # Len(y) THEN [err |-> "invalid_argument"] ELSE [ok |-> [i \in DOMAIN x |-> Xor8(x[i], y[i])]]

Apply(s, o) ==
  [s |-> s, r |->
     CASE o.n = "version" -> Version(o.a[1])
       [] o.n = "size" -> Size(o.a[1], o.a[3])
       [] o.n = "date" -> Date(o.a[1]) \o Time(o.a[2])                        \* of a stamp
       [] o.n = "stamp" -> <<o.a[1], o.a[2] * 1000 + o.a[3] \div 1000>>        \* at a day, second and microsecond
       [] o.n = "now" -> <<o.a[1] + 10957, o.a[2], o.a[3]>>
       [] o.n = "timet" -> <<o.a[1], o.a[1]>>                                 \* there and, with nanoseconds, back
       [] o.n = "prng" -> Values4(Seeded(o.a[1]), o.a[2])
       [] o.n = "xor" -> Combine(o.a[1], o.a[2])]
Inv(s) == TRUE
StepInv(s, o, a) ==
  CASE o.n = "version" -> a.r >= -1
    [] o.n = "date" -> a.r[2] \in 1..12 /\ a.r[3] \in 1..31 /\ a.r[4] \in 0..23
    [] o.n = "prng" -> \A i \in DOMAIN a.r : a.r[i][1] \in 0..(W - 1) /\ a.r[i][2] \in 0..(W - 1)
    [] o.n = "xor" -> "ok" \in DOMAIN a.r => Combine(a.r.ok, o.a[2]) = [ok |-> o.a[1]]
    [] OTHER -> TRUE
=============================================================================
