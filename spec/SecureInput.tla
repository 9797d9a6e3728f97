------------------------------- MODULE SecureInput -------------------------------
(* Secret text typed in at positions.  The entries are <<position, characters>> in order of position; a finalised *)
(* input is its text.  Characters are bytes.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Kinds, Texts, Positions, Counts, MaxEntries
Init0 == [kind |-> <<"none", 0>>, cells |-> <<>>, fin |-> FALSE, text |-> <<>>, on |-> FALSE, plain |-> <<>>, done |-> FALSE]
Err(e) == [err |-> e]
Fits(k, n) == CASE k[1] = "ge" -> n >= k[2] [] k[1] = "eq" -> n = k[2] [] k[1] = "le" -> n <= k[2] [] OTHER -> FALSE
\* editing a finalised input starts from its characters, one to a position
Cells(s) == IF s.fin THEN TLCEval([i \in 1..Len(s.text) |-> <<i - 1, <<s.text[i]>>>>]) ELSE s.cells
Open(s, c) == [s EXCEPT !.cells = c, !.fin = FALSE, !.text = <<>>]
Before(c, p) == SelectSeq(c, LAMBDA x : x[1] < p)
At(c, p) == {i \in DOMAIN c : c[i][1] = p}
From(c, p) == SelectSeq(c, LAMBDA x : x[1] >= p)
Numbered(c, p) == TLCEval([i \in 1..Len(c) |-> <<p + i - 1, c[i][2]>>])     \* at positions p, p + 1 ...
Inserted(c, p, t) == IF At(c, p) = {} THEN Before(c, p) \o <<<<p, t>>>> \o From(c, p)
                     ELSE Before(c, p) \o <<<<p, t>>>> \o Numbered(From(c, p), p + 1)
Removed(c, p, n) == Before(c, p) \o Numbered(SubSeq(From(c, p), n + 1, Len(From(c, p))), p)
RECURSIVE Flat(_)
Flat(c) == IF c = <<>> THEN <<>> ELSE Head(c)[2] \o Flat(Tail(c))
NoGap(c) == \A i \in DOMAIN c : c[i][1] = i - 1
Class(x, b) == CASE x = "digit" -> b \in 48..57 [] x = "lower" -> b \in 97..122 [] x = "nonblank" -> b # 32 [] x = "any" -> TRUE
Accepts(x, t) == \E i \in DOMAIN t : Class(x, t[i])
Valid(s, x) == IF s.fin THEN Fits(s.kind, Len(s.text)) /\ \A i \in DOMAIN s.text : Class(x, s.text[i])
               ELSE Fits(s.kind, Len(s.cells)) /\ NoGap(s.cells) /\ \A i \in DOMAIN s.cells : Accepts(x, s.cells[i][2])
\* The number at the start of a text, in decimal without leading zeros
RECURSIVE Skip(_, _), Digits(_)
Skip(t, S) == IF t # <<>> /\ Head(t) \in S THEN Skip(Tail(t), S) ELSE t
Digits(t) == IF t # <<>> /\ Head(t) \in 48..57 THEN <<Head(t) - 48>> \o Digits(Tail(t)) ELSE <<>>
Blanks == {9, 10, 11, 12, 13, 32}
Max64 == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
RECURSIVE AtMost(_, _)
AtMost(a, b) == a = <<>> \/ Head(a) < Head(b) \/ (Head(a) = Head(b) /\ AtMost(Tail(a), Tail(b)))
Number(t) == LET all == Digits(Skip(t, Blanks))
                 d == Skip(all, {0}) IN
             IF all = <<>> THEN Err("invalid") ELSE IF Len(d) > 20 \/ (Len(d) = 20 /\ ~AtMost(d, Max64)) THEN Err("range")
             ELSE IF d = <<>> THEN <<0>> ELSE d
Apply(s, o) ==
  CASE o.n = "new" -> [s |-> [s EXCEPT !.kind = <<o.a[1], o.a[2]>>, !.cells = <<>>, !.fin = FALSE, !.text = <<>>], r |-> 0]
    [] o.n = "from" -> LET k == <<o.a[1], o.a[2]>> IN
                       IF Fits(k, Len(o.a[3])) THEN [s |-> [s EXCEPT !.kind = k, !.cells = <<>>, !.fin = TRUE, !.text = o.a[3]], r |-> 0]
                       ELSE [s |-> s, r |-> Err("outside_of_bounds")]
    [] o.n = "insert" -> [s |-> Open(s, Inserted(Cells(s), o.a[1], o.a[2])), r |-> 0]
    [] o.n = "remove" -> LET c == Cells(s) IN
                         IF At(c, o.a[1]) = {} \/ o.a[2] < 1 \/ o.a[2] > Len(From(c, o.a[1]))
                         THEN [s |-> Open(s, c), r |-> Err("invalid_argument")]
                         ELSE [s |-> Open(s, Removed(c, o.a[1], o.a[2])), r |-> 0]
    [] o.n = "clear" -> [s |-> Open(s, <<>>), r |-> 0]
    [] o.n = "finalise" -> IF s.fin THEN [s |-> s, r |-> 0]
                           ELSE IF ~Fits(s.kind, Len(s.cells)) THEN [s |-> s, r |-> Err("outside_of_bounds")]
                           ELSE IF ~NoGap(s.cells) THEN [s |-> s, r |-> Err("invalid_argument")]
                           ELSE [s |-> [s EXCEPT !.text = Flat(s.cells), !.fin = TRUE, !.cells = <<>>], r |-> 0]
    [] o.n = "finalised" -> [s |-> s, r |-> s.fin]
    [] o.n = "valid" -> [s |-> s, r |-> Valid(s, o.a[1])]
    [] o.n = "read" -> [s |-> s, r |-> IF s.fin THEN s.text ELSE Err("symmetric_encryption_error")]
    [] o.n = "hash" -> [s |-> s, r |-> IF s.fin THEN "hash of the text" ELSE Err("symmetric_encryption_error")]
    [] o.n = "value" -> [s |-> s, r |-> IF s.fin THEN Number(s.text) ELSE Err("symmetric_encryption_error")]
    \* the text alone, which can be appended to, finalised and cleared
    [] o.n = "string" -> [s |-> [s EXCEPT !.on = TRUE, !.plain = o.a[1], !.done = o.a[1] # <<>>], r |-> 0]
    [] o.n = "append" -> [s |-> [s EXCEPT !.plain = @ \o o.a[1]], r |-> 0]
    [] o.n = "end" -> [s |-> [s EXCEPT !.done = TRUE], r |-> 0]
    [] o.n = "empty" -> [s |-> [s EXCEPT !.plain = <<>>, !.done = FALSE], r |-> 0]
    [] o.n = "get" -> [s |-> s, r |-> s.plain]
    \* two secret texts joined (the first, the second or neither of them a hash)
    \* three inputs held together and given to another holder: what that holds and what is left
    [] o.n = "move" -> [s |-> s, r |-> [now |-> <<o.a[2], o.a[3], o.a[4]>>, left |-> 0]]
    [] o.n = "join" -> [s |-> s, r |-> o.a[2] \o o.a[3]]
Ops(s) ==
  (IF s.kind[1] = "none" THEN [n : {"new"}, a : Kinds] \cup {[n |-> "from", a |-> k \o <<t>>] : k \in Kinds, t \in Texts}
   ELSE {[n |-> x, a |-> <<>>] : x \in {"clear", "finalise", "finalised", "read", "hash", "value"}}
        \cup {[n |-> "valid", a |-> <<x>>] : x \in {"digit", "lower"}}
        \cup (IF Len(Cells(s)) < MaxEntries THEN [n : {"insert"}, a : Positions \X {t \in Texts : Len(t) \in 1..2}] ELSE {})
        \cup [n : {"remove"}, a : Positions \X Counts])
Inv(s) == /\ \A i, j \in DOMAIN s.cells : i < j => s.cells[i][1] < s.cells[j][1]
          /\ s.fin => s.cells = <<>>
          /\ ~s.fin => s.text = <<>>
StepInv(s, o, a) ==
  /\ o.n = "insert" => \E u \in 0..Len(Flat(Cells(s))) : Flat(Cells(a.s)) = SubSeq(Flat(Cells(s)), 1, u) \o o.a[2] \o SubSeq(Flat(Cells(s)), u + 1, Len(Flat(Cells(s))))
  /\ ToString(a.r) \in {ToString(Err("invalid_argument")), ToString(Err("outside_of_bounds"))} => Flat(Cells(a.s)) = Flat(Cells(s))
  /\ o.n = "finalise" /\ a.s.fin => a.s.text = Flat(Cells(s))
=============================================================================
