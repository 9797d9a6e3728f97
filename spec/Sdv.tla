-------------------------------- MODULE Sdv --------------------------------
(* StructuredDataVersions.  Versions are numbered 1..N in VersionName order (Index[v] is the       *)
(* version's index); 0 stands for the uninitialised version.  An object holds, for each version,   *)
(* -1 (not held) or the name of its parent, which need not be held; and which version is the root. *)
(* A version whose parent is not held is the root or an orphan.  The state is a sequence of        *)
(* objects, so that merging and swapping of two objects can be described.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS N, Index, Limits, OpNames
\* Limits: <<max_versions, max_branches>> of each object.  OpNames: the operations explored.

V == 1..N
Empty(mv, mb) == [mv |-> mv, mb |-> mb, root |-> 0, par |-> [v \in V |-> -1]]
Init0 == [i \in 1..Len(Limits) |-> Empty(Limits[i][1], Limits[i][2])]

Held(s) == {v \in V : s.par[v] # -1}
Held0(s, v) == v \in V /\ s.par[v] # -1
Children(s, p) == {v \in Held(s) : s.par[v] = p}
Tops(s) == {v \in Held(s) : ~Held0(s, s.par[v])}
Orphans(s) == Tops(s) \ {s.root}
Tips(s) == {v \in Held(s) : Children(s, v) = {}}
RECURSIVE Chain(_, _)
Chain(s, v) == IF Held0(s, s.par[v]) THEN <<v>> \o Chain(s, s.par[v]) ELSE <<v>>
Ancestors(s, v) == Range(Chain(s, v))          \* including v itself
Top(s, v) == LET c == Chain(s, v) IN c[Len(c)]

DescSeq(S) == Reverse(SetToSortSeq(S, <))
Branches(s) == [i \in 1..Cardinality(Tips(s)) |-> LET t == DescSeq(Tips(s))[i] IN
                 [b |-> Chain(s, t), top |-> s.par[Top(s, t)]]]

-----------------------------------------------------------------------------
\* Results: "none", <<removed version>> as "rem:<v>", or the name of the error.
Out(s, r) == [s |-> s, r |-> r]
Removed(v) == "rem:" \o ToString(v)

Erase(s, v) == [s EXCEPT !.par[v] = -1]
\* Removes the root; its lowest child - else the lowest orphan - becomes root.
EraseRoot(s) ==
  LET kids == Children(s, s.root)
      t == Erase(s, s.root)
      rest == IF kids # {} THEN kids ELSE Orphans(s)
  IN [t EXCEPT !.root = IF rest = {} THEN 0 ELSE Min(rest)]

Put(s, p, v) ==
  LET held == Held(s)
      isRoot == p = 0 \/ held = {}
      adopted == {u \in held : s.par[u] = v}
      isOrphan == ~isRoot /\ ~Held0(s, p)
      atV == Cardinality(held) = s.mv
      growsTips == adopted = {} /\ (isRoot \/ isOrphan \/ Children(s, p) # {})
      atB == Cardinality(Tips(s)) = s.mb
      t0 == [s EXCEPT !.par[v] = p]
      t == [t0 EXCEPT !.root = IF isRoot THEN v
                               ELSE IF s.root \in adopted THEN Top(t0, v)
                               ELSE s.root]
  IN IF v = 0 \/ p = v THEN Out(s, "invalid_argument")
     ELSE IF v \in held THEN Out(s, IF s.par[v] = p THEN "none" ELSE "invalid_argument")
     ELSE IF isRoot /\ s.root # 0 /\ s.par[s.root] = 0 THEN Out(s, "invalid_argument")
     ELSE IF Held0(s, p) /\ Ancestors(s, p) \cap adopted # {} THEN Out(s, "invalid_argument")
     ELSE IF isOrphan /\ Index[s.root] = 0 /\ Index[p] = 0 /\ s.root # p THEN Out(s, "invalid_argument")
     ELSE IF atV /\ (isRoot \/ s.root \in adopted) THEN Out(s, Removed(v))
     ELSE IF growsTips /\ atB /\ isRoot THEN Out(s, Removed(v))
     ELSE IF growsTips /\ atB /\ Children(s, s.root) # {} THEN Out(s, "cannot_exceed_limit")
     ELSE IF atV \/ (growsTips /\ atB) THEN Out(EraseRoot(t), Removed(s.root))
     ELSE Out(t, "none")

TipError(s, v) == IF ~Held0(s, v) THEN "no_such_element" ELSE "invalid_argument"

RECURSIVE DeleteUp(_, _)
DeleteUp(s, v) ==
  LET p == s.par[v]
  IN IF v = s.root THEN EraseRoot(s)
     ELSE LET t == Erase(s, v)
          IN IF Held0(s, p) /\ Children(t, p) = {} THEN DeleteUp(t, p) ELSE t
Delete(s, v) == IF v \in Tips(s) THEN Out(DeleteUp(s, v), "none") ELSE Out(s, TipError(s, v))

\* The order in which an object's versions are put into another when merging.
RECURSIVE Walk(_, _)
Walk(s, v) == <<v>> \o FlattenSeq([i \in 1..Cardinality(Children(s, v)) |->
                                     Walk(s, SetToSortSeq(Children(s, v), <)[i])])
OrphanOrder(s) == SetToSortSeq(Orphans(s), LAMBDA a, b : s.par[a] < s.par[b] \/ (s.par[a] = s.par[b] /\ a < b))
MergeOrder(s) == IF s.root = 0 THEN <<>>
                 ELSE Walk(s, s.root) \o FlattenSeq([i \in 1..Cardinality(Orphans(s)) |-> Walk(s, OrphanOrder(s)[i])])
RECURSIVE PutAll(_, _, _)
PutAll(s, t, vs) ==      \* puts versions vs of s into t; stops at an error
  IF vs = <<>> THEN Out(t, "none")
  ELSE LET o == Put(t, s.par[Head(vs)], Head(vs))
       IN IF o.r \in {"invalid_argument", "cannot_exceed_limit"} THEN o ELSE PutAll(s, o.s, Tail(vs))
Merge(s, other) == LET o == PutAll(s, other, MergeOrder(s)) IN IF o.r = "none" THEN o ELSE Out(s, o.r)

-----------------------------------------------------------------------------
(* The serialised form: a list of branches.  A branch is <<absent parent, 0>> (0: none given)     *)
(* followed by <<version, fork>> pairs; fork is 0, or the number of branches following the last   *)
(* version of this one.  Top-level branches start the root and then the orphans.                  *)
Bad == [ok |-> FALSE]
RECURSIVE ParseBranch(_, _, _), ParseForks(_, _, _, _)
\* rest: branches not yet read; parent: version the branch continues, or 0.  Returns what is left.
ParseBranch(st, rest, parent) ==
  IF rest = <<>> \/ Len(Head(rest)) < 2 THEN Bad
  ELSE LET br == Head(rest)
           vs == [i \in 1..(Len(br) - 1) |-> br[i + 1][1]]
           par(i) == IF i > 1 THEN vs[i - 1] ELSE IF parent # 0 THEN parent ELSE br[1][1]
           fork == br[Len(br)][2]
           clash == \E i \in DOMAIN vs : st.par[vs[i]] # -1 \/ (\E j \in DOMAIN vs : j # i /\ vs[j] = vs[i])
           isRoot == parent = 0 /\ st.root = 0
           t == [st EXCEPT !.tops = IF parent = 0 THEN @ \cup {vs[1]} ELSE @,
                           !.root = IF isRoot THEN vs[1] ELSE @,
                           !.par = [v \in V |-> IF v \in Range(vs) THEN par(CHOOSE i \in DOMAIN vs : vs[i] = v)
                                                ELSE st.par[v]]]
       IN IF clash \/ (parent = 0 /\ ~isRoot /\ br[1][1] = 0) \/ fork = 1 THEN Bad
          ELSE ParseForks(t, Tail(rest), vs[Len(vs)], fork)
ParseForks(t, rest, parent, k) ==
  IF k = 0 THEN [ok |-> TRUE, st |-> t, rest |-> rest]
  ELSE LET b == ParseBranch(t, rest, parent)
       IN IF b.ok THEN ParseForks(b.st, b.rest, parent, k - 1) ELSE Bad
RECURSIVE ParseAll(_, _)
ParseAll(st, rest) ==
  IF rest = <<>> THEN [ok |-> TRUE, st |-> st]
  ELSE LET b == ParseBranch(st, rest, 0) IN IF b.ok THEN ParseAll(b.st, b.rest) ELSE Bad
Parse(s, mv, mb, form) ==
  LET p == ParseAll([mv |-> mv, mb |-> mb, root |-> 0, par |-> [v \in V |-> -1], tops |-> {}], form)
  IN IF mv = 0 \/ mb = 0 THEN Out(s, "invalid_argument")
     ELSE IF ~p.ok THEN Out(s, "parsing_error")
     ELSE IF \/ Cardinality(Held(p.st)) > mv \/ Cardinality(Tips(p.st)) > mb
             \/ \E v \in p.st.tops : Held0(p.st, p.st.par[v])    \* a parent said to be absent is not
          THEN Out(s, "parsing_error")
     ELSE Out([mv |-> mv, mb |-> mb, root |-> p.st.root, par |-> p.st.par], "none")

Objs == 1..Len(Limits)
PutArgs == {<<i, p, v>> \in Objs \X (0..N) \X (0..N) :
              /\ v # 0 => (Index[v] = 0 => p = 0)       \* only a root may have index 0
              /\ v = 0 => p = 0}
AllOps(s) == [n : {"put"}, a : PutArgs]
          \cup [n : {"del", "branch"}, a : Objs \X V]
          \cup [n : {"clear", "reparse"}, a : {<<i>> : i \in Objs}]
          \cup [n : {"apply", "assign"}, a : {x \in Objs \X Objs : TRUE}]
          \cup [n : {"swap"}, a : {x \in Objs \X Objs : x[1] < x[2]}]
Ops(s) == {o \in AllOps(s) : o.n \in OpNames}

Do(s, o) ==     \* [s |-> sequence of objects, r |-> result]
  LET i == o.a[1]
      Upd(x) == [s |-> [s EXCEPT ![i] = x.s], r |-> x.r]
  IN CASE o.n = "put"     -> Upd(Put(s[i], o.a[2], o.a[3]))
       [] o.n = "del"     -> Upd(Delete(s[i], o.a[2]))
       [] o.n = "branch"  -> [s |-> s, r |-> IF o.a[2] \in Tips(s[i]) THEN "none" ELSE TipError(s[i], o.a[2])]
       [] o.n = "clear"   -> Upd(Out(Empty(s[i].mv, s[i].mb), "none"))
       [] o.n = "reparse" -> [s |-> s, r |-> "none"]
       [] o.n = "apply"   -> Upd(Merge(s[i], s[o.a[2]]))
       [] o.n = "assign"  -> Upd(Out(s[o.a[2]], "none"))
       [] o.n = "parse"   -> Upd(Parse(s[i], o.a[2], o.a[3], o.a[4]))
       [] o.n = "swap"    -> [s |-> [s EXCEPT ![i] = s[o.a[2]], ![o.a[2]] = s[i]], r |-> "none"]

Obs(s) == [i \in Objs |-> [mv |-> s[i].mv, mb |-> s[i].mb, br |-> Branches(s[i])]]
\* 'same': an operation that fails leaves the serialised forms of all objects as they were.
Apply(s, o) == LET d == Do(s, o) IN [s |-> d.s, r |-> [res |-> d.r, same |-> TRUE, obs |-> Obs(d.s)]]

-----------------------------------------------------------------------------
Acyclic(s) == LET RECURSIVE Up(_, _)
                  Up(v, k) == IF ~Held0(s, v) THEN TRUE ELSE k > 0 /\ Up(s.par[v], k - 1)
              IN \A v \in Held(s) : Up(v, N)
ObjInv(s) ==
  /\ Acyclic(s)
  /\ Cardinality(Held(s)) <= s.mv /\ Cardinality(Tips(s)) <= s.mb
  /\ (s.root = 0) = (Held(s) = {})
  /\ s.root # 0 => s.root \in Tops(s)
  /\ \A v \in Held(s) : s.par[v] = 0 => v = s.root          \* one root; all others have parents
  /\ UNION {Ancestors(s, t) : t \in Tips(s)} = Held(s)     \* the branches show everything held
Inv(s) == \A i \in Objs : ObjInv(s[i])

Errors == {"parsing_error", "invalid_argument", "cannot_exceed_limit", "no_such_element"}
StepInv(s, o, a) ==
  LET i == o.a[1]  r == a.r.res  x == s[i]  y == a.s[i]
  IN /\ \A j \in Objs \ {i} : o.n # "swap" => a.s[j] = s[j]
     /\ r \in Errors => a.s = s
     /\ o.n = "put" /\ r = "none" /\ ~Held0(x, o.a[3]) => y.par = [x.par EXCEPT ![o.a[3]] = o.a[2]]
     /\ o.n = "put" /\ r = Removed(o.a[3]) => y = x
     /\ o.n = "put" /\ r \notin Errors \cup {"none", Removed(o.a[3])} =>
          /\ r = Removed(x.root)
          /\ Held(y) = (Held(x) \cup {o.a[3]}) \ {x.root}
     /\ o.n = "del" /\ r = "none" =>
          LET gone == Held(x) \ Held(y)
          IN /\ o.a[2] \in gone /\ gone \subseteq Ancestors(x, o.a[2])
             /\ \A v \in Held(y) : y.par[v] = x.par[v]
             /\ Tips(y) = Tips(x) \ {o.a[2]}
             /\ \A v \in gone : Cardinality(Children(x, v)) <= 1
=============================================================================
