------------------------------- MODULE RdtGen -------------------------------
(* Exhaustive small inputs for the data types, derived from the spec's own   *)
(* notions (trees, chains, pieces of a tree, logs). Printed as CASE lines,   *)
(* run through the real code, and the outcome checked by RdtTrace.           *)
EXTENDS Rdt, Json
CONSTANTS Kind, N

Nid(i) == <<EVENT, 1 + (i \div 2), i % 2>>
Char(i) == <<"s:" \o ToString(60 + i)>>
Trees(n) == {p \in [2..n -> 1..n] : \A i \in 2..n : p[i] < i}
Op(p, i, v) == <<Nid(i), IF i = 1 THEN FormName(FRga) ELSE Nid(p[i]),
                 IF i = 1 THEN <<>> ELSE v, <<0>>>>
TreeOps(p, n, vals) == {Op(p, i, vals[i]) : i \in 1..n}
Full(p, n, vals) == TreeFrom(Op(p, 1, <<>>), TreeOps(p, n, vals))
Chars(n) == [i \in 1..n |-> Char(i)]

Case(c) == PrintT(<<"CASE", ToJson(c)>>)

Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}

(* Cutting a tree at some edges gives pieces; any order of them is an input. *)
PieceRoots(p, n, C) == {1} \cup C
RECURSIVE PieceOf(_, _, _)
PieceOf(p, C, i) == IF i = 1 \/ i \in C THEN i ELSE PieceOf(p, C, p[i])
Piece(p, n, C, r) ==
    TreeFrom(Op(p, r, Char(r)), {Op(p, i, Char(i)) : i \in {j \in 1..n : PieceOf(p, C, j) = r}})
Weaves(u) == \A n \in 1..N : \A p \in Trees(n) : \A C \in SUBSET (2..n) :
    LET R == PieceRoots(p, n, C)
    IN  \A o \in (IF Cardinality(R) <= 4 THEN Perms(R) ELSE {SetToSortSeq(R, <), SetToSortSeq(R, >)}) :
          /\ Case([k |-> "merge", form |-> FRga,
                   in |-> [x \in 1..Len(o) |-> Piece(p, n, C, o[x])]])
          \* one piece missing: something may be left hanging
          /\ Len(o) > 1 =>
             Case([k |-> "merge", form |-> FRga,
                   in |-> [x \in 1..(Len(o) - 1) |-> Piece(p, n, C, o[x])]])

(* Pairs and triples of states: down-closed parts of one history.            *)
Downs(p, n) == {D \in SUBSET (1..n) : 1 \in D /\ \A i \in D : i = 1 \/ p[i] \in D}
Part(p, D) == TreeFrom(Op(p, 1, <<>>), {Op(p, i, Char(i)) : i \in D})
States(u) == \A p \in Trees(N) : \A D, E \in Downs(p, N) :
    /\ Case([k |-> "merge", form |-> FRga, in |-> <<Part(p, D), Part(p, E)>>])
    /\ (D \cup E = 1..N) => Case([k |-> "merge", form |-> FRga,
          in |-> <<Part(p, E), Part(p, D), Part(p, D \cup E), Part(p, D \cap E)>>])

(* Sorted forms: arbitrary subsets of one universe of ops.                   *)
Sop(f, i) == <<Nid(i), IF i = 1 THEN FormName(f) ELSE Nid(1), IF i = 1 THEN <<>> ELSE Char(i), <<0>>>>
SFrame(f, S) == SortOps({Sop(f, i) : i \in S})
Sorted(u) == \A f \in {FLww, FMx, FYarn, FMeta} :
    LET U == SUBSET (1..N) IN
    /\ \A A, B \in U : Case([k |-> "merge", form |-> f, in |-> <<SFrame(f, A), SFrame(f, B)>>])
    /\ \A A, B, C \in {x \in U : x # {}} : (f = FLww \/ A \cup B \cup C = 1..N) =>
         Case([k |-> "merge", form |-> f, in |-> <<SFrame(f, A), SFrame(f, B), SFrame(f, C)>>])

(* Logs and untyped records.                                                 *)
Plain(u) == \A f \in {FLog, FZero, FError} : \A A, B, C \in SUBSET (1..N) :
    Case([k |-> "merge", form |-> f, in |-> <<SFrame(FLww, A), SFrame(FLww, B), SFrame(FLww, C)>>])

(* Frames that say (or do not say) their own type.                           *)
Typed(f, hd) == IF hd THEN <<Sop(f, 1), Sop(f, 2)>> ELSE <<Sop(f, 3)>>
Declared(u) == \A f, g \in {FLww, FMx, FYarn, FMeta, FLog} : \A a, b \in BOOLEAN :
    Case([k |-> "frames", form |-> 0, in |-> <<Typed(f, a), Typed(g, b)>>])

(* Maximum registers; values by index into a table the driver script has.    *)
MaxVals == 1..N
Mop(i, v) == <<Nid(i), IF i = 1 THEN FormName(FMax) ELSE Nid(1), IF i = 1 THEN <<>> ELSE <<"v:" \o ToString(v)>>, <<0>>>>
Maxes(u) == \A h \in [1..2 -> BOOLEAN] : \A a, b, c \in MaxVals : \A s \in 0..3 :
    LET hd(x) == IF h[x] THEN <<Mop(1, 1)>> ELSE <<>>
    IN  Case([k |-> "merge", form |-> FMax,
              in |-> CASE s = 0 -> <<hd(1) \o <<Mop(2, a)>>, hd(2) \o <<Mop(3, b), Mop(4, c)>>>>
                       [] s = 1 -> <<hd(1) \o <<Mop(4, a)>>, hd(2) \o <<Mop(3, b)>>, <<Mop(2, c)>>>>
                       [] s = 2 -> <<hd(1), <<Mop(2, a)>>, hd(2) \o <<Mop(3, b), Mop(4, c)>>>>
                       [] s = 3 -> <<hd(1) \o <<Mop(2, a), Mop(3, b), Mop(4, c)>>, hd(2), <<Mop(2, a)>>>>])

(* Scans: every tree with every assignment of content / removal / undo.      *)
Kinds(n) == [1..n -> {<<"s:61">>, <<RM>>, <<UN>>}]
Scans(u) == \A n \in 1..N : \A p \in Trees(n) : \A v \in Kinds(n) :
    v[1] = <<RM>> => Case([k |-> "scan", in |-> Full(p, n, v)])
(* and broken ones: the ops of a tree in an arbitrary order                  *)
Broken(u) == \A p \in Trees(N) : \A o \in Perms(1..N) :
    Case([k |-> "scan", in |-> [x \in 1..N |-> Op(p, o[x], Char(o[x]))]])

(* Logs: every causal order of every tree, cut at every op.                  *)
Orders(p, n) == {o \in Perms(1..n) : \A i \in 2..n : \E j, k \in 1..n : o[j] = p[i] /\ o[k] = i /\ j < k}
Logs(u) == \A p \in Trees(N) : \A o \in Orders(p, N) :
    LET l == [x \in 1..N |-> Op(p, o[x], Char(o[x]))]
    IN  /\ Case([k |-> "chains", in |-> l, cut |-> 0])
        /\ Case([k |-> "state", in |-> l, cut |-> 0])
        /\ \A c \in 1..N : /\ Case([k |-> "state", in |-> l, cut |-> c])
                           /\ Case([k |-> "chains", in |-> l, cut |-> c])
(* Logs of objects of the sorted types: interleaved yarns.                   *)
LwwLogs(u) == \A f \in {FLww, FMx} : \A q \in Trees(N) : \A c \in 0..N :
    Case([k |-> "state", cut |-> c,
          in |-> [x \in 1..N |-> <<Nid(x), IF x = 1 THEN FormName(f) ELSE Nid(q[x]),
                                  IF x = 1 THEN <<>> ELSE Char(x), <<0>>>>]])

(* Compaction: states with every assignment of keys.                         *)
Keys == {"s:61", "s:62", "u:abc", "i:5"}
\* (an op that has a key and no value is a deletion)
Gop(i, key, d) == <<Nid(i), IF i = 1 THEN FormName(FLww) ELSE Nid(1),
                    IF i = 1 THEN <<>> ELSE IF i = d THEN <<key>>
                    ELSE <<key, "i:" \o ToString(i)>>, <<0>>>>
Gcs(u) == \A key \in [2..N -> Keys] : \A h \in {1, 2} : \A d \in {0, N - 1, N} :
    LET f == [x \in 1..(N - h + 1) |-> Gop(x + h - 1, IF x + h - 1 = 1 THEN "" ELSE key[x + h - 1], d)]
    IN  /\ Case([k |-> "gc", in |-> f])
        /\ Case([k |-> "mergegc", form |-> FLww,
                 in |-> <<SubSeq(f, 1, 2), SubSeq(f, 2, Len(f)), <<f[1]>>>>])

\* (operators with a parameter: TLC would evaluate all of them otherwise)
ASSUME CASE Kind = "weave"   -> Weaves(0)
         [] Kind = "states"  -> States(0)
         [] Kind = "sorted"  -> Sorted(0) /\ Plain(0)
         [] Kind = "declared" -> Declared(0)
         [] Kind = "max"     -> Maxes(0)
         [] Kind = "scan"    -> Scans(0)
         [] Kind = "broken"  -> Broken(0)
         [] Kind = "logs"    -> Logs(0)
         [] Kind = "lwwlogs" -> LwwLogs(0)
         [] Kind = "gc"      -> Gcs(0)

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
