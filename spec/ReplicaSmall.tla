---------------------------- MODULE ReplicaSmall ----------------------------
(* A small world of one replica: its own branches, one more writer whose     *)
(* events arrive from elsewhere, short frames. Shared by the exhaustive      *)
(* check of the specification and by the generator of histories.             *)
EXTENDS Replica, FiniteSetsExt
CONSTANTS YARNS,      \* branches there may be
          OTHERS,     \* writers elsewhere
          EVENTS,     \* how many events there may be in all branches together
          FORMS,      \* types of objects
          PAIRS,      \* frames of two entries
          LIFE        \* branches come and go, the replica is reopened

Value(f, w) == CASE f = FRga -> <<"s:61">>
                 [] f = FLww -> <<"u:key", w>>
                 [] OTHER    -> <<w>>
RankOf(f) == CASE f = FRga -> <<2, 97>> [] f = FLww -> <<0, 1>> [] OTHER -> <<1, 0, 0, 0, 0, 1>>
Fill(id, ref, f) == <<id, ref, Value(f, "i:1"), RankOf(f)>>
New(id, f) == <<id, FormName(f), <<>>, <<0>>>>

OpsIn(b) == UNION {OpsOf(b.logs[o]) : o \in DOMAIN b.logs}
AllOpsIn(r) == UNION {OpsIn(r.br[y]) : y \in Branches(r)}
Count(r) == FoldSet(LAMBDA y, n : n + Cardinality(DOMAIN r.br[y].obj), 0, Branches(r))
(* a writer does not make two different events under one id                  *)
Honest(r, op) == \A p \in AllOpsIn(r) : Id(p) = Id(op) => p = op

Objects(b) == {o \in DOMAIN b.logs : RdtOf(b, o) \in FORMS}
Parents(b, o) == IF RdtOf(b, o) = FRga THEN IdsOf(b.logs[o]) ELSE {o}
NextV(b, y) == IF Started(b, y) THEN b.last[y] + 1 ELSE 1
Foreign(r, b) ==
    LET at(y) == {NextV(b, y), NextV(b, y) + 1}
    IN  {op \in UNION {{YarnOp(<<EVENT, v, y>>) : v \in at(y)} : y \in {z \in OTHERS : ~Started(b, z)}}
            \cup UNION {{New(<<EVENT, v, y>>, f) : v \in at(y), f \in FORMS} : y \in OTHERS}
            \cup UNION {UNION {{Fill(<<EVENT, v, y>>, p, RdtOf(b, o)) : v \in at(y), p \in Parents(b, o)} :
                          o \in Objects(b)} : y \in OTHERS} : Honest(r, op)}
Copies(r, b) == AllOpsIn(r) \ OpsIn(b)
Wrong(b) == {<<<<EVENT, 90, b.own>>, <<EVENT, 89, 9>>, <<>>, <<0>>>>} \cup
            {op \in OpsIn(b) : Id(op) = b.tip}
LocalOps(b) == {<<<<UNSTAMPED, 0, 0>>, FormName(f), <<>>, <<0>>>> : f \in FORMS \cap Stamped}
               \cup UNION {{Fill(<<UNSTAMPED, 0, 0>>, p, RdtOf(b, o)) : p \in Parents(b, o)} : o \in Objects(b)}
Event(op) == [k |-> "event", op |-> op]
Loc(op) == [k |-> "local", op |-> op]
Entries(r, b) == {Event(op) : op \in Foreign(r, b) \cup Copies(r, b) \cup Wrong(b)} \cup {Loc(op) : op \in LocalOps(b)}
Frames(r, b) ==
    LET E == Entries(r, b)
    IN  {<<e>> : e \in E}
        \cup {<<e, Loc(<<<<UNSTAMPED, 1, 0>>, <<UNSTAMPED, 0, 0>>, Val(op), Rank(op)>>)>> :
                e \in {x \in E : x.k = "local"}, op \in {Fill(NoId, NoId, f) : f \in FORMS \cap {FRga}}}
        \cup (IF PAIRS THEN {<<e, d>> : e \in E, d \in E} ELSE {})

Base(o, y) == [op |-> o, y |-> y, ids |-> <<>>, ok |-> FALSE]
Cmds(r) ==
    (IF Count(r) >= EVENTS THEN {}
     ELSE {Base("recv", y) @@ [frame |-> f, syntax |-> "ok", resp |-> <<>>] : <<y, f>> \in
               UNION {{<<y, f>> : f \in Frames(r, r.br[y])} : y \in Branches(r)}}
          \cup {Base("branch", y) @@ [tr |-> FALSE] : y \in YARNS}
          \cup (IF LIFE THEN {Base("fork", y) @@ [from |-> z] : y \in YARNS, z \in YARNS} ELSE {}))
    \cup (IF LIFE THEN {Base(o, y) : o \in {"drop", "activate"}, y \in YARNS}
                       \cup (IF r.open THEN {[op |-> "close", ok |-> TRUE, ids |-> <<>>]} ELSE {[op |-> "open", ok |-> FALSE, ids |-> <<>>]})
                       \cup {[op |-> "create", ids |-> <<>>, ok |-> FALSE]}
          ELSE {})

Outcome(r, c) == IF c.op = "close" THEN c ELSE [c EXCEPT !.ok = (Must(r, c) = "yes")]

Do(r, o) == Step(r, o @@ [ids |-> <<>>, ok |-> TRUE])
Init_ == Do(Do(Do(Blank, [op |-> "create"]), [op |-> "open"]),
            [op |-> "branch", y |-> CHOOSE y \in YARNS : \A z \in YARNS : y <= z, tr |-> FALSE])
=============================================================================
