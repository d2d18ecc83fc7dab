------------------------------- MODULE Store -------------------------------
(* Keyed stores of op frames: the durable one (a database directory with any *)
(* number of branches), the in-memory one, and the joined view of a base and *)
(* an overlay (a transaction). A key is <<form, limbs of origin and value>>, *)
(* compared lexicographically; a record's value is the merge, by the key's   *)
(* form, of all the frames ever written under the key.                       *)
(*                                                                           *)
(* State s: .db     "none" | "there"      the database directory             *)
(*          .br     branch -> contents    contents: key -> frames written    *)
(*          .sl     slot -> handle        what a program holds               *)
(*          .it     name -> iterator                                         *)
(* An event is a record: .op, its arguments, and the recorded outcome        *)
(* (.ok, .out, .key, .val, .recs, .ids). Allowed(s, e) says whether the      *)
(* outcome is right, Step(s, e) gives the state after it.                    *)
EXTENDS Rdt

ENDKEY  == <<255, 1073741823, 1073741823, 1073741823, 1073741823>>
ZEROKEY == <<0, 0, 0, 0, 0>>
MAIN == "0"            \* the database's own (default) branch
NOSLOT == ""
KeyLt(a, b) == SeqLt(a, b)
KeyLeq(a, b) == a = b \/ KeyLt(a, b)

NoContents == <<>>
Blank == [db |-> "none", br |-> <<>>, sl |-> <<>>, it |-> <<>>]

ZeroFrame == <<<<<<NAME, 1000, 0>>, FormName(FZero), <<>>, <<0>>>>>>

----------------------------------------------------------------------------
(* contents                                                                  *)
At(c, k) == IF k \in DOMAIN c THEN c[k] ELSE <<>>
Put(c, k, f) == (k :> Append(At(c, k), f)) @@ c
RECURSIVE PutAll(_, _)
PutAll(c, recs) == IF recs = <<>> THEN c
                   ELSE PutAll(Put(c, Head(recs)[1], Head(recs)[2]), Tail(recs))
Over(c, d) == [k \in DOMAIN c \cup DOMAIN d |-> At(c, k) \o At(d, k)]
Value(c, k) == Merge(k[1], At(c, k))
Keys(c) == DOMAIN c \ {ENDKEY}

Least(K)    == CHOOSE k \in K : \A j \in K : KeyLeq(k, j)
Greatest(K) == CHOOSE k \in K : \A j \in K : KeyLeq(j, k)
(* where a seek lands                                                        *)
Landing(c, k, prev) ==
    LET K == {j \in Keys(c) : IF prev THEN KeyLeq(j, k) ELSE KeyLeq(k, j)}
    IN  IF K = {} THEN ENDKEY ELSE IF prev THEN Greatest(K) ELSE Least(K)
After(c, k) ==
    LET K == {j \in Keys(c) : KeyLt(k, j)}
    IN  IF K = {} THEN ENDKEY ELSE Least(K)
(* every key once, in order, with its value                                  *)
InOrder(c) == SetToSortSeq(Keys(c), KeyLt)

----------------------------------------------------------------------------
(* handles                                                                   *)
Closed == [k |-> "closed"]
Handle(s, x) == IF x \in DOMAIN s.sl THEN s.sl[x] ELSE Closed
Rocks(b) == [k |-> "rocks", b |-> b]
Mem(c) == [k |-> "mem", c |-> c]
Joined(a, b) == [k |-> "joined", a |-> a, b |-> b]
IsRocks(s, x) == Handle(s, x).k = "rocks"
DbOpen(s) == \E x \in DOMAIN s.sl : s.sl[x].k = "rocks"

RECURSIVE View(_, _)
View(s, x) ==
    LET h == Handle(s, x)
    IN  CASE h.k = "rocks" -> IF h.b \in DOMAIN s.br THEN s.br[h.b] ELSE NoContents
          [] h.k = "mem" -> h.c
          [] h.k = "joined" -> Over(View(s, h.a), View(s, h.b))
          [] OTHER -> NoContents
(* the slot that takes the writes                                            *)
RECURSIVE Target_(_, _)
Target_(s, x) == IF Handle(s, x).k = "joined" THEN Target_(s, Handle(s, x).b) ELSE x

SetSlot(s, x, h) == [s EXCEPT !.sl = (x :> h) @@ @]
SetBranch(s, b, c) == [s EXCEPT !.br = (b :> c) @@ @]
Without(f, K) == [x \in DOMAIN f \ K |-> f[x]]

WriteTo(s, x, recs) ==
    LET t == Target_(s, x)  h == Handle(s, t)
    IN  CASE h.k = "rocks" -> SetBranch(s, h.b, PutAll(s.br[h.b], recs))
          [] h.k = "mem" -> SetSlot(s, t, Mem(PutAll(h.c, SelectSeq(recs, LAMBDA r : r[1] # ENDKEY))))
          [] OTHER -> s

(* the records of a transaction, as they are handed over                     *)
RECURSIVE Records(_, _)
Records(c, ks) == IF ks = <<>> THEN <<>>
                  ELSE [i \in 1..Len(c[Head(ks)]) |-> <<Head(ks), c[Head(ks)][i]>>]
                       \o Records(c, Tail(ks))
AllRecords(c) == Records(c, SetToSortSeq(DOMAIN c, KeyLt))

----------------------------------------------------------------------------
(* outcomes: what must succeed, what must be refused                         *)
HasDb(s, e) == IsRocks(s, e.slot) \/ (e.from # NOSLOT /\ IsRocks(s, e.from))
CanCreate(s, e) == /\ HasDb(s, e) \/ ~DbOpen(s)
                   /\ e.b = MAIN \/ e.b \notin DOMAIN s.br
\* a single-branch database is opened on the way; one with more branches may be refused
SureCreate(s, e) == CanCreate(s, e) /\ (HasDb(s, e) \/ DOMAIN s.br \subseteq {MAIN})
Created(s, e) ==
    LET s1 == IF s.db = "none" THEN [SetBranch(s, MAIN, NoContents) EXCEPT !.db = "there"] ELSE s
        old == IF e.b \in DOMAIN s1.br THEN s1.br[e.b] ELSE NoContents
    IN  SetSlot(SetBranch(s1, e.b, Put(old, ZEROKEY, ZeroFrame)), e.slot, Rocks(e.b))
(* the process may die in the middle of it                                   *)
HalfCreated(s, e) ==
    LET s1 == IF s.db = "none" THEN [SetBranch(s, MAIN, NoContents) EXCEPT !.db = "there"] ELSE s
        old == IF e.b \in DOMAIN s1.br THEN s1.br[e.b] ELSE NoContents
    IN  {s1, SetBranch(s1, e.b, old)}

CanOpen(s, e) == ~IsRocks(s, e.slot) /\ s.db = "there" /\ ~DbOpen(s) /\ e.b \in DOMAIN s.br
SureOpen(s, e) == CanOpen(s, e) /\ e.b = MAIN /\ DOMAIN s.br = {MAIN}

CanOpenAll(s) == s.db = "there" /\ ~DbOpen(s)
OpenedAll(s) == [s EXCEPT !.sl = [b \in DOMAIN s.br |-> Rocks(b)] @@ @]

(* must: "yes" | "no" | "any"                                                *)
Must(s, e) ==
    CASE e.op = "create" -> IF SureCreate(s, e) THEN "yes" ELSE IF CanCreate(s, e) THEN "any" ELSE "no"
      [] e.op = "open" -> IF SureOpen(s, e) THEN "yes" ELSE IF CanOpen(s, e) THEN "any" ELSE "no"
      [] e.op = "openall" -> IF CanOpenAll(s) THEN "yes" ELSE "no"
      [] e.op = "close" -> IF Handle(s, e.slot).k = "closed" THEN "no" ELSE "yes"
      [] e.op = "drop" -> IF IsRocks(s, e.slot) /\ Handle(s, e.slot).b # MAIN THEN "yes" ELSE "no"
      [] e.op \in {"write", "batch"} ->
            LET recs == IF e.op = "write" THEN <<<<e.k, e.f>>>> ELSE e.recs
            IN  IF Handle(s, Target_(s, e.slot)).k = "closed" THEN "no"
                ELSE IF \E i \in 1..Len(recs) : recs[i][1] = ENDKEY
                     THEN IF \E i \in 1..Len(recs) : recs[i][1] = ENDKEY /\ recs[i][2] # <<>> THEN "no" ELSE "any"
                ELSE "yes"
      [] e.op = "release" -> IF IsRocks(s, e.to) THEN "yes" ELSE "no"
      [] e.op \in {"read"} ->
            IF Handle(s, e.slot).k = "closed" THEN "no"
            ELSE IF e.k = ENDKEY THEN "any"
            ELSE IF Value(View(s, e.slot), e.k).st = "OK" THEN "yes" ELSE "no"
      [] e.op = "dump" -> IF Handle(s, e.slot).k = "closed" THEN "no" ELSE "yes"
      [] OTHER -> "yes"

----------------------------------------------------------------------------
(* iterators: a durable one looks at the contents as of its creation; over   *)
(* memory it looks at what is there, and after a change is only good for     *)
(* another seek.                                                             *)
NoPos == <<>>
Base(s, x) == LET h == Handle(s, x)
              IN  IF h.k = "rocks" THEN View(s, x)
                  ELSE IF h.k = "joined" THEN (IF IsRocks(s, h.a) THEN View(s, h.a) ELSE NoContents)
                  ELSE NoContents
Live(s, x) == LET h == Handle(s, x)
              IN  IF h.k = "mem" THEN h.c
                  ELSE IF h.k = "joined"
                       THEN Over(IF IsRocks(s, h.a) THEN NoContents ELSE View(s, h.a), View(s, h.b))
                  ELSE NoContents
Seen(s, i) == Over(i.base, Live(s, i.slot))
NewIter(s, x) == [slot |-> x, k |-> Handle(s, x).k, base |-> Base(s, x),
                  view |-> Over(Base(s, x), Live(s, x)), pos |-> NoPos]
Fresh(s, i) == i.view = Seen(s, i)
Tracked(s, i) == i.pos # NoPos /\ Fresh(s, i)

ValueOk(c, k, ok, v) ==
    IF k = ENDKEY THEN v = <<>>
    ELSE LET x == Value(c, k) IN x.st = "OK" => v = x.out

(* a record may stand at the end key itself; it is never anything but empty  *)
SeekOk(s, e) ==
    LET i == s.it[e.it]  c == Seen(s, i)  l == Landing(c, e.k, e.prev)
    IN  IF i.k = "closed" THEN ~e.ok /\ e.key = ENDKEY /\ e.val = <<>>
        ELSE /\ \/ e.key = l
                \/ e.key = ENDKEY /\ ENDKEY \in DOMAIN c /\ e.k = ENDKEY
             /\ e.key # ENDKEY => e.ok
             /\ ValueOk(c, e.key, e.ok, e.val)
NextOk(s, e) ==
    LET i == s.it[e.it]
    IN  IF i.k = "closed" THEN ~e.ok /\ e.key = ENDKEY /\ e.val = <<>>
        ELSE Tracked(s, i) =>
             LET n == IF i.pos = ENDKEY THEN ENDKEY ELSE After(i.view, i.pos)
             IN  /\ e.key = n
                 /\ n # ENDKEY => e.ok
                 /\ n = ENDKEY /\ i.k = "rocks" /\ ENDKEY \notin DOMAIN i.view => ~e.ok
                 /\ ValueOk(i.view, n, e.ok, e.val)

DumpOk(s, e) ==
    LET c == View(s, e.slot)  ks == InOrder(c)
    IN  /\ Len(e.recs) = Len(ks)
        /\ \A i \in 1..Len(ks) : e.recs[i][1] = ks[i] /\ ValueOk(c, ks[i], TRUE, e.recs[i][2])

----------------------------------------------------------------------------
Allowed(s, e) ==
    LET m == Must(s, e)
    IN  CASE e.op = "seek" -> SeekOk(s, e)
          [] e.op = "next" -> NextOk(s, e)
          [] e.op \in {"iter", "iclose", "mem", "join"} -> TRUE
          [] e.op = "istop" -> e.ok
          [] OTHER ->
             /\ m = "yes" => e.ok
             /\ m = "no" => ~e.ok
             /\ CASE e.op = "read" -> e.ok => IF e.k = ENDKEY THEN e.out = <<>>
                                              ELSE e.out = Value(View(s, e.slot), e.k).out
                  [] e.op = "dump" -> e.ok => DumpOk(s, e)
                  [] e.op = "openall" -> e.ok => /\ {e.ids[i] : i \in 1..Len(e.ids)} = DOMAIN s.br
                                                 /\ Len(e.ids) = Cardinality(DOMAIN s.br)
                  [] OTHER -> TRUE

SetIter(s, n, i) == [s EXCEPT !.it = (n :> i) @@ @]

Step(s, e) ==
    CASE e.op = "seek" ->
            LET i == s.it[e.it]
            IN  SetIter(s, e.it, [i EXCEPT !.view = Seen(s, i), !.pos = IF i.k = "closed" THEN NoPos ELSE e.key])
      [] e.op = "next" ->
            LET i == s.it[e.it]
            IN  SetIter(s, e.it, [i EXCEPT !.pos = IF Tracked(s, i) THEN e.key ELSE NoPos])
      [] e.op = "iter" -> SetIter(s, e.it, NewIter(s, e.slot))
      [] e.op = "iclose" -> [s EXCEPT !.it = Without(@, {e.it})]
      \* a durable store's iterator is over then, a store in memory has no such thing
      [] e.op = "istop" ->
            LET i == s.it[e.it]
            IN  SetIter(s, e.it, IF i.k = "mem" THEN [i EXCEPT !.view = Seen(s, i), !.pos = ENDKEY]
                                 ELSE [i EXCEPT !.k = "closed", !.pos = NoPos])
      [] e.op = "mem" -> SetSlot(s, e.slot, Mem(NoContents))
      [] e.op = "join" -> SetSlot(s, e.slot, Joined(e.a, e.b))
      [] ~e.ok -> s
      [] e.op = "create" -> Created(s, e)
      [] e.op = "open" -> SetSlot(s, e.slot, Rocks(e.b))
      [] e.op = "openall" -> OpenedAll(s)
      [] e.op = "close" -> SetSlot(s, e.slot, IF IsRocks(s, e.slot) THEN Closed ELSE Mem(NoContents))
      [] e.op = "drop" -> SetSlot([s EXCEPT !.br = Without(@, {Handle(s, e.slot).b})], e.slot, Closed)
      [] e.op = "write" -> WriteTo(s, e.slot, <<<<e.k, e.f>>>>)
      [] e.op = "batch" -> WriteTo(s, e.slot, e.recs)
      [] e.op = "memopen" ->   \* a fresh transaction's first records, with an end mark
            SetSlot(s, e.slot, Mem((ENDKEY :> <<>>) @@ Put(s.sl[e.slot].c, ZEROKEY, e.f)))
      [] e.op = "release" -> LET c == Handle(s, e.slot).c
                                 s1 == WriteTo(s, e.to, AllRecords(Without(c, {ENDKEY})))
                                 t == Handle(s, e.to).b
                             IN  IF ENDKEY \in DOMAIN c THEN SetBranch(s1, t, (ENDKEY :> <<>>) @@ s1.br[t]) ELSE s1
      [] OTHER -> s            \* read, dump, flush, compact, tidy, repair: nothing changes

----------------------------------------------------------------------------
(* A process is killed: what it had finished stays, what it was doing has    *)
(* either happened or not, and nothing is open any more.                     *)
Dead(s) == [s EXCEPT !.sl = <<>>, !.it = <<>>]
InFlight(s, e) ==
    CASE e.op = "create" -> IF Must(s, e) = "no" THEN {s} ELSE {s, Created(s, e)} \cup HalfCreated(s, e)
      [] e.op \in {"write", "batch", "release", "drop"} ->
            IF Must(s, e) = "no" THEN {s} ELSE {s, Step(s, [e EXCEPT !.ok = TRUE])}
      [] OTHER -> {s}
=============================================================================
