----------------------------- MODULE StoreModel -----------------------------
(* Exhaustive check that the specification of the stores says what it is     *)
(* meant to say.                                                             *)
EXTENDS StoreSmall
CONSTANT DEPTH
VARIABLES s, log
(* log: branch -> all the records ever written to it, in order of taking     *)
(* effect, kept independently of the stores                                  *)
vars == <<s, log>>

Flow(e) ==  \* records that take effect in a branch with this event
    LET x == IF e.op = "release" THEN e.to ELSE IF e.op \in {"write", "batch", "create"} THEN e.slot ELSE ""
        h == Handle(s, x)
        recs == CASE e.op = "write" -> <<<<e.k, e.f>>>>
                  [] e.op = "batch" -> e.recs
                  [] e.op = "create" -> <<<<ZEROKEY, ZeroFrame>>>>
                  [] e.op = "release" -> AllRecords(s.sl["m"].c)
                  [] OTHER -> <<>>
        b == IF e.op = "create" THEN e.b ELSE IF h.k = "rocks" THEN h.b ELSE ""
    IN  <<b, recs>>

LogOf(l, b) == IF b \in DOMAIN l THEN l[b] ELSE <<>>
Grow(e) == LET f == Flow(e)
           IN  IF ~e.ok \/ f[1] = "" THEN (IF e.op = "drop" /\ e.ok THEN Without(log, {Handle(s, e.slot).b}) ELSE log)
               ELSE (f[1] :> (LogOf(log, f[1]) \o f[2])) @@ log

Init == s = Init_ /\ log = <<>>
Next == \E c \in Cmds(s) :
          LET e == Outcome(s, c) IN s' = After_(s, e) /\ log' = Grow(e)
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") < DEPTH

Under(l, k) == LET f == SelectSeq(l, LAMBDA r : r[1] = k) IN [i \in 1..Len(f) |-> f[i][2]]
(* C13: a record is the merge of all writes under its key                    *)
ReadsAreMerges ==
    \A b \in DOMAIN s.br :
       /\ Keys(s.br[b]) = {r[1] : r \in {LogOf(log, b)[i] : i \in 1..Len(LogOf(log, b))}}
       /\ \A k \in Keys(s.br[b]) : /\ Value(s.br[b], k) = Merge(k[1], Under(LogOf(log, b), k))
                                   /\ Value(s.br[b], k).st = "OK"
(* C15: only the branch an event is about changes                            *)
Isolation == [][\A b \in DOMAIN s.br \cap DOMAIN s'.br :
                  s.br[b] # s'.br[b] =>
                     \A d \in (DOMAIN s.br \cap DOMAIN s'.br) \ {b} : s.br[d] = s'.br[d]]_vars
OneOpen == \A x \in DOMAIN s.sl : s.sl[x].k = "rocks" => s.sl[x].b \in DOMAIN s.br
(* C15: a reopening finds what was there                                     *)
Reopens == CanOpenAll(s) => LET t == Step(s, [op |-> "openall", ok |-> TRUE])
                            IN  \A b \in DOMAIN s.br : View(t, b) = s.br[b]
(* C18: what the joined view says is what the base says once saved           *)
SavedIsJoined ==
    ("j" \in DOMAIN s.sl /\ IsRocks(s, s.sl["j"].a)) =>
       LET a == s.sl["j"].a
           t == Step(s, [op |-> "release", slot |-> "m", to |-> a, ok |-> TRUE])
       IN  /\ Keys(View(s, "j")) = Keys(View(t, a))
           /\ \A k \in Keys(View(s, "j")) : Value(View(s, "j"), k) = Value(View(t, a), k)
(* C17: handed over to an empty store, a transaction reads the same          *)
HandOver ==
    "m" \in DOMAIN s.sl =>
       LET c == s.sl["m"].c IN \A k \in Keys(c) : Value(PutAll(NoContents, AllRecords(c)), k) = Value(c, k)
(* C16: stepping from the first seek visits every key once, in order         *)
RECURSIVE Walk(_, _)
Walk(c, k) == IF k = ENDKEY THEN <<>> ELSE <<k>> \o Walk(c, After(c, k))
Walks == \A x \in DOMAIN s.sl :
           LET c == View(s, x)  w == Walk(c, Landing(c, ZEROKEY, FALSE))
           IN  /\ w = InOrder(c)
               /\ \A i \in 1..(Len(w) - 1) : KeyLt(w[i], w[i + 1])
               /\ \A i \in 1..Len(w) : Landing(c, w[i], TRUE) = w[i] /\ Landing(c, w[i], FALSE) = w[i]
               /\ Len(w) > 0 => Landing(c, ENDKEY, TRUE) = w[Len(w)]
(* C14: a death in the middle of a batch leaves all of it or nothing         *)
AllOrNothing ==
    \A c \in {d \in Cmds(s) : d.op = "batch" /\ Must(s, d) = "yes"} :
       \A t \in InFlight(s, c) :
          LET b == Handle(s, c.slot).b
              has(i) == c.recs[i][2] \in {At(t.br[b], c.recs[i][1])[j] : j \in 1..Len(At(t.br[b], c.recs[i][1]))}
          IN  has(1) = has(2)
=============================================================================
