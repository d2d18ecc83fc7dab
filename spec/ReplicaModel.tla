---------------------------- MODULE ReplicaModel ----------------------------
(* Exhaustive check that the specification of the replica says what it is    *)
(* meant to say.                                                             *)
EXTENDS ReplicaSmall
CONSTANT DEPTH
VARIABLES r, e
vars == <<r, e>>
Nothing == [op |-> "close", ok |-> TRUE, ids |-> <<>>]
Init == r = Init_ /\ e = Nothing
Next == \E c \in Cmds(r) :
          LET d == Outcome(r, c) IN r' \in Steps(r, d) /\ e' = d
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") < DEPTH
State == r

AllB == {r.br[y] : y \in DOMAIN r.br}
Place(log, u) == CHOOSE i \in 1..Len(log) : Id(log[i]) = u
(* C19: everything an event depends on is there, and earlier in the log      *)
Causal ==
    \A b \in AllB : \A o \in DOMAIN b.logs :
       LET log == b.logs[o]
       IN  /\ Id(log[1]) = o /\ Ref(log[1])[1] = NAME
           /\ Cardinality(IdsOf(log)) = Len(log)
           /\ \A i \in 2..Len(log) : /\ Ref(log[i]) \in IdsOf(SubSeq(log, 1, i - 1))
                                     /\ IdLt(Ref(log[i]), Id(log[i]))
           /\ \A i, j \in 1..Len(log) : i < j /\ Id(log[i])[3] = Id(log[j])[3] => Id(log[i])[2] < Id(log[j])[2]
Yarns ==
    \A b \in AllB :
       /\ \A y \in DOMAIN b.last :
             LET mine == {u \in DOMAIN b.obj : u[3] = y}
                 first == CHOOSE u \in mine : \A w \in mine : u[2] <= w[2]
             IN  /\ \E u \in mine : u[2] = b.last[y]
                 /\ \A u \in mine : u[2] <= b.last[y]
                 /\ b.logs[b.obj[first]][1] = YarnOp(first)
       /\ \A u \in DOMAIN b.obj : u[3] \in DOMAIN b.last
       /\ b.tip = <<EVENT, b.last[b.own], b.own>>
Whole == \A b \in AllB : /\ UNION {IdsOf(b.logs[o]) : o \in DOMAIN b.logs} = DOMAIN b.obj
                         /\ \A o \in DOMAIN b.logs : \A u \in IdsOf(b.logs[o]) : b.obj[u] = o
(* C20: a state can always be told from a log; same events, same state       *)
States == \A b \in AllB : \A o \in DOMAIN b.logs : StateOfLog(b.logs[o]).st = "OK"
Converge == \A b, d \in AllB : \A o \in DOMAIN b.logs \cap DOMAIN d.logs :
               OpsOf(b.logs[o]) = OpsOf(d.logs[o]) => StateIn(b, o) = StateIn(d, o)
(* C21: the clock is past everything seen                                    *)
Clock == r.open => Seen(r) <= r.now
Active == r.open => r.act = NOBODY \/ r.act \in Branches(r)

(* C19-C22 as properties of steps                                            *)
OneBranch == [][\A y \in DOMAIN r.br \cap DOMAIN r'.br : r.br[y] # r'.br[y] =>
                  (e'.op = "recv" /\ e'.ok /\ (y = e'.y \/ (e'.y = NOBODY /\ y = r.act)))]_vars
Refused == [][~e'.ok => r' = r]_vars
Forked == [][e'.op = "fork" /\ e'.ok =>
               LET a == r.br[e'.from]  b == r'.br[e'.y]
               IN  /\ r'.br[e'.from] = a
                   /\ \A o \in DOMAIN a.logs : b.logs[o] = a.logs[o]
                   /\ DOMAIN b.obj = DOMAIN a.obj \cup {b.tip} /\ b.tip \notin DOMAIN a.obj]_vars
Later == [][\A y \in DOMAIN r'.br : y \in DOMAIN r.br =>
              \A u \in DOMAIN r'.br[y].obj \ DOMAIN r.br[y].obj :
                 u[3] = y => u[2] > r.br[y].last[y]]_vars
(* one frame of two events is two frames of one                              *)
Splits == [][e'.op = "recv" /\ e'.ok /\ Len(e'.frame) = 2 /\ e'.frame[1].k = "event" =>
               LET half(i) == [e' EXCEPT !.frame = <<e'.frame[i]>>]
                   t == Step(r, half(1))
               IN  /\ Must(r, half(1)) = "yes" /\ Must(t, half(2)) = "yes"
                   /\ Step(t, half(2)) = r']_vars
(* C14/C20: a death in a call leaves it done or not done                     *)
Deaths == \A c \in Cmds(r) : c.op = "recv" =>
             \A t \in InFlight(r, c) : t = r \/ (Must(r, c) # "no" /\ t \in Steps(r, [c EXCEPT !.ok = TRUE]))
(* Reopening forgets nothing that was saved                                  *)
Reopens == LET t == Do(Dead(r), [op |-> "open"])
           IN  r.exists => /\ Must(Dead(r), [op |-> "open"]) = "yes" /\ t.br = r.br /\ (r.open => t.now <= r.now)
=============================================================================
