-------------------------------- MODULE Cli --------------------------------
(* The command line tool: every command is a process of its own, which opens *)
(* the replica, does what its arguments say, and ends. A command that is     *)
(* refused changes nothing. Branches go by CamelCase labels, kept in the     *)
(* replica's own branch; objects by snake_case labels, kept in the branch.   *)
EXTENDS Replica

NoBranch == 0 - 2
NoObject == <<NAME, 2000, 0>>
Up(r) == Step(r, [op |-> "open", ok |-> TRUE])
StoreId(y) == IF y = META_ THEN NILID ELSE <<EVENT, NEVER, y>>

(* what an argument stands for, while the replica is open                    *)
BranchArg(q, a) ==
    CASE a.k = "none" -> q.act
      [] a.k = "yarn" -> IF a.y \in DOMAIN q.br THEN a.y ELSE NoBranch
      [] a.k = "label" ->
            LET ns == q.br[META_].names
            IN  IF a.case # "camel" \/ a.t \notin DOMAIN ns THEN NoBranch
                ELSE LET v == ns[a.t]
                     IN  IF v[1] = EVENT /\ v[2] = NEVER /\ v[3] \in Branches(q) THEN v[3] ELSE NoBranch
      [] OTHER -> NoBranch
ObjectArg(q, a) ==
    CASE a.k = "id" -> a.id
      [] a.k = "label" ->
            LET ns == q.br[q.act].names
            IN  IF a.case = "snake" /\ a.t \in DOMAIN ns THEN ns[a.t] ELSE NoObject
      [] OTHER -> NoObject
LabelsOf(names, id) == {k \in DOMAIN names : names[k] = id}
Label(a, case) == a.k = "none" \/ (a.k = "label" /\ (case = "any" \/ a.case = case))
Labelled(q, y, a, id) == IF a.k = "none" THEN q ELSE [q EXCEPT !.br[y].names = Put(@, a.t, id)]

(* the calls a command comes down to                                         *)
Branch_(e) == [op |-> "branch", ok |-> TRUE, y |-> e.y, tr |-> FALSE, ids |-> e.ids]
Fork_(q, e) == [op |-> "fork", ok |-> TRUE, y |-> e.y, from |-> q.act, ids |-> e.ids]
Drop_(y) == [op |-> "drop", ok |-> TRUE, y |-> y]
Hop_(y) == [op |-> "activate", ok |-> TRUE, y |-> y]
New_(y, e) == [op |-> "new", ok |-> TRUE, y |-> y, rdt |-> e.rdt, ids |-> e.ids]
Write_(y, e) == [op |-> "recv", ok |-> TRUE, y |-> y, frame |-> e.frame, syntax |-> e.syntax, ids |-> e.ids]
Query_(q, e) == [k |-> "query", id |-> ObjectArg(q, e.of), form |-> e.form, texts |-> None]

And3(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "any" \/ b = "any" THEN "any" ELSE "yes"
YesNo(b) == IF b THEN "yes" ELSE "no"
CMust(r, e) ==
    IF e.verb = "init" THEN Must(r, [op |-> "create"])
    ELSE IF ~r.exists \/ e.extra THEN "no"
    ELSE LET q == Up(r)  B == BranchArg(q, e.on)
         IN
    CASE e.verb = "create" -> And3(YesNo(Label(e.as, "camel")), Must(q, Branch_(e)))
      [] e.verb = "fork"   -> IF q.act \notin Branches(q) \/ ~Label(e.as, "camel") THEN "no" ELSE Must(q, Fork_(q, e))
      [] e.verb = "drop"   -> YesNo(e.on.k # "none" /\ B \in Branches(q))
      [] e.verb = "hop"    -> YesNo(B # NoBranch)
      [] e.verb \in {"on", "now"} -> "yes"
      [] e.verb = "list"   -> YesNo(e.what \in {"", "stores", "branches", "snapshots"})
      [] e.verb = "new"    -> IF ~Label(e.as, "snake") \/ B \notin Branches(q) THEN "no" ELSE Must(q, New_(B, e))
      [] e.verb = "name"   -> YesNo(e.id[1] = EVENT /\ e.as.k = "label" /\ B # NoBranch)
      [] e.verb = "named"  -> YesNo(e.what \in {"", "yarns", "objects", "versions", "things"} /\ B # NoBranch)
      [] e.verb = "get"    ->
            LET u == ObjectArg(q, e.of)
            IN  IF q.act = META_ \/ u[1] # EVENT THEN "no"
                ELSE LET a == Answers(q.br[q.act], Query_(q, e)) IN IF a.free THEN "any" ELSE YesNo(a.set # {})
      [] e.verb = "recall" ->
            LET u == ObjectArg(q, e.of)
            IN  IF u[1] # EVENT \/ e.id[1] # EVENT THEN "no"
                ELSE IF q.act # META_ /\ u \in DOMAIN q.br[q.act].logs
                THEN IF IdLt(e.id, u) THEN "no" ELSE "yes"
                ELSE "any"
      [] e.verb = "write"  -> IF B \notin Branches(q) \/ e.nofile THEN "no" ELSE Must(q, Write_(B, e))
      [] e.verb = "dump"   -> YesNo(B # NoBranch)
      [] OTHER             -> "no"

(* what a command that went well leaves                                      *)
CStep(r, e) ==
    IF e.verb = "init" THEN {Step(r, [op |-> "create", ok |-> TRUE, ids |-> e.ids])}
    ELSE LET q == Up(r)  B == BranchArg(q, e.on)
         IN
    CASE e.verb = "create" -> {Labelled(Step(Step(q, Branch_(e)), Hop_(e.y)), META_, e.as, StoreId(e.y))}
      [] e.verb = "fork"   -> {Labelled(Step(Step(q, Fork_(q, e)), Hop_(e.y)), META_, e.as, StoreId(e.y))}
      [] e.verb = "drop"   -> Steps(q, Drop_(B))
      [] e.verb = "hop"    -> {Step(q, Hop_(B))}
      [] e.verb = "new"    -> {Labelled(Step(q, New_(B, e)), B, e.as, e.ids[1])}
      [] e.verb = "name"   -> {Labelled(q, B, e.as, e.id)}
      [] e.verb = "write"  -> {Step(q, Write_(B, e))}
      [] OTHER             -> {q}

(* and what it may have printed                                              *)
CRight(r, e) ==
    IF e.verb = "init" THEN Len(e.ids) = 1 /\ e.ids[1][3] = NOBODY
    ELSE LET q == Up(r)  B == BranchArg(q, e.on)  meta == q.br[META_].names
         IN  /\ e.verb \notin {"create", "fork", "new", "write"} => e.ids = <<>>
             /\ CASE e.verb = "create" -> Len(e.ids) = 1 /\ Right(q, Branch_(e)) /\ e.out = StoreId(e.y)
                  [] e.verb = "fork"   -> Len(e.ids) = 1 /\ Right(q, Fork_(q, e)) /\ e.out = StoreId(e.y)
                  [] e.verb = "on"     -> IF q.act = META_ THEN e.lines = <<>>
                                          ELSE LET ls == LabelsOf(meta, StoreId(q.act))
                                               IN  IF ls = {} THEN e.label = "" /\ e.lines = <<StoreId(q.act)>>
                                                   ELSE e.lines = <<>> /\ e.label \in ls
                  [] e.verb = "list"   ->
                        LET some == {y \in DOMAIN q.br : y # META_ \/ e.what \in {"", "stores"}}
                            said == {i \in 1..Len(e.lines) : e.lines[i][1] # NILID \/ e.what \in {"", "stores"}}
                        IN  e.what # "snapshots" =>
                            /\ {e.lines[i][1] : i \in said} = {StoreId(y) : y \in some}
                            /\ Cardinality(said) = Cardinality(some)
                            /\ \A i \in said : LET ls == LabelsOf(meta, e.lines[i][1])
                                               IN  IF ls = {} THEN e.lines[i][2] = "" ELSE e.lines[i][2] \in ls
                  [] e.verb = "new"    -> Len(e.ids) = 1 /\ Right(q, New_(B, e)) /\ e.out = e.ids[1]
                  [] e.verb = "named"  ->
                        LET ns == q.br[B].names
                            want == {k \in DOMAIN ns : e.what \in {"", "things"} \/ k \in {e.kinds[i] : i \in 1..Len(e.kinds)}}
                        IN  /\ {e.lines[i] : i \in 1..Len(e.lines)} = {<<ns[k], k>> : k \in want}
                            /\ Len(e.lines) = Cardinality(want)
                  [] e.verb = "get"    -> LET a == Answers(q.br[q.act], Query_(q, e)) IN (a.free \/ e.ops \in a.set)
                  [] e.verb = "recall" -> LET u == ObjectArg(q, e.of)
                                          IN  u \in DOMAIN q.br[q.act].logs => e.ops = StateAt(q.br[q.act].logs[u], e.id).out
                  [] e.verb = "write"  -> LET c == Took(q, Write_(B, e))
                                          IN  /\ c.ids = <<>>
                                              /\ Len(e.ids) = Cardinality({u \in DOMAIN c.b.obj : u[3] = c.b.own})
                                                            - Cardinality({u \in DOMAIN q.br[B].obj : u[3] = c.b.own})
                  [] e.verb = "dump"   -> DumpOk(q.br[B], e.recs)
                  [] e.verb = "now"    -> Fresh(q, e.out, q.act)
                  [] OTHER             -> TRUE

(* branches made in the same second, on one machine or on many, are distinct *)
Distinct(e) == e.ok /\ Cardinality({e.all[i] : i \in 1..Len(e.all)}) = Len(e.all)

CAllowed(r, e) ==
    IF e.op = "draws" THEN Distinct(e)
    ELSE IF e.op # "cli" THEN Allowed(r, e)
    ELSE LET m == CMust(r, e)
         IN  IF e.ok THEN m # "no" /\ CRight(r, e) ELSE m # "yes" /\ e.ids = <<>>
CSteps(r, e) ==
    IF e.op = "draws" THEN {r}
    ELSE IF e.op # "cli" THEN Steps(r, e)
    ELSE IF e.ok THEN {Dead(x) : x \in CStep(r, e)} ELSE {r}
=============================================================================
