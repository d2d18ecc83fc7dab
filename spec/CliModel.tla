------------------------------ MODULE CliModel ------------------------------
(* Exhaustive check that the specification of the command line tool says     *)
(* what it is meant to say: all short sessions over a few names.             *)
EXTENDS Cli
CONSTANTS YARNS, EVENTS, DEPTH
VARIABLES r, e
vars == <<r, e>>

Non == [k |-> "none"]
Camel(t) == [k |-> "label", t |-> t, case |-> "camel"]
Snake(t) == [k |-> "label", t |-> t, case |-> "snake"]
ByYarn(y) == [k |-> "yarn", y |-> y]
Blank_(verb) == [op |-> "cli", verb |-> verb, extra |-> FALSE, on |-> Non, as |-> Non, of |-> Non, what |-> "", out |-> NILID,
                 lines |-> <<>>, ops |-> <<>>, recs |-> <<>>, label |-> "", y |-> NOBODY, nofile |-> FALSE, kinds |-> <<>>,
                 ids |-> <<>>, id |-> NILID, ok |-> FALSE, st |-> "ok", syntax |-> "ok",
                 rdt |-> FormName(FLww), frame |-> <<>>]
Ons == {Non, Camel("Foo"), Snake("thing")} \cup {ByYarn(y) : y \in YARNS \cup {META_}}
Tags == {Non, Camel("Foo"), Snake("thing")}
Events(z) == UNION {DOMAIN z.br[y].obj : y \in Branches(z)}
WriteTo(o) == <<[k |-> "local", op |-> <<<<UNSTAMPED, 0, 0>>, o, <<"u:key", "i:1">>, <<0, 1>>>>]>>
Said(z) == {Blank_(v) : v \in {"init", "on", "now", "list", "undo"}}
           \cup (IF Cardinality(Events(z)) >= EVENTS THEN {}
                 ELSE {[Blank_(v) EXCEPT !.y = y, !.as = t] : v \in {"create", "fork"}, y \in YARNS, t \in Tags}
                      \cup {[Blank_("new") EXCEPT !.on = a, !.as = t] : a \in Ons, t \in Tags}
                      \cup {[Blank_("write") EXCEPT !.on = a, !.frame = WriteTo(u)] : a \in Ons, u \in Events(z)})
           \cup {[Blank_(v) EXCEPT !.on = a] : v \in {"drop", "hop"}, a \in Ons}
           \cup {[Blank_("name") EXCEPT !.on = a, !.as = t, !.id = u] : a \in Ons, t \in Tags, u \in Events(z)}
Made(z, c) ==
    IF c.verb = "init" THEN <<<<EVENT, 0, NOBODY>>>>
    ELSE LET q == Up(z)
             id(y) == <<<<EVENT, Maxi(q.now + 1, q.clock), y>>>>
         IN  CASE c.verb \in {"create", "fork"} -> id(c.y)
               [] c.verb \in {"new", "write"}   -> id(BranchArg(q, c.on))
               [] OTHER -> <<>>
Outcome(z, c) ==
    IF CMust(z, c) # "yes" THEN c
    ELSE LET m == Made(z, c)
         IN  [c EXCEPT !.ok = TRUE, !.ids = m,
                       !.out = IF c.verb \in {"create", "fork"} THEN StoreId(c.y)
                               ELSE IF c.verb = "new" THEN m[1] ELSE @]
Init == r = Blank /\ e = Blank_("undo")
Next == \E c \in Said(r) : LET d == Outcome(r, c) IN r' \in CSteps(r, d) /\ e' = d
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") < DEPTH
State == r

q_ == Up(r)
(* between two commands nothing is held                                      *)
Ended == ~r.open /\ (r.exists <=> META_ \in DOMAIN r.br)
(* the events of a branch are of yarns that began in it, and its own         *)
Owned == \A y \in DOMAIN r.br : r.br[y].own = y /\ r.br[y].tip = <<EVENT, r.br[y].last[y], y>>
(* a label says the branch it was given to, or none any more                 *)
Leads == r.exists => \A t \in DOMAIN r.br[META_].names :
            LET y == BranchArg(q_, Camel(t))
            IN  y = NoBranch \/ (y \in Branches(r) /\ r.br[META_].names[t] = StoreId(y))
(* a branch goes by its label as well as by its id                           *)
SameByLabel == r.exists => \A y \in YARNS : BranchArg(q_, Camel("Foo")) = y =>
                  \A c \in {x \in Said(r) : x.on = Camel("Foo") /\ CMust(r, x) = "yes"} :
                     LET d == Outcome(r, c)
                     IN  CSteps(r, d) = CSteps(r, [d EXCEPT !.on = ByYarn(y)])
(* what is asked changes nothing                                             *)
Asking == [][e'.verb \in {"on", "now", "list", "undo", "named", "get", "recall", "dump"} => r' = r]_vars
Refusals == [][~e'.ok => r' = r]_vars
(* a command changes one branch (labels of branches: the replica's own)      *)
Alone == [][\A y \in DOMAIN r.br \cap DOMAIN r'.br : y # META_ /\ r.br[y] # r'.br[y] =>
               e'.verb \in {"new", "write", "name"} /\ BranchArg(q_, e'.on) = y]_vars
Events_ == [][e'.verb # "drop" => \A y \in DOMAIN r.br : DOMAIN r.br[y].obj \subseteq DOMAIN r'.br[y].obj]_vars
Started_ == [][e'.ok /\ e'.verb \in {"create", "fork"} =>
                 /\ e'.y \in DOMAIN r'.br /\ e'.y \notin DOMAIN r.br /\ Up(r').act = e'.y
                 /\ e'.as.k = "label" => BranchArg(Up(r'), e'.as) = e'.y
                 /\ (e'.verb = "fork" => DOMAIN r'.br[e'.y].obj = DOMAIN r.br[q_.act].obj \cup {e'.ids[1]})]_vars
(* an id is made once                                                        *)
New__ == [][\A i \in 1..Len(e'.ids) : e'.ids[i] \notin Events(r)]_vars
=============================================================================
