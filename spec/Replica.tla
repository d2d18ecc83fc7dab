------------------------------ MODULE Replica ------------------------------
(* The replica: branches of a causally ordered database of objects. A branch *)
(* is the causal closure of its own yarn (a writer's sequence of events): it *)
(* takes frames of events, keeps every object's log and merged state, and    *)
(* answers queries; a frame is taken as a whole or not at all. The replica   *)
(* stamps local writes, and its clock never runs backwards.                  *)
(*                                                                           *)
(* An event is an op of Rdt: <<id, ref, values, rank>>. An id of kind UNSTAMPED  *)
(* is a place holder of an op that is yet to be stamped. An event's value is *)
(* -1 for the beginning of times; an origin of -1 is nobody's yarn.          *)
EXTENDS Rdt

UNSTAMPED == 4   DERIVED == 3
NEVER == 2147483647
NOBODY == 0 - 1
META_ == NOBODY              \* the branch of the replica's own records
NILID == <<EVENT, 0 - 1, NOBODY>>
NoId == <<NAME, 1000, 0>>
FTxt == 18
Roots == {FYarn, FLww, FRga, FMx, FMax}
Asked == {FYarn, FLww, FRga, FMx}        \* states that can be queried for
Stamped == {FYarn, FLww, FRga, FMx}      \* objects a local frame may create

None == <<>>
Put(f, k, v) == (k :> v) @@ f
Without(f, K) == [k \in DOMAIN f \ K |-> f[k]]
Maxi(a, b) == IF a < b THEN b ELSE a
RECURSIVE MaxOf(_)
MaxOf(S) == IF S = {} THEN 0 - 1 ELSE LET x == CHOOSE y \in S : TRUE IN Maxi(x, MaxOf(S \ {x}))

----------------------------------------------------------------------------
(* A branch: its own yarn; its tip (the yarn's last event); the last event   *)
(* of every yarn it knows; which object an event belongs to; the logs.       *)
NewBranch(y) == [own |-> y, tip |-> NoId, last |-> None, obj |-> None, logs |-> None, names |-> None]

Started(b, y) == y \in DOMAIN b.last
Known(b, u) == u \in DOMAIN b.obj
RdtOf(b, object) == FormOf(Ref(b.logs[object][1]))
StateIn(b, object) == StateOfLog(b.logs[object]).out

(* C19: what a branch lets in.                                               *)
Accepts(b, op) ==
    LET id == Id(op)  ref == Ref(op)  y == Id(op)[3]
    IN  /\ id[1] = EVENT /\ id[2] < NEVER
        /\ y # NOBODY \/ b.own = NOBODY
        /\ IF ref[1] = EVENT THEN Known(b, ref) /\ IdLt(ref, id) /\ Started(b, y)
           ELSE /\ ref[1] = NAME
                /\ FormOf(ref) \in Roots
                /\ (FormOf(ref) = FYarn) = ~Started(b, y)
        /\ Started(b, y) => b.last[y] < id[2]

Admit(b, op) ==
    LET id == Id(op)
        o  == IF Ref(op)[1] = NAME THEN id ELSE b.obj[Ref(op)]
    IN  [b EXCEPT !.last = Put(@, id[3], id[2]),
                  !.obj  = Put(@, id, o),
                  !.logs = Put(@, o, IF o \in DOMAIN @ THEN Append(@[o], op) ELSE <<op>>),
                  !.tip  = IF id[3] = b.own THEN id ELSE @]

----------------------------------------------------------------------------
(* What a query is answered with: a set of sequences of ops, {} if it has to *)
(* be refused; .free if that is not said.                                    *)
Answer(S) == [free |-> FALSE, set |-> S]
AnyAnswer == [free |-> TRUE, set |-> {}]
RECURSIVE FlatText(_, _)
FlatText(ops, texts) ==
    IF ops = <<>> THEN <<>>
    ELSE (IF Len(Val(Head(ops))) > 0 /\ Val(Head(ops))[1] \in DOMAIN texts
          THEN texts[Val(Head(ops))[1]] ELSE <<>>) \o FlatText(Tail(ops), texts)
RECURSIVE Visible(_, _, _)
Visible(f, t, i) == IF i > Len(f) THEN <<>>
                    ELSE (IF t[i] THEN <<>> ELSE <<f[i]>>) \o Visible(f, t, i + 1)
TextOf(b, object, texts) ==
    LET f == StateIn(b, object) IN FlatText(Visible(f, Tombstones(f), 1), texts)

Answers(b, q) ==
    LET u == q.id
    IN  CASE q.form \in Asked ->
               Answer(IF u \in DOMAIN b.logs /\ RdtOf(b, u) = q.form THEN {StateIn(b, u)} ELSE {<<>>})
          [] q.form = FLog ->
               IF ~Known(b, u) THEN Answer({})
               ELSE LET log == b.logs[b.obj[u]]
                        at  == Upto(log, u)
                    IN  Answer(IF u = b.obj[u] THEN {log} ELSE {at, SubSeq(at, 1, Len(at) - 1)})
          [] q.form = FTxt ->
               LET o == <<EVENT, u[2], u[3]>>
               IN  IF o \in DOMAIN b.logs /\ RdtOf(b, o) = FRga
                   THEN Answer({<<<<u, FormName(FTxt), TextOf(b, o, q.texts), <<0>>>>>>})
                   ELSE AnyAnswer
          [] OTHER -> AnyAnswer

----------------------------------------------------------------------------
(* Taking a frame: entries one after another, over a copy of the branch.     *)
(* c: the course so far: .b the branch, .now the clock, .ids the stamps to   *)
(* be given, .ren place holders stamped in this run, .outs the answers so    *)
(* far (.free: not said), .ok "yes" / "no" / "any" (refusing is fine too).   *)
(* .guess: no stamp was shown, the frame was refused.                        *)
Course(b, now, at, ids) == [b |-> b, now |-> now, at |-> at, ids |-> ids, ren |-> None, outs |-> {<<>>},
                            free |-> FALSE, ok |-> "yes", guess |-> FALSE]
Fail(c) == [c EXCEPT !.ok = "no"]
Either(c) == IF c.ok = "yes" THEN [c EXCEPT !.ok = "any"] ELSE c

Stamp(c) == IF c.ids = <<>> THEN <<EVENT, Maxi(c.now + 1, c.at), c.b.own>> ELSE Head(c.ids)
TakeEvent(c, op) ==
    IF ~Accepts(c.b, op) THEN Fail(c)
    ELSE [(IF c.guess /\ Id(op)[3] = c.b.own THEN Either(c) ELSE c)
             EXCEPT !.b = Admit(@, op), !.now = Maxi(@, Id(op)[2]), !.ren = None,
                   !.ids = IF Id(op)[3] = c.b.own /\ @ # <<>> THEN Tail(@) ELSE @]
TakeLocal(c, op) ==
    LET id  == Stamp(c)
        ref == IF Ref(op) \in DOMAIN c.ren THEN c.ren[Ref(op)] ELSE Ref(op)
        new == <<id, ref, Val(op), Rank(op)>>
        d   == IF Ref(op)[1] = NAME /\ FormOf(Ref(op)) \notin Stamped /\ c.ren = None THEN Either(c) ELSE c
    IN  \* C21: stamped later than anything seen
        IF ~(id[1] = EVENT /\ id[3] = c.b.own /\ id[2] > c.now /\ id[2] >= c.at) THEN Fail(c)
        ELSE IF ~Accepts(c.b, new) THEN Fail(c)
        ELSE [d EXCEPT !.b = Admit(@, new), !.now = id[2], !.ren = Put(@, Id(op), id),
                       !.ids = IF @ = <<>> THEN @ ELSE Tail(@), !.guess = @ \/ c.ids = <<>>]
TakeQuery(c, q) ==
    LET a == Answers(c.b, q)
    IN  IF a.free THEN [Either(c) EXCEPT !.free = TRUE, !.ren = None]
        ELSE IF a.set = {} THEN Fail(c)
        ELSE [c EXCEPT !.outs = {o \o x : o \in @, x \in a.set}, !.ren = None]
Take(c, e) ==
    CASE e.k = "event" -> TakeEvent(c, e.op)
      [] e.k = "local" -> TakeLocal(c, e.op)
      [] e.k = "query" -> TakeQuery(c, e)
      [] e.k = "name"  -> [c EXCEPT !.b.names = Put(@, e.key, c.b.tip), !.ren = None]
      [] e.k = "note"  -> [c EXCEPT !.ren = None]
      [] OTHER         -> Fail(c)          \* what no frame may have
RECURSIVE TakeAll(_, _)
TakeAll(c, es) == IF es = <<>> \/ c.ok = "no" THEN c ELSE TakeAll(Take(c, Head(es)), Tail(es))

----------------------------------------------------------------------------
(* C20: all that a branch keeps. A dump is a sequence of records             *)
(* <<form, key, ops>>; an event's metadata is <<form, key, <<id, object, rdt,*)
(* hash>>>>.                                                                 *)
Found(recs, form, u) == {i \in 1..Len(recs) : recs[i][1] = form /\ recs[i][2] = u}
Holds(recs, form, u, ops) == \E i \in Found(recs, form, u) : recs[i][3] = ops
DumpOk(b, recs) ==
    /\ \A i \in 1..Len(recs) :
          LET form == recs[i][1]  u == recs[i][2]  ops == recs[i][3]
          IN  \/ form = FZero /\ u = NILID /\ Len(ops) = 1 /\ Id(ops[1]) = b.tip /\ Ref(ops[1]) = FormName(FZero)
              \/ form = FLww /\ u = NILID /\ b.names # None
              \/ form = FMeta /\ Known(b, u) /\ ops[1] = u /\ ops[2] = b.obj[u] /\ ops[3] = Ref(b.logs[b.obj[u]][1])
              \/ u \in DOMAIN b.logs /\ form = FLog /\ ops = b.logs[u]
              \/ u \in DOMAIN b.logs /\ form = RdtOf(b, u) /\ ops = StateIn(b, u)
              \/ form = 999 /\ b.own = NOBODY          \* the active branch
    /\ Cardinality(Found(recs, FZero, NILID)) = 1
    /\ \A o \in DOMAIN b.logs : Found(recs, FLog, o) # {} /\ Found(recs, RdtOf(b, o), o) # {}

(* C24: the hash of an event is determined by the op, the yarn's previous    *)
(* event and the event it refers to, and tells them.                         *)
Prev(b, u) == LET before == {v \in DOMAIN b.obj : v[3] = u[3] /\ v[2] < u[2]}
              IN  IF before = {} THEN NoId ELSE CHOOSE v \in before : \A w \in before : w[2] <= v[2]
OpOf(b, u) == LET log == b.logs[b.obj[u]] IN log[CHOOSE i \in 1..Len(log) : Id(log[i]) = u]
HashIn(metas, u) == IF u[1] = NAME THEN "-" ELSE metas[CHOOSE i \in 1..Len(metas) : metas[i][1] = u][4]
MetasOk(b, metas) ==
    /\ {metas[i][1] : i \in 1..Len(metas)} = DOMAIN b.obj
    /\ \A i \in 1..Len(metas) :
         LET u == metas[i][1] IN metas[i][2] = b.obj[u] /\ metas[i][3] = Ref(b.logs[b.obj[u]][1])
Hashes(b, metas) ==
    {LET u == metas[i][1]  op == OpOf(b, u)
     IN  <<<<Id(op), Ref(op), Val(op), HashIn(metas, Prev(b, u)), HashIn(metas, Ref(op))>>, metas[i][4]>> :
       i \in 1..Len(metas)}
Faithful(T) == /\ Cardinality({t[1] : t \in T}) = Cardinality(T)
               /\ Cardinality({t[2] : t \in T}) = Cardinality(T)

----------------------------------------------------------------------------
(* The replica: what is on the disk (.exists, .br, .pact) and what is only   *)
(* known while it is open (.open, .now, .act). NOBODY: no active branch.     *)
Blank == [exists |-> FALSE, br |-> None, pact |-> NOBODY, open |-> FALSE, now |-> 0 - 1,
          act |-> NOBODY, clock |-> 0, tab |-> {}]
Dead(r) == [r EXCEPT !.open = FALSE, !.now = 0 - 1, !.act = NOBODY]
Seen(r) == MaxOf(UNION {{r.br[y].last[z] : z \in DOMAIN r.br[y].last} : y \in DOMAIN r.br})
Branches(r) == DOMAIN r.br \ {META_}
Target_(r, y) == IF y = NOBODY THEN r.act ELSE y
Ready(r, y) == r.open /\ y \in Branches(r)

YarnOp(id) == <<id, FormName(FYarn), <<>>, <<0>>>>
(* a hint for an id is what the run has shown; without one, the next         *)
Hint(r, e, y) == IF e.ids = <<>> THEN <<EVENT, Maxi(r.now + 1, r.clock), y>> ELSE e.ids[1]
FirstId(r, e) == IF e.tr THEN <<EVENT, 0 - 1, e.y>> ELSE Hint(r, e, e.y)
Begin(r, b, id) == [r EXCEPT !.br = Put(@, b.own, Admit(b, YarnOp(id))), !.now = Maxi(@, id[2])]
Fresh(r, id, y) == id[1] = EVENT /\ id[3] = y /\ id[2] > r.now /\ id[2] >= r.clock

Local(rdt) == <<[k |-> "local", op |-> <<<<UNSTAMPED, 0, 0>>, rdt, <<>>, <<0>>>>]>>
Frame(e) == IF e.op = "new" THEN Local(e.rdt) ELSE e.frame
Took(r, e) == TakeAll(Course(r.br[Target_(r, e.y)], r.now, r.clock, e.ids), Frame(e))

(* "yes": has to succeed, "no": has to be refused, "any": either             *)
Must(r, e) ==
    LET yesno(b) == IF b THEN "yes" ELSE "no"
    IN
    CASE e.op = "create"   -> yesno(~r.exists)
      [] e.op = "open"     -> yesno(r.exists /\ ~r.open)
      [] e.op = "branch"   -> yesno(r.open /\ e.y \notin DOMAIN r.br)
      [] e.op = "fork"     -> yesno(Ready(r, e.from) /\ e.y \notin DOMAIN r.br /\ ~Started(r.br[e.from], e.y))
      [] e.op = "drop"     -> yesno(Ready(r, e.y))
      [] e.op = "activate" -> yesno(r.open /\ (e.y \in DOMAIN r.br))
      [] e.op \in {"recv", "new"} ->
            IF ~Ready(r, Target_(r, e.y)) \/ (e.op = "recv" /\ e.syntax = "bad") THEN "no"
            ELSE LET t == Took(r, e).ok
                 IN  IF e.op = "new" /\ t = "any" THEN "yes"
                     ELSE IF e.op = "recv" /\ e.syntax = "lax" /\ t = "yes" THEN "any" ELSE t
      [] e.op = "see"      -> yesno(e.id[1] = EVENT /\ e.id[2] < NEVER)
      [] e.op \in {"now", "stores"} -> yesno(e.op = "now" \/ r.open)
      [] e.op \in {"dump", "tip", "names", "name", "flush", "compact", "metas"} -> yesno(r.open /\ (e.op \in {"flush", "compact"} \/ e.y \in DOMAIN r.br))
      [] e.op = "meta"     -> yesno(Ready(r, e.y) /\ Known(r.br[e.y], e.id))
      [] e.op = "log"      -> IF Ready(r, e.y) THEN "yes" ELSE "no"
      [] e.op \in {"object", "version"} -> IF Ready(r, e.y) THEN "yes" ELSE "no"
      [] OTHER -> "any"

(* what a call that succeeded does                                           *)
Step(r, e) ==
    CASE e.op = "clock"    -> [r EXCEPT !.clock = e.v]
      [] e.op = "close"    -> Dead(r)
      [] ~e.ok             -> r
      [] e.op = "create"   -> LET id == IF e.ids = <<>> THEN <<EVENT, 0, NOBODY>> ELSE e.ids[1]
                              IN  [r EXCEPT !.exists = TRUE, !.br = Put(None, META_, Admit(NewBranch(META_), YarnOp(id)))]
      [] e.op = "open"     -> [r EXCEPT !.open = TRUE, !.now = Seen(r),
                                        !.act = IF r.pact \in Branches(r) THEN r.pact ELSE NOBODY]
      [] e.op = "branch"   -> Begin(r, NewBranch(e.y), FirstId(r, e))
      [] e.op = "fork"     -> Begin(r, [r.br[e.from] EXCEPT !.own = e.y], Hint(r, e, e.y))
      [] e.op = "drop"     -> [r EXCEPT !.br = Without(@, {e.y}), !.act = IF @ = e.y THEN NOBODY ELSE @]
      [] e.op = "activate" -> [r EXCEPT !.act = e.y, !.pact = e.y]
      [] e.op \in {"recv", "new"} ->
            LET c == Took(r, e) IN [r EXCEPT !.br = Put(@, Target_(r, e.y), c.b), !.now = Maxi(@, c.now)]
      [] e.op = "name"     -> [r EXCEPT !.br[e.y].names = Put(@, e.key, e.value)]
      [] e.op = "now"      -> [r EXCEPT !.now = Maxi(@, e.id[2])]
      [] e.op = "see"      -> [r EXCEPT !.now = Maxi(@, e.id[2])]
      [] e.op = "metas"    -> [r EXCEPT !.tab = @ \cup Hashes(r.br[e.y], e.metas)]
      [] OTHER             -> r
(* a dropped branch may or may not stay on record as the active one          *)
Steps(r, e) ==
    IF e.op = "drop" /\ e.ok /\ r.pact = e.y THEN {Step(r, e), [Step(r, e) EXCEPT !.pact = NOBODY]}
    ELSE {Step(r, e)}

(* What the answer of a call that succeeded may be.                          *)
Right(r, e) ==
    CASE e.op = "branch"   -> IF e.tr THEN e.ids = <<<<EVENT, 0 - 1, e.y>>>> ELSE e.ids # <<>> /\ Fresh(r, e.ids[1], e.y)
      [] e.op = "fork"     -> e.ids # <<>> /\ Fresh(r, e.ids[1], e.y)
      [] e.op \in {"recv", "new"} ->
            LET c == Took(r, e)
            IN  \* every new event of the own yarn is one of the frame's
                /\ c.ids = <<>>
                /\ Len(e.ids) = Cardinality({u \in DOMAIN c.b.obj : u[3] = c.b.own})
                                - Cardinality({u \in DOMAIN r.br[Target_(r, e.y)].obj : u[3] = c.b.own})
                /\ e.op = "recv" => c.free \/ e.resp \in c.outs
      [] e.op = "now"      -> LET y == IF e.y = NOBODY THEN r.act ELSE e.y IN Fresh(r, e.id, y)
      [] e.op = "stores"   -> e.active = r.act /\ Len(e.stores) = Cardinality(DOMAIN r.br)
                              /\ {e.stores[i] : i \in 1..Len(e.stores)} = DOMAIN r.br
      [] e.op = "tip"      -> e.id = r.br[e.y].tip
      [] e.op = "dump"     -> DumpOk(r.br[e.y], e.recs)
      [] e.op = "meta"     -> e.object = r.br[e.y].obj[e.id] /\ e.rdt = Ref(r.br[e.y].logs[e.object][1])
      [] e.op = "metas"    -> MetasOk(r.br[e.y], e.metas) /\ Faithful(r.tab \cup Hashes(r.br[e.y], e.metas))
      [] e.op = "object"   -> LET b == r.br[e.y] IN
                              e.out = IF e.id \in DOMAIN b.logs /\ RdtOf(b, e.id) = e.form THEN StateIn(b, e.id) ELSE <<>>
      [] e.op = "log"      -> LET b == r.br[e.y] IN e.out = IF e.id \in DOMAIN b.logs THEN b.logs[e.id] ELSE <<>>
      [] e.op = "version"  -> LET b == r.br[e.y] IN
                              IF e.id \in DOMAIN b.logs THEN e.out = StateAt(b.logs[e.id], e.ver).out ELSE TRUE
      [] e.op = "names"    -> {e.names[i] : i \in 1..Len(e.names)} =
                              {<<k, r.br[e.y].names[k]>> : k \in DOMAIN r.br[e.y].names}
      [] OTHER -> TRUE

Allowed(r, e) ==
    IF e.op \in {"clock", "close"} THEN TRUE
    ELSE LET m == Must(r, e)
         IN  /\ IF e.ok THEN m # "no" ELSE m # "yes"
             /\ e.ok => Right(r, e)

(* A process killed in the middle of a call: it has happened or it has not.  *)
InFlight(r, e) ==
    {r} \cup (IF e.op \in {"create", "branch", "fork", "drop", "activate", "recv", "new", "name"}
                 /\ Must(r, e) # "no"
              THEN Steps(r, [e EXCEPT !.ok = TRUE]) ELSE {})
=============================================================================
