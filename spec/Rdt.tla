-------------------------------- MODULE Rdt --------------------------------
(* The replicated data types of ron-cxx: what merging, compacting, scanning  *)
(* and replaying op frames must yield. A frame is a sequence of ops; an op   *)
(* is <<id, ref, values, rank>>; an id is <<kind, value, origin>> with kind  *)
(* 0 = name, 1 = hash, 2 = event, 3 = derived. Values are opaque strings;    *)
(* "rank" is the first value's place in the order of values: a tuple of      *)
(* <<class, limbs...>> that is compared lexicographically (class 0 = id,     *)
(* 1 = number, 2 = string).                                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Id(op)  == op[1]
Ref(op) == op[2]
Val(op) == op[3]
Rank(op) == op[4]

NAME == 0   EVENT == 2

(* Data forms that can be a record's type (numbers as in the storage keys).  *)
FZero == 0  FYarn == 1  FLog == 2  FMeta == 8
FLww == 13  FRga == 14  FMx == 15  FMax == 19  FError == 255
SortedForms == {FYarn, FLww, FMx, FMeta}

FormName(f) == <<NAME, f, 0>>
(* What form a name stands for; an id that names no form means "no type".    *)
KnownForms == 0..19
FormOf(u) == IF u[1] = NAME /\ u[3] = 0 /\ u[2] \in KnownForms THEN u[2] ELSE FZero

----------------------------------------------------------------------------
(* Order of ids: value first, then origin (its version bits are on top).     *)
IdLt(a, b) == \/ a[2] < b[2]
              \/ a[2] = b[2] /\ a[1] < b[1]
              \/ a[2] = b[2] /\ a[1] = b[1] /\ a[3] < b[3]
IdLeq(a, b) == a = b \/ IdLt(a, b)

RECURSIVE SeqLt(_, _)
SeqLt(a, b) ==
    IF a = <<>> THEN b # <<>>
    ELSE IF b = <<>> THEN FALSE
    ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
    ELSE SeqLt(Tail(a), Tail(b))

OpsOf(f)   == {f[i] : i \in 1..Len(f)}
IdsOf(f)   == {Id(f[i]) : i \in 1..Len(f)}
AllOps(fs) == UNION {OpsOf(fs[i]) : i \in 1..Len(fs)}
NonEmpty(fs) == SelectSeq(fs, LAMBDA f : f # <<>>)

RECURSIVE Flat(_)
Flat(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs) \o Flat(Tail(fs))

ById(a, b)  == IdLt(Id(a), Id(b))
(* Ops are unique by id in every causally valid history, so this is total.   *)
SortOps(S) == SetToSortSeq(S, ById)

----------------------------------------------------------------------------
(* C03: the causal tree. Children of a node come youngest first, each one    *)
(* followed by its own subtree.                                              *)
Children(S) == FoldLeft(LAMBDA m, o : [m EXCEPT ![Ref(o)] = @ \cup {o}],
                        TLCEval([u \in {Ref(o) : o \in S} \cup {Id(o) : o \in S} |-> {}]), SetToSeq(S))
RECURSIVE TreeBy(_, _), Forest(_, _)
TreeBy(op, kids) ==
    <<op>> \o Forest(SetToSortSeq(kids[Id(op)], LAMBDA a, b : IdLt(Id(b), Id(a))), kids)
Forest(children, kids) ==
    IF children = <<>> THEN <<>>
    ELSE TreeBy(Head(children), kids) \o Forest(Tail(children), kids)
TreeFrom(op, S) == TreeBy(op, Children(S \cup {op}))

Heads(ins) == {ins[i][1] : i \in 1..Len(ins)}
LeastHead(ins) == CHOOSE h \in Heads(ins) : \A g \in Heads(ins) : IdLeq(Id(h), Id(g))

CausalTree(ins) ==
    LET in == NonEmpty(ins)
        S  == AllOps(in)
        t  == TreeFrom(LeastHead(in), S)
    IN  IF in = <<>> THEN [st |-> "OK", out |-> <<>>]
        ELSE IF OpsOf(t) = S THEN [st |-> "OK", out |-> t]
        ELSE [st |-> "CAUSEBREAK", out |-> <<>>]

----------------------------------------------------------------------------
(* C05: a maximum register: its creation record, then the greatest value;    *)
(* among equal values the latest write wins, whatever the layout.            *)
IsMaxHeader(op) == Len(Val(op)) = 0
MaxLt(a, b) == SeqLt(Rank(a), Rank(b)) \/ (Rank(a) = Rank(b) /\ IdLt(Id(a), Id(b)))
MaxMerge(ins) ==
    LET S  == AllOps(ins)
        H  == {o \in S : IsMaxHeader(o)}
        W  == S \ H
        top == CHOOSE o \in W : \A p \in W : p = o \/ MaxLt(p, o)
    IN  SortOps(H) \o (IF W = {} THEN <<>> ELSE <<top>>)

----------------------------------------------------------------------------
(* The merge of a record of the given form (C01-C03, C05).                   *)
Ok(f) == [st |-> "OK", out |-> f]
Merge(form, ins) ==
    CASE form = FLog -> Ok(Flat(ins))
      [] form \in {FZero, FError} ->
            LET in == NonEmpty(ins) IN Ok(IF in = <<>> THEN <<>> ELSE in[Len(in)])
      [] form \in SortedForms -> Ok(SortOps(AllOps(ins)))
      [] form = FRga -> CausalTree(ins)
      [] form = FMax -> Ok(MaxMerge(ins))
      [] OTHER -> [st |-> "NOTIMPL", out |-> <<>>]

(* The form a set of frames declares for itself: the only name their first   *)
(* ops refer to. Two different ones cannot be merged.                        *)
DeclaredForms(ins) ==
    LET in == NonEmpty(ins)
    IN  {Ref(in[i][1]) : i \in {j \in 1..Len(in) : Ref(in[j][1])[1] = NAME}}
MergeDeclared(ins) ==
    LET D == DeclaredForms(ins)
    IN  IF Cardinality(D) > 1 THEN [st |-> "BADARGS", out |-> <<>>]
        ELSE IF D = {} THEN Merge(FZero, ins)
        ELSE Merge(FormOf(CHOOSE d \in D : TRUE), ins)

----------------------------------------------------------------------------
(* C06: compaction of a last-write-wins object.                              *)
Superseded(f, i) == \E j \in 1..Len(f) :
    /\ Len(Val(f[j])) > 0 /\ Val(f[j])[1] = Val(f[i])[1]
    /\ IdLt(Id(f[i]), Id(f[j]))
Keep(f, i) == Len(Val(f[i])) = 0 \/ ~Superseded(f, i)
RECURSIVE KeepFrom(_, _)
KeepFrom(f, i) == IF i > Len(f) THEN <<>>
                  ELSE (IF Keep(f, i) THEN <<f[i]>> ELSE <<>>) \o KeepFrom(f, i + 1)
Compact(f) == KeepFrom(f, 1)

----------------------------------------------------------------------------
(* C07: chains of a log, and the state at a version.                         *)
Upto(f, cut) ==
    LET at == {i \in 1..Len(f) : Id(f[i]) = cut}
    IN  IF at = {} THEN f ELSE SubSeq(f, 1, CHOOSE i \in at : \A j \in at : i <= j)

RECURSIVE ChainsFrom(_, _, _)
ChainsFrom(f, i, cur) ==
    IF i > Len(f) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
    ELSE IF cur = <<>> \/ Ref(f[i]) = Id(cur[Len(cur)])
         THEN ChainsFrom(f, i + 1, Append(cur, f[i]))
         ELSE <<cur>> \o ChainsFrom(f, i + 1, <<f[i]>>)
Chains(f) == ChainsFrom(f, 1, <<>>)

StateOfLog(log) ==
    IF log = <<>> THEN Ok(<<>>)
    ELSE Merge(FormOf(Ref(log[1])), Chains(log))
StateAt(log, cut) == StateOfLog(Upto(log, cut))

----------------------------------------------------------------------------
(* C04: which elements of an array state are visible.                        *)
RM == "u:rm"   UN == "u:un"
(* What an op is, by its own look.                                           *)
Entry(op) == IF Val(op) = <<RM>> THEN 2 ELSE IF Val(op) = <<UN>> THEN 3 ELSE 1

(* A causal tree in reading order: the root first, every other op attached   *)
(* to the op before it or to one of that op's ancestors, ids only growing.   *)
ParentOf(f) == TLCEval([i \in 1..Len(f) |->
                 LET J == {j \in 1..(i - 1) : Id(f[j]) = Ref(f[i])}
                 IN  IF J = {} THEN 0 ELSE CHOOSE j \in J : TRUE])
\* p: the parents, as above
RECURSIVE AncOrSelf(_, _, _)
AncOrSelf(p, a, i) == a = i \/ (i > a /\ AncOrSelf(p, a, p[i]))

IsCausalTree(f) ==
    LET p == ParentOf(f)
    IN  f = <<>> \/
        /\ Ref(f[1]) = FormName(FRga) /\ Id(f[1])[1] = EVENT
        /\ \A i \in 2..Len(f) :
             /\ Id(f[i])[1] = EVENT /\ IdLt(Ref(f[i]), Id(f[i]))
             /\ p[i] > 0
             /\ AncOrSelf(p, p[i], i - 1)

META == 0  ENTRY == 1  REMOVE == 2  UNDO == 3  TRASH == 4

(* The role of every node: an op that continues its parent's role keeps it,  *)
(* one that steps from content to removal to undo takes the next, and        *)
(* anything else is misplaced, with all that hangs on it.                    *)
RECURSIVE Roles(_, _, _)
Roles(f, p, n) ==
    IF n = 1 THEN <<META>>
    ELSE LET r == Roles(f, p, n - 1)
             q == r[p[n]]
             e == Entry(f[n])
         IN  Append(r, IF q = TRASH THEN TRASH
                       ELSE IF e = q THEN q
                       ELSE IF e = q + 1 THEN e
                       ELSE TRASH)

(* The node the n-th control op of a chain acts on: count the chain up to    *)
(* where it hangs, then the same number of steps from there (the first step  *)
(* being the op it hangs on). 0: nothing there.                              *)
RECURSIVE ChainTop(_, _, _)
ChainTop(p, role, i) == IF role[p[i]] = role[i] THEN ChainTop(p, role, p[i]) ELSE i
RECURSIVE Steps_(_, _, _)
Steps_(p, i, top) == IF i = top THEN 0 ELSE 1 + Steps_(p, p[i], top)
RECURSIVE UpFrom(_, _, _)
UpFrom(p, i, k) == IF k = 0 THEN i ELSE IF i = 1 THEN 0 ELSE UpFrom(p, p[i], k - 1)
Target(p, role, i) ==
    LET top == ChainTop(p, role, i)
        t   == UpFrom(p, p[top], Steps_(p, i, top))
    IN  IF t = 0 THEN 0
        ELSE IF role[t] # role[i] - 1 THEN 0 ELSE t

Tombstones(f) ==
    IF f = <<>> THEN <<>>
    ELSE
    LET n    == Len(f)
        p    == ParentOf(f)
        role == Roles(f, p, n)
        \* UNDO ops hit removals of the chain they hang on only
        undone == {Target(p, role, i) : i \in {j \in 1..n : role[j] = UNDO}}
        killed == {Target(p, role, i) :
                     i \in {j \in 1..n : role[j] = REMOVE /\ j \notin undone}}
    IN  [i \in 1..n |-> role[i] # ENTRY \/ i \in killed]

Scan(f) == IF IsCausalTree(f) THEN [st |-> "OK", tombs |-> Tombstones(f)]
           ELSE [st |-> "ERROR", tombs |-> <<>>]

----------------------------------------------------------------------------
(* C30: an object read through its view. The view has seen a set of writes   *)
(* <<key, id, value, type>> (key "" = no key) and answers each question from *)
(* the latest write of the key, if that has a value of the type asked.       *)
ViewNoId == <<NAME, 1000, 0>>
ViewNone == [u |-> "u:0.0", f |-> "nan", s |-> "s:"]
View0 == [ws |-> {}, last |-> ViewNoId]
\* types: of every op, the types of its values
ViewWritesOf(f, types) ==
    {<<Val(f[i])[1], Id(f[i]), IF Len(Val(f[i])) > 1 THEN Val(f[i])[2] ELSE "",
       IF Len(Val(f[i])) > 1 THEN types[i][2] ELSE "">> :
        i \in {j \in 1..Len(f) : Len(Val(f[j])) > 0 /\ types[j][1] = "u"}}
ViewLatest(S, from) == FoldLeft(LAMBDA m, x : IF m = ViewNoId \/ IdLt(m, x) THEN x ELSE m, from, SetToSeq(S))
ViewSees(v, f, types) ==
    [ws |-> v.ws \cup ViewWritesOf(f, types), last |-> ViewLatest(IdsOf(f), v.last)]
ViewReads(v, key) ==
    LET W == {w \in v.ws : w[1] = key}
        w == CHOOSE x \in W : \A y \in W : IdLeq(y[2], x[2])
    IN  IF W = {} \/ w[4] \notin {"u", "f", "s"} THEN ViewNone
        ELSE [ViewNone EXCEPT ![w[4]] = w[3]]
\* a write through the view comes after all it has seen
ViewWrites(v, id, key, val) == <<id, v.last, <<key, val>>>>
=============================================================================
