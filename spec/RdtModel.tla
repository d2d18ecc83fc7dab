------------------------------ MODULE RdtModel ------------------------------
(* The distributed system the data types serve: replicas create ops, pass    *)
(* single ops, patches and whole states around in any order and any number   *)
(* of times, and merge them. The merging itself is modelled the way the code *)
(* does it - a heap of cursors, and for arrays a weave that adds an input    *)
(* when the op its head refers to has just been written - and is checked     *)
(* against the declarative meaning in Rdt.                                   *)
EXTENDS Rdt
CONSTANTS Form, Replicas, MaxOps

VARIABLES made,   \* every op created so far
          rep,    \* replica -> its frame (state)
          known   \* replica -> ids it has been given

vars == <<made, rep, known>>

----------------------------------------------------------------------------
(* The heap merge: repeatedly take the first cursor in order, write its op,  *)
(* and skip the same op in all others.                                       *)
RECURSIVE HeapMerge(_)
HeapMerge(ins) ==
    LET live == {i \in DOMAIN ins : ins[i] # <<>>}
    IN  IF live = {} THEN <<>>
        ELSE LET t == CHOOSE i \in live : \A j \in live :
                         Id(ins[i][1]) = Id(ins[j][1]) \/ IdLt(Id(ins[i][1]), Id(ins[j][1]))
                 op == ins[t][1]
             IN  <<op>> \o HeapMerge([i \in DOMAIN ins |->
                                        IF ins[i] # <<>> /\ Id(ins[i][1]) = Id(op)
                                        THEN Tail(ins[i]) ELSE ins[i]])

(* The weave: `live` are the cursors in the heap, `wait` those not attached. *)
RECURSIVE Weave(_, _)
Weave(live, wait) ==
    LET act == {i \in DOMAIN live : live[i] # <<>>}
    IN  IF act = {} THEN [out |-> <<>>, left |-> {i \in DOMAIN wait : wait[i] # <<>>}]
        ELSE LET t  == CHOOSE i \in act : \A j \in act : IdLeq(Id(live[j][1]), Id(live[i][1]))
                 op == live[t][1]
                 stepped == [i \in DOMAIN live |->
                               IF live[i] # <<>> /\ Id(live[i][1]) = Id(op)
                               THEN Tail(live[i]) ELSE live[i]]
                 joins == {i \in DOMAIN wait : wait[i] # <<>> /\ Ref(wait[i][1]) = Id(op)}
                 l2 == [i \in DOMAIN live |-> IF i \in joins THEN wait[i] ELSE stepped[i]]
                 w2 == [i \in DOMAIN wait |-> IF i \in joins THEN <<>> ELSE wait[i]]
                 rest == Weave(l2, w2)
             IN  [rest EXCEPT !.out = <<op>> \o @]

ImplRga(ins) ==
    IF ins = <<>> THEN Ok(<<>>) ELSE
    LET least == Id(LeastHead(ins))
        live == [i \in DOMAIN ins |-> IF Id(ins[i][1]) = least THEN ins[i] ELSE <<>>]
        wait == [i \in DOMAIN ins |-> IF Id(ins[i][1]) = least THEN <<>> ELSE ins[i]]
        w == Weave(live, wait)
    IN  IF w.left = {} THEN Ok(w.out) ELSE [st |-> "CAUSEBREAK", out |-> <<>>]

ImplMerge(ins) ==
    LET in == NonEmpty(ins)
    IN  CASE Form \in SortedForms -> Ok(HeapMerge(in))
          [] Form = FRga -> ImplRga(in)
          [] Form = FMax -> Merge(Form, in)

----------------------------------------------------------------------------
Root == <<<<EVENT, 1, 0>>, FormName(Form), <<>>, <<0>>>>
OpById(u) == CHOOSE o \in made : Id(o) = u

(* the declarative state of a replica that knows these ops                   *)
Canon(ids) == LET S == {o \in made : Id(o) \in ids}
              IN  CASE Form = FRga -> TreeFrom(Root, S)
                    [] Form = FMax -> MaxMerge(<<SortOps(S)>>)
                    [] OTHER -> SortOps(S)

Init == /\ made = {Root}
        /\ rep = [r \in Replicas |-> <<Root>>]
        /\ known = [r \in Replicas |-> {Id(Root)}]

Values == IF Form \in {FMax, FLww} THEN {0, 1} ELSE {0}
\* a register's value; a key and a value; a character
Vals(v, r, x) == IF Form = FLww THEN <<"k" \o ToString(x), "s:" \o ToString(v) \o "." \o ToString(r)>> ELSE <<"v">>

Create(r) ==
    /\ Cardinality(made) < MaxOps
    /\ \E ref \in (IF Form = FRga THEN known[r] ELSE {Id(Root)}), x \in Values :
         LET v  == 1 + (CHOOSE m \in {u[2] : u \in known[r]} : \A w \in known[r] : w[2] <= m)
             op == <<<<EVENT, v, r>>, ref, Vals(v, r, x), <<1, x>>>>
             m  == ImplMerge(<<rep[r], <<op>>>>)
         IN  /\ made' = made \cup {op}
             /\ rep' = [rep EXCEPT ![r] = m.out]
             /\ known' = [known EXCEPT ![r] = @ \cup {Id(op)}]
             /\ Assert(m.st = "OK", "own op refused")

(* whole-state exchange, either order of the inputs                          *)
Pull(a, b) ==
    /\ a # b /\ known[b] \ known[a] # {}
    /\ \E s \in {<<rep[a], rep[b]>>, <<rep[b], rep[a]>>} :
         rep' = [rep EXCEPT ![a] = ImplMerge(s).out]
    /\ known' = [known EXCEPT ![a] = @ \cup known[b]]
    /\ UNCHANGED made

(* one op (again, possibly) - causally ready                                 *)
Deliver(a, op) ==
    /\ Ref(op) \in known[a] \/ Form # FRga
    /\ Id(op) \notin known[a]
    /\ rep' = [rep EXCEPT ![a] = ImplMerge(<<rep[a], <<op>>>>).out]
    /\ known' = [known EXCEPT ![a] = @ \cup {Id(op)}]
    /\ UNCHANGED made

Next == \E a \in Replicas :
          \/ Create(a)
          \/ \E b \in Replicas : Pull(a, b)
          \/ \E op \in made : Deliver(a, op)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* C01/C02/C03/C05: the state depends on what was received only.             *)
Converged == \A r \in Replicas : rep[r] = Canon(known[r])
(* and merging is order-blind, repetition-blind and grouping-blind, for      *)
(* states and for loose ops.                                                 *)
Frames == {rep[r] : r \in Replicas} \cup {<<o>> : o \in made}
Same(x, y) == x.st = y.st /\ (x.st = "OK" => x.out = y.out)
MeaningKept ==
    \A f, g \in Frames : /\ Same(ImplMerge(<<f, g>>), Merge(Form, <<f, g>>))
                         /\ Same(ImplMerge(<<f, g>>), ImplMerge(<<g, f>>))
                         /\ Same(ImplMerge(<<f, f>>), Ok(f))
                         /\ Same(ImplMerge(<<f, g, f>>), ImplMerge(<<f, g>>))
Grouping ==
    \A f, g, h \in Frames :
      LET x == ImplMerge(<<f, g, h>>)
          fg == ImplMerge(<<f, g>>)
          gh == ImplMerge(<<g, h>>)
      IN  /\ fg.st = "OK" => Same(ImplMerge(<<fg.out, h>>), x)
          /\ gh.st = "OK" => Same(ImplMerge(<<f, gh.out>>), x)
(* the weave leaves something unattached exactly when it hangs in the air    *)
IsTree == Form = FRga => \A r \in Replicas : IsCausalTree(rep[r])
(* a replica's state can be rebuilt from any causal log of what it knows     *)
StateFromLog == \A r \in Replicas : Form # FMax =>
    LET log == SortOps({o \in made : Id(o) \in known[r]})
    IN  /\ Same(StateOfLog(log), Ok(rep[r]))
        /\ Flat(Chains(log)) = log
        /\ \A u \in known[r] :
             Upto(log, u) = SortOps({o \in OpsOf(log) : IdLeq(Id(o), u)})
(* C06: compaction can be done at any time, any number of times, anywhere.   *)
Compacts == Form = FLww => \A f, g \in Frames :
    LET m == ImplMerge(<<f, g>>).out
        c == ImplMerge(<<Compact(f), Compact(g)>>).out
    IN  /\ Compact(Compact(f)) = Compact(f)
        /\ Compact(c) = Compact(m)
        /\ \A i \in 1..Len(m) : Keep(m, i) <=> m[i] \in OpsOf(Compact(m))
(* C30: a view says the same of a state, of the state compacted, and of the  *)
(* ops one by one in any of the orders they may have come in.                *)
Types(f) == [i \in 1..Len(f) |-> IF Val(f[i]) = <<>> THEN <<>> ELSE <<"u", "s">>]
Reads(v) == [k \in {"k0", "k1", "k2"} |-> ViewReads(v, k)]
RECURSIVE OneByOne(_, _)
OneByOne(v, f) == IF f = <<>> THEN v ELSE OneByOne(ViewSees(v, <<Head(f)>>, Types(<<Head(f)>>)), Tail(f))
Viewed == Form = FLww => \A r \in Replicas :
    LET f == rep[r]
        v == ViewSees(View0, f, Types(f))
        n == Compact(f)
    IN  /\ Reads(v) = Reads(ViewSees(View0, n, Types(n)))
        /\ OneByOne(View0, f) = v
        /\ OneByOne(View0, Reverse(f)) = v
        /\ \A k \in {"k0", "k1"} : (Reads(v)[k] = ViewNone) <=> (\A o \in OpsOf(f) : Val(o) = <<>> \/ Val(o)[1] # k)
=============================================================================
