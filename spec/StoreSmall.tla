----------------------------- MODULE StoreSmall -----------------------------
(* A small world of stores: three branches, a transaction, a few keys, each  *)
(* with a fixed order of frames to write. Shared by the exhaustive check of  *)
(* the specification and by the generator of histories.                      *)
EXTENDS Store, FiniteSetsExt
CONSTANTS BRANCHES,   \* ids of branches besides the main one
          KEYS,       \* how many keys
          FRAMES,     \* how many frames may be written in all
          WITHJOIN, WITHBATCH

Oid(n) == <<EVENT, n, 0>>
LwwKey(n) == <<FLww, 5, 0, 7, n>>
RgaKey(n) == <<FRga, 5, 0, 7, n>>
KeyNo(n) == IF n = 2 THEN RgaKey(n) ELSE LwwKey(n)
(* key n's frames: a creation op, then ops on top of it                      *)
FrameNo(n, j) ==
    LET op(i) == <<Oid(10 * n + i), IF i = 1 THEN FormName(KeyNo(n)[1]) ELSE Oid(10 * n + i - 1),
                   IF i = 1 THEN <<>> ELSE <<"s:61">>, IF i = 1 THEN <<0>> ELSE <<2, 97>>>>
    IN  <<op(j)>>

Slots == {MAIN} \cup BRANCHES
Written(c) == FoldSet(LAMBDA k, n : n + Len(c[k]), 0, Keys(c) \ {ZEROKEY})
FoldAll(f) == FoldSet(LAMBDA b, n : n + Written(f[b]), 0, DOMAIN f)
Total(s) == FoldAll(s.br) + (IF "m" \in DOMAIN s.sl THEN Written(s.sl["m"].c) ELSE 0)

NextFrame(s, x, n) == Len(At(View(s, x), KeyNo(n))) + 1
WriteCmd(s, x, n) == [op |-> "write", slot |-> x, n |-> n, j |-> NextFrame(s, x, n),
                      k |-> KeyNo(n), f |-> FrameNo(n, NextFrame(s, x, n)), ok |-> FALSE]
BatchCmd(s, x, a, b) ==
    [op |-> "batch", slot |-> x, ns |-> <<a, b>>, js |-> <<NextFrame(s, x, a), NextFrame(s, x, b)>>,
     recs |-> <<<<KeyNo(a), FrameNo(a, NextFrame(s, x, a))>>, <<KeyNo(b), FrameNo(b, NextFrame(s, x, b))>>>>, ok |-> FALSE]
Simple(o, x) == [op |-> o, slot |-> x, ok |-> FALSE]

(* dropping a branch while a transaction over it is open is out of scope     *)
Busy(s, x) == "j" \in DOMAIN s.sl /\ s.sl["j"].a = x

Cmds(s) ==
    {[op |-> "create", slot |-> b, b |-> b, from |-> f, ok |-> FALSE] : b \in Slots, f \in {NOSLOT, MAIN}}
    \cup {[op |-> "openall", ids |-> <<>>, ok |-> FALSE]}
    \cup {[op |-> "open", slot |-> MAIN, b |-> MAIN, ok |-> FALSE]}
    \cup {Simple(o, x) : o \in {"close", "drop"}, x \in {y \in Slots : ~Busy(s, y)}}
    \cup (IF Total(s) >= FRAMES THEN {}
          ELSE {WriteCmd(s, x, n) : x \in Slots, n \in 1..KEYS}
               \cup (IF WITHBATCH THEN {BatchCmd(s, x, 1, 2) : x \in Slots} ELSE {})
               \cup (IF WITHJOIN /\ "j" \in DOMAIN s.sl THEN {WriteCmd(s, "j", n) : n \in 1..KEYS} ELSE {}))
    \cup (IF ~WITHJOIN THEN {}
          ELSE (IF "m" \in DOMAIN s.sl THEN {} ELSE {Simple("mem", "m")})
               \cup (IF "m" \in DOMAIN s.sl /\ "j" \notin DOMAIN s.sl
                     THEN {[op |-> "join", slot |-> "j", a |-> x, b |-> "m", ok |-> FALSE] :
                           x \in {y \in Slots : IsRocks(s, y)}} ELSE {})
               \cup (IF "j" \in DOMAIN s.sl
                     THEN {[op |-> "release", slot |-> "m", to |-> s.sl["j"].a, ok |-> FALSE]} ELSE {}))

(* a command with the outcome it has here; where either may be, refusal      *)
Outcome(s, c) == [c EXCEPT !.ok = (Must(s, c) = "yes")]
(* saving a transaction ends it                                              *)
After_(s, e) == LET t == Step(s, e)
                IN  IF e.op = "release" /\ e.ok THEN [t EXCEPT !.sl = Without(@, {"m", "j"})] ELSE t
Init_ == Blank
=============================================================================
