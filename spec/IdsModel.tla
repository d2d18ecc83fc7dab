------------------------------ MODULE IdsModel ------------------------------
(* The laws of Ids over a small scope: every pair of ids made of the sampled *)
(* words; every text over a small alphabet. A state is one pair (or text).   *)
EXTENDS Ids, TLC
CONSTANTS Digits
VARIABLES kind, a, b

Words == {Pad(<<x>>) : x \in Digits} \cup {Pad(<<x, y>>) : x, y \in Digits}
         \cup {[k \in 1..10 |-> IF k = 10 THEN x ELSE 63] : x \in Digits}
         \cup {[k \in 1..10 |-> IF k = 10 THEN x ELSE 0] : x \in Digits}
Values == {<<f, d>> : f \in {0, 1, 10}, d \in Words}
Origins == {<<f, d>> : f \in 0..3, d \in {ZeroD, MaxD, Pad(<<10>>), Pad(<<10, 1>>)}}
IdSet(x) == {<<v, o>> : v \in Values, o \in Origins}
Some(x) == {<<v, o>> : v \in {w \in Values : w[1] \in {0, 10}}, o \in {y \in Origins : y[1] \in {0, 2} /\ y[2] # MaxD}}

Init == /\ kind = "start" /\ a = NIL /\ b = NIL
Next == \/ kind = "start" /\ kind' = "id" /\ a' \in IdSet(0) /\ b' = a'
        \/ kind = "start" /\ kind' = "pair" /\ a' \in Some(0) /\ b' = a'
        \/ kind = "pair" /\ kind' = "pairs" /\ a' = a /\ b' \in Some(0)
        \/ kind = "start" /\ kind' = "time" /\ a' \in {<<d, s, t>> : d \in {14610, 14640, 14668, 14669, 15034, 15399, 16129, 47540, 137000}, s \in {0, 59, 60, 3599, 3600, 86399}, t \in {0, 63, 64, 9999999}} /\ b' = a'
        \/ kind = "time" /\ kind' = "times" /\ a' = a /\
             b' \in {<<a[1], a[2], a[3] + 1>>, <<a[1], a[2] + 1, 0>>, <<a[1] + 1, 0, 0>>, <<a[1] + 31, a[2], a[3]>>}
Spec == Init /\ [][Next]_<<kind, a, b>>

RoundTrip == kind \in {"id", "pair"} => /\ Parse(Print(a)) = a
                                        /\ Parse(Print(a)) # ErrorId \/ a = ErrorId
TextOrder == kind = "pairs" =>      \* equally long plain words: the order of texts
  LET x == PrintWord(a[1])  y == PrintWord(b[1]) IN
  (a[1][1] = b[1][1] /\ Len(x) = Len(y)) => (SeqLess(x, y) <=> WordLess(a[1], b[1]))
Total == kind = "pairs" => /\ ~(IdLess(a, b) /\ IdLess(b, a))
                           /\ IdLess(a, b) \/ IdLess(b, a) \/ a = b
Inc == (kind = "pair" /\ CanAdd(a, 1)) =>
                                         /\ IdLess(a, Plus(a, 1))
                                         /\ Plus(a, 1)[2] = a[2]
                                         /\ Plus(Plus(a, 1), 63) = Plus(a, 64) \/ ~CanAdd(a, 64)
FormsOnto == kind = "start" => /\ \A f \in 0..19 : FormOf(FormId(f)) = f
                               /\ FormOf(FormId(255)) = 255
                               /\ \A f, g \in 0..19 : FormId(f) = FormId(g) => f = g
Clock == (kind = "times" /\ b[2] < 86400 /\ b[3] < 10000000) => SeqLess(Stamp(a[1], a[2], a[3]), Stamp(b[1], b[2], b[3]))
ClockFits == kind = "time" => \A k \in 1..10 : Stamp(a[1], a[2], a[3])[k] \in 0..63
=============================================================================
