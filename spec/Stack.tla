------------------------------- MODULE Stack --------------------------------
(* A stack of ids, kept as runs of consecutive ones. An element is           *)
(* <<origin, n>>; its successor is <<origin, n+1>>. A run is <<first, size>>.*)
EXTENDS Integers, Sequences
Succ(e, n) == <<e[1], e[2] + n>>

(* the plain stack *)
Push(s, e) == Append(s, e)
Pop(s) == SubSeq(s, 1, Len(s) - 1)

(* the compact one *)
RPush(r, e) == IF r # <<>> /\ Succ(r[Len(r)][1], r[Len(r)][2]) = e
               THEN [r EXCEPT ![Len(r)][2] = @ + 1]
               ELSE Append(r, <<e, 1>>)
RPop(r) == IF r[Len(r)][2] = 1 THEN SubSeq(r, 1, Len(r) - 1) ELSE [r EXCEPT ![Len(r)][2] = @ - 1]
RECURSIVE Unfold(_)
Unfold(r) == IF r = <<>> THEN <<>>
             ELSE [k \in 1..r[1][2] |-> Succ(r[1][1], k - 1)] \o Unfold(Tail(r))

(* what may be observed: see StackOk in IdsTrace *)
Skippable(s, at, n) == \A k \in 1..n : s[at + k - 1] = Succ(s[at], k - 1)
=============================================================================
