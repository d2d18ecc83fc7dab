----------------------------- MODULE StackModel -----------------------------
(* The compact stack refines the plain one; prints every history as a CASE.  *)
EXTENDS Stack, TLC, Json
CONSTANTS Elems, MaxLen, Emit
VARIABLES s, r, h
E0 == {<<e \div 10, e % 10>> : e \in Elems}
Init == s = <<>> /\ r = <<>> /\ h = <<>>
Next == /\ Len(h) < MaxLen
        /\ \/ \E e \in E0 : s' = Push(s, e) /\ r' = RPush(r, e) /\ h' = Append(h, e)
           \/ s # <<>> /\ s' = Pop(s) /\ r' = RPop(r) /\ h' = Append(h, <<>>)
        /\ IF Emit /\ Len(h') = MaxLen THEN PrintT(<<"CASE", ToJson(h')>>) ELSE TRUE
Spec == Init /\ [][Next]_<<s, r, h>>
Refines == Unfold(r) = s
Compact == \A k \in 1..(Len(r) - 1) : Succ(r[k][1], r[k][2]) # r[k + 1][1]
=============================================================================
