------------------------------- MODULE IdsGen -------------------------------
(* Every text over an alphabet, up to a length: ids, hex and base-64 hashes. *)
EXTENDS Ids, TLC, Json
CONSTANTS Alphabet, MaxLen
H == INSTANCE Hash
VARIABLE t
Init == t = <<>>
Next == /\ Len(t) < MaxLen
        /\ \E c \in Alphabet : t' = Append(t, c)
        /\ PrintT(<<"CASE", ToJson(t')>>)
Spec == Init /\ [][Next]_t
\* a text is either in error or says the same id when printed again
Canonical == LET u == Parse(t) IN Parse(Print(u)) = u
\* a hash text is a prefix of every longer one
HashPrefix == \A how \in {"h", "b"} :
                LET x == H!ParseHash(how, t)
                    y == H!ParseHash(how, SubSeq(t, 1, Len(t) - 1))
                IN  t # <<>> => (x = <<>> \/ (Len(x) = Len(y) + H!Width(how) /\ H!Matches(x, y)))
=============================================================================
