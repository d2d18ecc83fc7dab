------------------------------ MODULE StoreGen ------------------------------
(* Histories of store calls that cover every transition between the states   *)
(* of a small world: states are told apart by s alone, and every command     *)
(* offered in every state is printed with a history that leads there.        *)
EXTENDS StoreSmall, Json
CONSTANT DEPTH
VARIABLES s, hist
Init == s = Init_ /\ hist = <<>>
Brief(e) == [f \in DOMAIN e \ {"f", "recs", "k", "ids"} |-> e[f]]
Next == \E c \in Cmds(s) :
          LET e == Outcome(s, c)
              h == Append(hist, Brief(e))
          IN  /\ IF PrintT(<<"CASE", ToJson(h)>>) THEN TRUE ELSE TRUE
              /\ s' = After_(s, e) /\ hist' = h
Spec == Init /\ [][Next]_<<s, hist>>
Bound == Len(hist) < DEPTH
View_ == s
=============================================================================
