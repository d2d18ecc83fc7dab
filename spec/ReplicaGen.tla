----------------------------- MODULE ReplicaGen -----------------------------
(* Histories of replica calls that cover every transition between the states *)
(* of a small world: every command offered in every state is printed with a  *)
(* history that leads there.                                                 *)
EXTENDS ReplicaSmall, Json
CONSTANT DEPTH
VARIABLES r, hist
Init == r = Init_ /\ hist = <<>>
(* .was: what the clock has to say for the stamps to come out as they do here *)
Noted(d) == d @@ [was |-> Maxi(r.now, Seen(r))]
Next == \E c \in Cmds(r) :
          LET d == Outcome(r, c)
              h == Append(hist, Noted(d))
          IN  /\ IF PrintT(<<"CASE", ToJson(h)>>) THEN TRUE ELSE TRUE
              /\ r' \in Steps(r, d) /\ hist' = h
Spec == Init /\ [][Next]_<<r, hist>>
Bound == Len(hist) < DEPTH
State == r
=============================================================================
