------------------------------ MODULE CliTrace ------------------------------
(* Replays recorded sessions of the command line tool: one per line of the   *)
(* trace. A session is reported at the first command that no state it may    *)
(* have led to allows.                                                       *)
EXTENDS Cli, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 8
VARIABLES h, i, S
vars == <<h, i, S>>
BAD == [Blank EXCEPT !.clock = 0 - 1]
Follow(Z, e) == IF e.st = "CRASH" THEN {} ELSE UNION {CSteps(z, e) : z \in {y \in Z : CAllowed(y, e)}}
N == Len(Trace)
Init == h \in 1..W /\ i = 1 /\ S = {Blank}
Next == /\ h <= N
        /\ LET ev == Trace[h].ev
               Z == IF S = {BAD} THEN {BAD} ELSE Follow(S, ev[i])
           IN  /\ IF Z = {} THEN PrintT(<<"REJECTED", h, i>>) ELSE TRUE
               /\ IF i < Len(ev)
                  THEN h' = h /\ i' = i + 1 /\ S' = (IF Z = {} THEN {BAD} ELSE Z)
                  ELSE h' = h + W /\ i' = 1 /\ S' = {Blank}
Spec == Init /\ [][Next]_vars
Total == FoldLeft(LAMBDA a, b : a + Len(b.ev), 0, Trace)
Consumed == TLCGet("stats").distinct = Total + W
=============================================================================
