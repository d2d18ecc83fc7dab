---------------------------- MODULE ReplicaTrace ----------------------------
(* Replays recorded histories of replica calls. A line of the trace is one     *)
(* history; the walker keeps the set of states the history may have led to   *)
(* (more than one only after a crash), and reports a history at the first    *)
(* event no such state allows.                                               *)
EXTENDS Replica, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 8
VARIABLES h, i, S
vars == <<h, i, S>>
BAD == [Blank EXCEPT !.clock = 0 - 1]

(* a killed process: .subs are its finished calls, .cur the one under way    *)
RECURSIVE Run(_, _)
Run(Z, es) == IF es = <<>> THEN Z
              ELSE Run(UNION {Steps(z, Head(es)) : z \in {y \in Z : Allowed(y, Head(es))}}, Tail(es))
Killed(Z, e) ==
    LET Z1 == Run({Dead(z) : z \in Z}, e.subs)
        Z2 == IF e.cur = <<>> THEN Z1 ELSE UNION {InFlight(z, e.cur[1]) : z \in Z1}
    IN  {Dead(z) : z \in Z2}

Follow(Z, e) == IF e.st = "CRASH" THEN {}
                ELSE IF e.op = "crash" THEN Killed(Z, e)
                ELSE UNION {Steps(z, e) : z \in {y \in Z : Allowed(y, e)}}

N == Len(Trace)
Init == h \in 1..W /\ i = 1 /\ S = {Blank}
Next == /\ h <= N
        /\ LET ev == Trace[h].ev
               Z == IF S = {BAD} THEN {BAD} ELSE Follow(S, ev[i])
           IN  /\ IF Z = {} THEN PrintT(<<"REJECTED", h, i>>) ELSE TRUE
               /\ IF i < Len(ev)
                  THEN h' = h /\ i' = i + 1 /\ S' = (IF Z = {} THEN {BAD} ELSE Z)
                  ELSE h' = h + W /\ i' = 1 /\ S' = {Blank}
Spec == Init /\ [][Next]_vars
Total == FoldLeft(LAMBDA a, b : a + Len(b.ev), 0, Trace)
Consumed == TLCGet("stats").distinct = Total + W
=============================================================================
