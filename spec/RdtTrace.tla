------------------------------ MODULE RdtTrace ------------------------------
(* Checks recorded executions of the merging code against Rdt. Every line of *)
(* the trace is one call with its inputs and outcome as the code's own       *)
(* readers see them. W walkers share the lines; a line the specification     *)
(* does not allow is reported.                                               *)
EXTENDS Rdt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 8
VARIABLE i

MergeOk(e) ==
    LET x == IF e.route = "frames" THEN MergeDeclared(e.in) ELSE Merge(e.form, e.in)
    IN  /\ (x.st = "OK") = (e.st = "OK")
        /\ x.st = "CAUSEBREAK" => e.st = "CAUSEBREAK"
        /\ x.st = "OK" => e.out = x.out

\* the frames a register of a route history was compared with: equal texts
SameOk(e) == e.a = e.b /\ e.ta = e.tb

GcOk(e)  == e.st = "OK" /\ e.out = Compact(e.in[1])
MergeGcOk(e) == e.st = "OK" /\ e.out = Compact(Merge(FLww, e.in).out)

ScanOk(e) == LET x == Scan(e.in[1])
             IN  IF x.st = "OK" THEN e.st = "OK" /\ e.tombs = x.tombs
                 ELSE e.st \notin {"OK", "CRASH"}

CutLog(e) == IF e.hascut THEN Upto(e.in[1], e.cut) ELSE e.in[1]
ChainsOk(e) == e.st = "OK" /\ e.out = Chains(CutLog(e))
StateOk(e) == LET x == IF e.hascut THEN StateAt(e.in[1], e.cut) ELSE StateOfLog(e.in[1])
              IN  /\ (x.st = "OK") = (e.st = "OK")
                  /\ x.st = "OK" => e.out = x.out

RECURSIVE ViewOk(_, _, _)
ViewOk(v, steps, at) ==
    IF at > Len(steps) THEN TRUE
    ELSE LET s == steps[at]
         IN  CASE s.k = "sees" -> ViewOk(ViewSees(v, s.f, s.types), steps, at + 1)
               [] s.k = "reads" -> s.got = ViewReads(v, s.key) /\ ViewOk(v, steps, at + 1)
               [] s.k = "writes" ->
                     /\ Len(s.out) = 1
                     /\ <<Id(s.out[1]), Ref(s.out[1]), Val(s.out[1])>> = ViewWrites(v, s.id, s.key, s.val)
                     /\ LET seen == ViewSees(v, s.out, <<<<"u", s.type>>>>)
                        IN  ViewOk(IF s.noted THEN seen ELSE [v EXCEPT !.last = s.id], steps, at + 1)

Allowed(e) ==
    /\ e.st # "CRASH"
    /\ e.seen                  \* the inputs were read as they were written
    /\ CASE e.op = "merge"   -> MergeOk(e)
         [] e.op = "same"    -> SameOk(e)
         [] e.op = "gc"      -> GcOk(e)
         [] e.op = "mergegc" -> MergeGcOk(e)
         [] e.op = "scan"    -> ScanOk(e)
         [] e.op = "chains"  -> ChainsOk(e)
         [] e.op = "state"   -> StateOk(e)
         [] e.op = "view"    -> e.st = "OK" /\ ViewOk(View0, e.steps, 1)

Init == i \in 1..W
Next == /\ i <= Len(Trace)
        /\ IF Allowed(Trace[i]) THEN TRUE ELSE PrintT(<<"REJECTED", i>>)
        /\ i' = i + W
Spec == Init /\ [][Next]_i
(* every line was consumed: walkers end just past the trace *)
Consumed == TLCGet("stats").distinct = Len(Trace) + W
=============================================================================
