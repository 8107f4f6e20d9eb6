------------------------------ MODULE TraceIso ------------------------------
(* Recorded runs of independent objects, checked for module Iso's             *)
(* NonInterference: an object's replies are those it gives alone.             *)
EXTENDS TraceLib

VARIABLES pos, st, bad, cov

\* what the objects of this scenario reply when used alone; "none" before
TInit == [known |-> FALSE, alone |-> <<>>]

SameRuns(a, b) == Len(a) = Len(b) /\ \A o \in DOMAIN a : Len(a[o]) = Len(b[o]) /\ \A k \in DOMAIN a[o] : a[o][k] = b[o][k]

Judge(s, e) ==
  LET op == e.a.op IN
  CASE Dead(e) -> [st |-> s, c |-> Chk("X01", "returns", FALSE)]
    [] op = "parts" -> [st |-> TInit, c |-> <<>>]
    [] op = "solo" /\ ~s.known -> [st |-> [known |-> TRUE, alone |-> e.r.runs], c |-> <<>>]
    [] op = "solo" -> [st |-> s, c |-> Chk("X01", "repeatable", SameRuns(s.alone, e.r.runs))]
    [] op = "weave" -> [st |-> s, c |-> Chk("X01", "interleaved", s.known /\ SameRuns(s.alone, e.r.runs))]
    [] op = "par" -> [st |-> s, c |-> Chk("X01", "concurrent", ~s.known \/ SameRuns(s.alone, e.r.runs))]
    [] OTHER -> [st |-> s, c |-> Chk("X01", "known-op", FALSE)]

Init == pos = 1 /\ st = TInit /\ bad = <<>> /\ cov = <<>>

Step == /\ pos <= Len(Trace)
        /\ LET e == Trace[pos]
               j == Judge(st, e)
           IN /\ st' = j.st
              /\ bad' = AddBad(bad, e, j.c)
              /\ cov' = CountChecks(cov, j.c)
        /\ pos' = pos + 1

Done == /\ pos = Len(Trace) + 1
        /\ Report(pos - 1, bad, cov)
        /\ pos' = pos + 1
        /\ UNCHANGED <<st, bad, cov>>

Next == Step \/ Done
Spec == Init /\ [][Next]_<<pos, st, bad, cov>>
=============================================================================
