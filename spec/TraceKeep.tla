----------------------------- MODULE TraceKeep ------------------------------
(* Recorded histories of real objects, whose arguments and results were all   *)
(* looked at again after every call, checked for module Keep's Undisturbed:   *)
(* each event says how many of those held changed.                            *)
EXTENDS TraceLib

VARIABLES pos, st, bad, cov

Judge(e) ==
  CASE Dead(e) -> Chk("X02", "returns", FALSE)
    [] ~Has(e.r, "n") -> Chk("X02", "looked-at", FALSE)
    [] e.r.n = 0 -> <<>>
    [] OTHER -> Chk("X02", "arguments-unchanged", e.r.given = 0) \o Chk("X02", "results-unchanged", e.r.gave = 0)

Init == pos = 1 /\ st = 0 /\ bad = <<>> /\ cov = <<>>

Step == /\ pos <= Len(Trace)
        /\ LET e == Trace[pos]
               c == Judge(e)
           IN /\ bad' = AddBad(bad, e, c)
              /\ cov' = CountChecks(cov, c)
        /\ pos' = pos + 1
        /\ UNCHANGED st

Done == /\ pos = Len(Trace) + 1
        /\ Report(pos - 1, bad, cov)
        /\ pos' = pos + 1
        /\ UNCHANGED <<st, bad, cov>>

Next == Step \/ Done
Spec == Init /\ [][Next]_<<pos, st, bad, cov>>
=============================================================================
