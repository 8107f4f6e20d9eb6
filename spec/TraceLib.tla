------------------------------ MODULE TraceLib ------------------------------
(* What every trace specification shares: the recorded trace, the bookkeeping *)
(* of named checks, and how a run reports.                                    *)
(*                                                                            *)
(* A trace is a sequence of events [sc, i, a, r]: event i of scenario sc is   *)
(* the public call a, and r is what the implementation returned and wrote.    *)
(* A trace specification steps the component's specification through the      *)
(* events; each event yields checks <<property, name, holds>>.                *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Pid == IOEnv.PID          \* the property under check, "" for all of them

Want(p) == Pid = "" \/ Pid = p

\* b is only evaluated when property p is under check
Chk(p, n, b) == IF Want(p) THEN << <<p, n, b>> >> ELSE <<>>

\* the same check, for several properties
RECURSIVE Chks(_, _, _)
Chks(ps, n, b) == IF ps = <<>> THEN <<>>
                  ELSE Chk(Head(ps), n, b) \o Chks(Tail(ps), n, b)

\* a documented deviation was observed (known_findings.json)
Known(p, id) == IF Want(p) THEN << <<p, "KF:" \o id, TRUE>> >> ELSE <<>>

\* the call did not return
Dead(e) == e.r.k \in {"panic", "hang", "crash"}

Has(r, f) == f \in DOMAIN r

Cat2(a, b) == a \o b
Cat3(a, b, c) == a \o b \o c

CountChecks(cov, cs) ==
  FoldLeft(LAMBDA c, t : LET k == t[1] \o "/" \o t[2] IN
                         IF k \in DOMAIN c THEN [c EXCEPT ![k] = @ + 1] ELSE c @@ (k :> 1),
           cov, cs)

FailedChecks(e, cs) ==
  FoldLeft(LAMBDA acc, t : IF t[3] THEN acc
                           ELSE Append(acc, [sc |-> e.sc, i |-> e.i, pid |-> t[1], name |-> t[2]]),
           <<>>, cs)

MaxBad == 400

AddBad(bad, e, cs) ==
  IF Len(bad) >= MaxBad THEN bad ELSE bad \o FailedChecks(e, cs)

Report(n, bad, cov) == JsonSerialize(IOEnv.OUT, [n |-> n, bad |-> bad, cov |-> cov])
=============================================================================
