------------------------------ MODULE TraceGop ------------------------------
(* Recorded GOP cache histories, checked against module Gop.                  *)
EXTENDS Gop, TraceLib

VARIABLES pos, st, bad, cov

\* Classifying a packet: FLV tag data.
KindOf(a) ==
  LET d == a.data IN
  CASE a.t = 0 -> LET ft == d[1] \div 16 IN
                  IF ft = 1 THEN (IF d[2] = 0 THEN "vseq" ELSE "key")
                  ELSE IF ft = 2 THEN "inter" ELSE "other"
    [] a.t = 1 -> IF d[1] \div 16 = 10 /\ d[2] = 0 THEN "aseq" ELSE "other"
    [] a.t = 2 -> "md"
    [] OTHER   -> "other"

AllG == <<"G01", "G02", "G03">>

\* the cache, whether a packet was rejected, and whether it was read before
TInit(cap) == [g |-> GopInit(cap), over |-> FALSE, sent |-> FALSE]

Judge(s, e) ==
  LET op == e.a.op  k == e.r.k IN
  CASE k = "skip" -> [st |-> s, c |-> <<>>]
    [] Dead(e) -> [st |-> s, c |-> Chks(AllG, "returns", FALSE)]
    [] op = "new" -> [st |-> TInit(e.a.cap), c |-> <<>>]
    [] op = "write" ->
         LET kind == KindOf(e.a)
             want == WriteOk(s.g, kind)
             new  == GopWrite(s.g, kind, e.a.n)
         IN [st |-> [s EXCEPT !.g = new, !.over = @ \/ ~want],
             c  |-> IF kind = "inter"
                    THEN Chk("G02", IF want THEN "inter-accepted" ELSE "inter-rejected", (k = "ok") = want)
                    ELSE Chk("G02", "header-or-key-accepted", k = "ok")]
    [] op = "send" ->
         LET exp == ReplayTo(s.g, e.a.fail)
             ids == e.r.ids
         IN [st |-> [s EXCEPT !.sent = TRUE],
             c  |-> IF exp.ok
                    THEN Chk("G01", "replay", ids = exp.ids)
                         \o Chk("G01", "replay-ok", k = "ok")
                         \o Chk("G02", "bounded", Len(ids) <= 3 + s.g.cap * MaxGop)
                         \o (IF s.over \/ Len(exp.ids) > 1000
                             THEN Chk("G02", "intact-after-rejection", ids = exp.ids) ELSE <<>>)
                         \o (IF s.sent THEN Chk("G03", "repeatable", k = "ok" /\ ids = exp.ids) ELSE <<>>)
                         \o Chk("G03", "packets-unchanged", e.r.mut = 0)
                    ELSE Chk("G03", "failure-reported", k = "err")
                         \o Chk("G03", "prefix-on-failure", ids = exp.ids)
                         \o Chk("G03", "packets-unchanged", e.r.mut = 0)]
    [] OTHER -> [st |-> s, c |-> Chks(AllG, "known-op", FALSE)]

Init == pos = 1 /\ st = TInit(0) /\ bad = <<>> /\ cov = <<>>

Step == /\ pos <= Len(Trace)
        /\ LET e == Trace[pos]
               j == Judge(st, e)
           IN /\ st' = j.st
              /\ bad' = AddBad(bad, e, j.c)
              /\ cov' = CountChecks(cov, j.c)
        /\ pos' = pos + 1

Done == /\ pos = Len(Trace) + 1
        /\ Report(pos - 1, bad, cov)
        /\ pos' = pos + 1
        /\ UNCHANGED <<st, bad, cov>>

Next == Step \/ Done
Spec == Init /\ [][Next]_<<pos, st, bad, cov>>
=============================================================================
