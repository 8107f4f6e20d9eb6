----------------------------- MODULE TraceCodec -----------------------------
(* Recorded codec parser histories, checked against module Codec.             *)
EXTENDS Codec, TraceLib

VARIABLES pos, st, bad, cov

AllC == <<"C01", "C02", "C03", "C04", "C05">>

\* what the parser holds, and whether it has refused anything
TInit == [c |-> CodecInit, dirty |-> FALSE]

Soil(s) == [s EXCEPT !.dirty = TRUE]

\* a parse that must be refused with nothing written
Refused(s, e, ps, n) ==
  [st |-> Soil(s), c |-> Chks(ps, n, e.r.k = "err")]

\* output o wanted from a parse that must succeed; a writer that fails makes it
\* an error after a prefix
Wrote(s, e, o, ps, n) ==
  LET limited == e.a.fail >= 0 /\ e.a.fail < Len(o)
      also == ps \o (IF s.dirty THEN <<"C04">> ELSE <<>>)
  IN IF limited
     THEN [st |-> Soil(s),
           c |-> Chks(ps, "write-failure-reported", e.r.k = "err")
                 \o Chks(ps, "prefix-on-failure", IsPrefix(e.r.out, o))]
     ELSE [st |-> s, c |-> Chks(also, n, e.r.k = "ok" /\ e.r.out = o)]

VideoJudge(s, e, h) ==
  IF ~h.avc THEN Refused(s, e, <<"C04">>, "codec-refused")
  ELSE IF h.seq
  THEN LET q == AvcConfig(h.media)  k == e.r.k IN
       IF ~q.ok THEN [st |-> Soil(s), c |-> Chks(<<"C02", "C04">>, "bad-record-refused", k = "err" /\ e.r.out = <<>>)]
       ELSE IF q.usual
       THEN [st |-> [s EXCEPT !.c.avc = q.avc],
             c |-> Chks(<<"C02">> \o (IF s.dirty THEN <<"C04">> ELSE <<>>), "record-accepted", k = "ok" /\ e.r.out = <<>>)]
       ELSE [st |-> [Soil(s) EXCEPT !.c.avc.unk = TRUE], c |-> Chk("C02", "writes-nothing", e.r.out = <<>>)]
  ELSE LET f == AvcFrame(s.c.avc, h.media) IN
       IF s.c.avc.unk /\ h.media # <<>> /\ ~IsAnnexB(h.media) THEN [st |-> Soil(s), c |-> <<>>]
       ELSE IF ~f.ok THEN Refused(s, e, <<"C04">>, "unit-refused")
       ELSE LET j == Wrote(s, e, f.out, <<"C01">> \o (IF f.sets /\ s.c.avc.has THEN <<"C02">> ELSE <<>>),
                           IF IsAnnexB(h.media) THEN "passed-through" ELSE "annexb")
            IN j

AacJudge(s, e, h) ==
  IF h.typ = 0
  THEN LET q == AacConfig(h.media) IN
       IF ~q.ok THEN [st |-> Soil(s), c |-> Chks(<<"C03", "C04", "C05">>, "bad-config-refused", e.r.k = "err" /\ e.r.out = <<>>)]
       ELSE [st |-> [s EXCEPT !.c.aac = q.cfg],
             c |-> Chks(<<"C03">> \o (IF s.dirty THEN <<"C04">> ELSE <<>>), "config-accepted", e.r.k = "ok" /\ e.r.out = <<>>)]
  ELSE IF h.typ # 1 THEN Refused(s, e, <<"C04">>, "packet-type-refused")
  ELSE IF ~s.c.aac.has THEN [st |-> Soil(s), c |-> Chks(<<"C03", "C04">>, "frame-before-config-refused", e.r.k = "err" /\ e.r.out = <<>>)]
  ELSE IF Len(h.media) \notin 1 .. MaxAacFrame
  THEN [st |-> Soil(s), c |-> Chks(<<"C03", "C04">>, "frame-size-refused", e.r.k = "err" /\ e.r.out = <<>>)]
  ELSE IF e.a.fail >= 0 /\ e.a.fail < Len(h.media) + 7
  THEN [st |-> Soil(s), c |-> Chk("C03", "write-failure-reported", e.r.k = "err")
                             \o Chk("C03", "prefix-on-failure",
                                    /\ Len(e.r.out) <= Len(h.media) + 7
                                    /\ IsPrefix(Rest(e.r.out, 7), h.media))]
  ELSE [st |-> s, c |-> Chks(<<"C03">> \o (IF s.dirty THEN <<"C04">> ELSE <<>>), "adts",
                             e.r.k = "ok" /\ IsAdts(s.c.aac, h.media, e.r.out))]

Mp3Judge(s, e, h) ==
  LET m == Mp3(h.media)  k == e.r.k IN
  IF ~m.ok THEN Refused(s, e, <<"C04">>, "short-mp3-refused")
  ELSE LET devOk == (k = "ok") = (m.dev < 3)
           stdOk == (k = "ok") = (m.std < 3)
       IN [st |-> IF k = "ok" THEN [s EXCEPT !.c.mp3 = [has |-> TRUE, dev |-> m.dev, std |-> m.std]] ELSE Soil(s),
           c |-> Chks(<<"C04", "C05">>, "mp3-accepted", devOk \/ stdOk)
                 \o (IF devOk /\ ~stdOk THEN Known("C05", "mp3-rate-bits") ELSE <<>>)]

RateJudge(s, e) ==
  LET k == e.r.k  n == e.r.rate IN
  IF s.c.aac.has
  THEN Chks(<<"C05">> \o (IF s.dirty THEN <<"C04">> ELSE <<>>), "aac-rate", k = "ok" /\ n = AacRate(s.c.aac))
  ELSE IF s.c.mp3.has
  THEN LET dev == IF s.c.mp3.dev < 3 THEN Mp3Rates[s.c.mp3.dev + 1] ELSE 0
           std == IF s.c.mp3.std < 3 THEN Mp3Rates[s.c.mp3.std + 1] ELSE 0
       IN Chk("C05", "mp3-rate", k = "ok" /\ n \in {dev, std})
          \o (IF n = dev /\ dev # std THEN Known("C05", "mp3-rate-bits") ELSE <<>>)
  ELSE Chk("C05", "no-rate-before-audio", k = "err")

Judge(s, e) ==
  LET op == e.a.op  k == e.r.k IN
  CASE k = "skip" -> [st |-> s, c |-> Chk("C04", "demuxed", ~Demux(e.a.t, e.a.data).ok)]
    [] Dead(e) -> [st |-> s, c |-> Chks(AllC, "returns", FALSE)]
    [] op = "new" -> [st |-> TInit, c |-> <<>>]
    [] op = "rate" -> [st |-> s, c |-> RateJudge(s, e)]
    [] op = "parse" ->
         LET h == Demux(e.a.t, e.a.data)
             j == CASE ~h.ok -> Refused(s, e, <<"C04">>, "undemuxed-refused")
                    [] e.a.t = Video -> VideoJudge(s, e, h)
                    [] e.a.t = Audio /\ h.aac -> AacJudge(s, e, h)
                    [] e.a.t = Audio -> Mp3Judge(s, e, h)
                    [] OTHER -> Refused(s, e, <<"C04">>, "kind-refused")
         IN [st |-> j.st, c |-> j.c \o Chk("C04", "packet-unchanged", e.r.same = 1)]
    [] op = "raw" ->      \* a packet of the caller's own making
         LET m == e.a.mt
             whole == e.a.has = <<1, 1>>
             j == CASE ~whole -> Refused(s, e, <<"C04">>, "undemuxed-refused")
                    [] e.a.t = Video -> VideoJudge(s, e, [avc |-> m[1] = 7, seq |-> m[2] = 1, media |-> e.a.data])
                    [] e.a.t = Audio /\ m[3] = 10 -> AacJudge(s, e, [typ |-> m[4], media |-> e.a.data])
                    [] e.a.t = Audio /\ m[3] = 2 -> Mp3Judge(s, e, [media |-> e.a.data])
                    [] e.a.t = Audio -> Refused(s, e, <<"C04">>, "audio-codec-refused")
                    [] OTHER -> Refused(s, e, <<"C04">>, "kind-refused")
         IN [st |-> j.st, c |-> j.c \o Chk("C04", "nothing-written", e.r.out = <<>> \/ e.r.k = "ok" \/ whole)
                                \o Chk("C04", "packet-unchanged", e.r.same = 1)]
    [] OTHER -> [st |-> s, c |-> Chks(AllC, "known-op", FALSE)]

Init == pos = 1 /\ st = TInit /\ bad = <<>> /\ cov = <<>>

Step == /\ pos <= Len(Trace)
        /\ LET e == Trace[pos]
               j == Judge(st, e)
           IN /\ st' = j.st
              /\ bad' = AddBad(bad, e, j.c)
              /\ cov' = CountChecks(cov, j.c)
        /\ pos' = pos + 1

Done == /\ pos = Len(Trace) + 1
        /\ Report(pos - 1, bad, cov)
        /\ pos' = pos + 1
        /\ UNCHANGED <<st, bad, cov>>

Next == Step \/ Done
Spec == Init /\ [][Next]_<<pos, st, bad, cov>>
=============================================================================
