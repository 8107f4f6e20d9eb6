------------------------------ MODULE TraceTs -------------------------------
(* Recorded transport stream muxer and mixer histories, read back and checked *)
(* against module Ts.                                                         *)
EXTENDS TraceLib
T == INSTANCE Ts

VARIABLES pos, st, bad, cov

\* counters: the values the next packet of each PID may carry
AnyCc == 0 .. 15
Counters == [p \in {T!VideoPID, T!AudioPID, T!SdtPID, T!PatPID, T!PmtPID} |-> AnyCc]

TInit == [c |-> T!CodecInit,                    \* the mixer's parser
          v |-> FALSE, a |-> FALSE,             \* streams whose sequence header is cached
          desc |-> <<>>,                        \* the service descriptor
          dd |-> <<>>,                          \* descriptors collected in one buffer
          clk |-> T!NoClock,
          now |-> TRUE, dts |-> T!Zero, pts |-> T!Zero,
          mx |-> Counters, mu |-> Counters]

Quiet(s) == [st |-> s, c |-> <<>>]

-----------------------------------------------------------------------------
(* Continuity counters                                                        *)
Follow(S, ps) == FoldLeft(LAMBDA a, p : [ok |-> a.ok /\ p.cc \in a.s, s |-> {(p.cc + 1) % 16}], [ok |-> TRUE, s |-> S], ps)
\* a failed write may skip one value
Slack(S) == S \cup {(k + 1) % 16 : k \in S}

-----------------------------------------------------------------------------
(* A frame: w is "mx" (mixer) or "mu" (muxer)                                  *)
Cc(s, w, pid) == IF w = "mx" THEN s.mx[pid] ELSE s.mu[pid]
WithCc(s, w, pid, S) == IF w = "mx" THEN [s EXCEPT !.mx[pid] = S] ELSE [s EXCEPT !.mu[pid] = S]

First(p, key, dts) ==
  IF key THEN p.rai /\ p.pcr /\ p.base = T!Mod33(dts) /\ p.ext = 0 /\ p.res = 63 ELSE ~p.rai /\ ~p.pcr

\* v: what the elementary stream must be (module Codec, Convert)
Whole(s, e, w, video, v, key, dts, pts) ==
  LET pid == IF video THEN T!VideoPID ELSE T!AudioPID
      out == e.r.out
      whole == out # <<>> /\ \A k \in DOMAIN out : T!IsWhole(out[k])
  IN IF ~whole THEN [st |-> WithCc(s, w, pid, AnyCc), c |-> Chk("T01", "whole-packets", FALSE)]
     ELSE
     LET ps   == [k \in DOMAIN out |-> T!Packet(out[k])]
         body == T!Joined(ps)
         n    == T!HeaderLen(video, dts, pts) + v.n
         pad  == 176 - n
         short == /\ key /\ pad > 0 /\ v.k # "any" /\ Len(ps) = 1 /\ Len(body) = 176 /\ ps[1].al = 7
                  /\ SubSeq(body, 1, pad) = T!StuffField(pad)
         pes  == IF short THEN T!Rest(body, pad) ELSE body
         h    == T!Pes(pes)
         cc   == Follow(Cc(s, w, pid), ps)
         again == IF e.a.n # 0 THEN <<"T01", "T07">> ELSE <<"T01">>
     IN [st |-> WithCc(s, w, pid, cc.s),
         c |-> Chk("T01", "whole-packets", \A k \in DOMAIN ps : T!HeadOk(ps[k], pid) /\ T!FieldOk(ps[k]))
               \o Chk("T01", "start-flag", \A k \in DOMAIN ps : ps[k].pusi = (k = 1))
               \o (IF v.k = "any" THEN <<>> ELSE Chks(again, "payload", h.ok /\ T!IsForm(v, T!Rest(pes, h.n))))
               \o (IF short THEN Known("T01", "ts-short-key-stuffing") ELSE <<>>)
               \o Chk("T02", IF video THEN "video" ELSE "audio", cc.ok)
               \o Chk("T03", "header", h.ok /\ T!PesHeaderOk(h, Len(pes), video, dts, pts))
               \o (IF w = "mu" THEN Chk("T03", "timestamps", h.ok /\ T!PesTimesOk(h, video, dts, pts))
                   ELSE Chk("T06", IF video THEN "video-time" ELSE "audio-time", h.ok /\ T!PesTimesOk(h, video, dts, pts)))
               \o Chk("T04", IF key THEN "key-frame" ELSE "not-key", First(ps[1], key, dts))
               \o Chk("T04", "nowhere-else", \A k \in 2 .. Len(ps) : ~ps[k].rai /\ ~ps[k].pcr)]

\* the output refused bytes somewhere
Partial(s, e, w, video, v, key, dts, pts) ==
  LET pid == IF video THEN T!VideoPID ELSE T!AudioPID
      out == SelectSeq(e.r.out, T!IsWhole)
      ps  == [k \in DOMAIN out |-> T!Packet(out[k])]
      body == T!Joined(ps)
      h   == T!Pes(body)
      cc  == Follow(Cc(s, w, pid), ps)
      full == T!HeaderLen(video, dts, pts) + v.n
  IN [st |-> WithCc(s, w, pid, Slack(cc.s)),
      c |-> Chk("T01", "write-failure-reported", e.r.k = "err")
            \o (IF out = <<>> \/ v.k # "exact" THEN <<>>
                ELSE Chk("T01", "prefix-on-failure",
                         /\ \A k \in DOMAIN ps : /\ T!HeadOk(ps[k], pid) /\ T!FieldOk(ps[k]) /\ ps[k].pusi = (k = 1)
                         /\ h.ok /\ Len(body) <= full
                         /\ IsPrefix(T!Rest(body, h.n), v.es)))
            \o Chk("T02", "after-failure", cc.ok)]

Frame(s, e, w, video, v, key, dts, pts) ==
  LET n == T!HeaderLen(video, dts, pts) + v.n
      cut == e.a.fail >= 0 /\ (e.r.k = "err" \/ e.a.fail < T!PacketLen * T!Packets(n, key))
  IN IF cut THEN Partial(s, e, w, video, v, key, dts, pts)
     ELSE IF e.r.k # "ok" THEN [st |-> s, c |-> Chks(<<"T01", "T03", "T04">>, "accepted", FALSE)]
     ELSE Whole(s, e, w, video, v, key, dts, pts)

\* the clocks are unspecified: only the counters are judged
Untimed(s, e, w, video) ==
  LET pid == IF video THEN T!VideoPID ELSE T!AudioPID
      out == SelectSeq(e.r.out, T!IsWhole)
      cc == Follow(Cc(s, w, pid), [k \in DOMAIN out |-> T!Packet(out[k])])
  IN [st |-> WithCc(s, w, pid, IF e.r.k = "ok" THEN cc.s ELSE Slack(cc.s)), c |-> Chk("T02", IF video THEN "video" ELSE "audio", cc.ok)]

MuxJudge(s, e) ==
  LET v == T!Convert(s.c, e.a.t, e.a.data)
      s2 == [s EXCEPT !.c = v.c]
      video == e.a.t = T!Video
      same == Chk("T07", "packet-unchanged", e.r.same = 1)
      h == T!Demux(e.a.t, e.a.data)
      j == IF v.k = "bad" THEN [st |-> s2, c |-> Chk("T02", "rejected-writes-nothing", e.r.k = "err" /\ e.r.out = <<>>)]
           ELSE IF v.k = "open" \/ ~s.now THEN Untimed(s2, e, "mx", video)
           ELSE Frame(s2, e, "mx", video, v, video /\ h.key, s.dts, s.pts)
  IN [st |-> j.st, c |-> j.c \o same]

MMuxJudge(s, e) ==
  LET t == e.a.t IN
  IF t \notin {T!Video, T!Audio} THEN [st |-> s, c |-> Chk("T02", "kind-refused", e.r.k = "err" /\ e.r.out = <<>>)]
  ELSE Frame(s, e, "mu", t = T!Video, [k |-> "exact", n |-> Len(e.a.data), es |-> e.a.data],
             t = T!Video /\ e.a.key = 1, T!Low3(e.a.dts), T!Low3(e.a.pts))

SaveJudge(s, e) ==
  LET t == IF e.a.op = "avch" THEN T!Video ELSE T!Audio
      v == T!Convert(s.c, t, e.a.data)
      okay == IF v.k = "open" THEN e.r.k = "ok" ELSE v.k # "bad"
  IN [st |-> IF okay THEN (IF t = T!Video THEN [s EXCEPT !.c = v.c, !.v = TRUE] ELSE [s EXCEPT !.c = v.c, !.a = TRUE])
             ELSE [s EXCEPT !.c = v.c],
      c |-> Chk("T05", IF okay THEN "header-cached" ELSE "bad-header-refused", (e.r.k = "ok") = okay)
            \o Chk("T02", "caching-writes-nothing", e.r.out = <<>>)
            \o Chk("T07", "packet-unchanged", e.r.core = 1)
            \o (IF e.r.same = 0 /\ e.r.core = 1 THEN Known("T07", "ts-save-header-media") ELSE <<>>)]

-----------------------------------------------------------------------------
(* Metadata and tables                                                        *)
Undefined == <<117, 110, 100, 101, 102, 105, 110, 101, 100>>
MdJudge(s, e) ==
  LET prov == IF e.a.has[1] = 1 THEN e.a.s1 ELSE Undefined
      serv == IF e.a.has[2] = 1 THEN e.a.s2 ELSE Undefined
      fits == 5 + Len(prov) + Len(serv) <= T!MaxDesc
  IN [st |-> IF fits THEN [s EXCEPT !.desc = T!ServiceDesc(1, prov, serv)] ELSE s,
      c |-> Chk("T05", IF fits THEN "names-accepted" ELSE "long-names-refused", (e.r.k = "ok") = fits)]

PmtChecks(x, v, a) ==
  Chk("T05", "pmt", T!PmtOk(x, v, a))
  \o (IF ~v \/ ~x.ok \/ Len(x.body) < 4 THEN <<>>
      ELSE IF a /\ T!PcrPid(x) = T!AudioPID THEN Known("T05", "ts-pcr-pid")
      ELSE Chk("T05", "pcr-pid", T!PcrPid(x) = T!VideoPID))

TableChecks(x, s) ==
  IF ~x.ok THEN Chk("T05", "section", FALSE)
  ELSE CASE x.pid = T!SdtPID -> Chk("T05", "sdt", T!SdtOk(x, s.desc))
         [] x.pid = T!PatPID -> Chk("T05", "pat", T!PatOk(x))
         [] x.pid = T!PmtPID -> PmtChecks(x, s.v, s.a)
         [] OTHER -> Chk("T05", "table-pid", FALSE)

Tables == {T!SdtPID, T!PatPID, T!PmtPID}

HdrJudge(s, e) ==
  LET out == e.r.out
      good == SelectSeq(out, T!IsWhole)
      xs == [k \in DOMAIN good |-> T!Section(good[k])]
      oks == SelectSeq(xs, LAMBDA x : x.ok /\ x.pid \in Tables)
      On(p) == SelectSeq(oks, LAMBDA x : x.pid = p)
      runs == [p \in Tables |-> Follow(s.mx[p], On(p))]
      cut == e.a.fail >= 0 /\ e.a.fail < 3 * T!PacketLen
      left(p) == IF On(p) # <<>> THEN runs[p].s ELSE IF cut THEN Slack(s.mx[p]) ELSE AnyCc
      s2 == [s EXCEPT !.mx = [p \in DOMAIN s.mx |-> IF p \in Tables THEN left(p) ELSE s.mx[p]]]
      content == FoldLeft(LAMBDA a, x : a \o TableChecks(x, s), <<>>, xs)
  IN [st |-> s2,
      c |-> content
            \o Chk("T02", "tables", \A p \in Tables : runs[p].ok)
            \o (IF cut THEN Chk("T05", "write-failure-reported", e.r.k = "err")
                ELSE Chk("T05", "each-table-once", /\ e.r.k = "ok" /\ Len(out) = 3 /\ Len(oks) = 3
                                                   /\ \A p \in Tables : Len(On(p)) = 1))]

\* a table straight from the muxer
OneTable(s, e, pid, content(_)) ==
  LET x == IF Len(e.r.out) = 1 THEN T!Section(e.r.out[1]) ELSE [ok |-> FALSE] IN
  IF ~x.ok \/ x.pid # pid THEN [st |-> [s EXCEPT !.mu[pid] = AnyCc], c |-> Chk("T05", "section", FALSE)]
  ELSE LET run == Follow(s.mu[pid], <<x>>) IN
       [st |-> [s EXCEPT !.mu[pid] = run.s], c |-> content(x) \o Chk("T02", "tables", run.ok)]

SdtJudge(s, e) ==
  LET d == T!ServiceDesc(e.a.num, e.a.s1, e.a.s2)
      fits == 3 + Len(e.a.s1) + Len(e.a.s2) <= 255
  IN IF ~fits THEN [st |-> s, c |-> Chk("T05", "long-names-refused", e.r.k = "err")]
     ELSE IF e.r.k # "ok" THEN [st |-> s, c |-> Chk("T05", "names-accepted", FALSE)]
     ELSE OneTable(s, e, T!SdtPID, LAMBDA x : Chk("T05", "sdt", T!SdtOk(x, d)))

PmtJudge(s, e) ==
  OneTable(s, e, T!PmtPID, LAMBDA x : LET m == ToSet(e.a.mt)  v == T!Video \in m  a == T!Audio \in m IN
                                      Chk("T05", "pmt", T!PmtOk(x, v, a)))

\* a descriptor, after those already in its buffer
DescJudge(e, before) ==
  CASE e.a.fn = "service" ->
         LET fits == 3 + Len(e.a.s1) + Len(e.a.s2) <= 255 IN
         Chk("T05", "service-descriptor", IF fits THEN e.r.k = "ok" /\ e.r.desc = before \o T!ServiceDesc(e.a.num, e.a.s1, e.a.s2)
                                          ELSE e.r.k = "err" /\ e.r.desc = before)
    [] e.a.fn = "network" ->
         LET fits == Len(e.a.s1) <= 255 IN
         Chk("T05", "network-descriptor", IF fits THEN e.r.k = "ok" /\ e.r.desc = before \o T!NetworkDesc(e.a.s1)
                                          ELSE e.r.k = "err" /\ e.r.desc = before)
    [] e.a.fn = "country" ->
         LET d == T!Rest(e.r.desc, Len(before))
             kept == IsPrefix(before, e.r.desc)
         IN IF e.r.k = "ok" /\ kept /\ d = T!CountryDescAsBuilt(e.a.key, e.a.num) THEN Known("T05", "ts-country-descriptor")
            ELSE Chk("T05", "country-descriptor", e.r.k = "ok" /\ kept /\ T!IsCountryDesc(d, e.a.key, e.a.num))

\* a table with whatever the buffer holds
CollectedJudge(s, e) ==
  OneTable(s, e, T!SdtPID, LAMBDA x : Chk("T05", "sdt", T!SdtOk(x, s.dd) /\ e.r.desc = s.dd))

\* the same calls over and over, of which each PID's counters are told
LifeJudge(s, e) ==
  LET mx == 20 \in ToSet(e.a.mt)
      old == IF mx THEN s.mx ELSE s.mu
      pids == {r.pid : r \in ToSet(e.r.runs)}
      Of(p) == CHOOSE r \in ToSet(e.r.runs) : r.pid = p
      due == IF mx THEN Tables ELSE {CASE x = 0 -> T!VideoPID [] x = 1 -> T!AudioPID [] x = 10 -> T!PatPID [] x = 11 -> T!PmtPID [] x = 12 -> T!SdtPID
                                       : x \in ToSet(e.a.mt)}
      new == [p \in DOMAIN old |-> IF p \in pids THEN {(Of(p).last + 1) % 16} ELSE old[p]]
      fits(p) == LET r == Of(p) IN r.first \in old[p] /\ r.jumps = 0 /\ (r.first + r.n + 15) % 16 = r.last
  IN IF e.r.k # "ok" \/ e.r.whole # 1 \/ pids # due THEN [st |-> s, c |-> Chk("T02", "long-life", FALSE)]
     ELSE [st |-> IF mx THEN [s EXCEPT !.mx = new] ELSE [s EXCEPT !.mu = new], c |-> Chk("T02", "long-life", \A p \in pids : fits(p))]

-----------------------------------------------------------------------------
(* Clocks                                                                     *)
UpdJudge(s, e) ==
  LET dts == T!Ms(e.a.ts) IN
  IF e.a.t = T!Video
  THEN [st |-> [s EXCEPT !.now = TRUE, !.dts = dts, !.pts = T!Plus(dts, T!Times(T!Signed32(e.a.cts), 90))],
        c |-> Chk("T06", "updated", e.r.k = "ok")]
  ELSE LET has == s.c.aac.has \/ s.c.mp3.has
           rate == IF s.c.aac.has THEN T!AacRate(s.c.aac) ELSE T!Mp3Rates[s.c.mp3.dev + 1]
           j == T!AudioTime(s.clk, dts, rate)
       IN IF ~has THEN [st |-> [s EXCEPT !.now = FALSE], c |-> Chk("T06", "no-rate-no-clock", e.r.k = "err")]
          ELSE [st |-> [s EXCEPT !.now = TRUE, !.dts = j.t, !.pts = j.t, !.clk = j.c],
                c |-> Chk("T06", "updated", e.r.k = "ok")]

Judge(s, e) ==
  LET op == e.a.op IN
  IF Dead(e) THEN [st |-> s, c |-> Chks(CASE op \in {"mux", "mmux"} -> <<"T01", "T02", "T03", "T04", "T06", "T07">>
                                          [] op \in {"avch", "aach"} -> <<"T05", "T07">>
                                          [] op = "upd" -> <<"T06">>
                                          [] OTHER -> <<"T02", "T05">>, "returns", FALSE)]
  ELSE IF e.r.k = "skip" THEN Quiet(s)
  ELSE CASE op = "new" -> Quiet(TInit)
         [] op = "mux" -> MuxJudge(s, e)
         [] op = "mmux" -> LET j == MMuxJudge(s, e) IN [j EXCEPT !.c = @ \o Chk("T07", "media-unchanged", e.r.same = 1)]
         [] op \in {"avch", "aach"} -> SaveJudge(s, e)
         [] op = "md" -> MdJudge(s, e)
         [] op = "life" -> LifeJudge(s, e)
         [] op = "hdr" -> HdrJudge(s, e)
         [] op = "upd" -> UpdJudge(s, e)
         [] op = "sdt" -> SdtJudge(s, e)
         [] op = "pat" -> OneTable(s, e, T!PatPID, LAMBDA x : Chk("T05", "pat", T!PatOk(x)))
         [] op = "pmt" -> PmtJudge(s, e)
         [] op = "desc" -> [st |-> s, c |-> DescJudge(e, <<>>)]
         [] op = "dadd" -> [st |-> [s EXCEPT !.dd = e.r.desc], c |-> DescJudge(e, s.dd)]
         [] op = "dsdt" -> CollectedJudge(s, e)
         [] op = "crc" -> [st |-> s, c |-> Chk("T05", "crc", <<e.r.hi, e.r.lo>> = T!Crc(e.a.data))]
         [] OTHER -> [st |-> s, c |-> Chk(Pid, "known-op", FALSE)]

Init == pos = 1 /\ st = TInit /\ bad = <<>> /\ cov = <<>>

Step == /\ pos <= Len(Trace)
        /\ LET e == Trace[pos]
               j == Judge(st, e)
           IN /\ st' = j.st
              /\ bad' = AddBad(bad, e, j.c)
              /\ cov' = CountChecks(cov, j.c)
        /\ pos' = pos + 1

Done == /\ pos = Len(Trace) + 1
        /\ Report(pos - 1, bad, cov)
        /\ pos' = pos + 1
        /\ UNCHANGED <<st, bad, cov>>

Next == Step \/ Done
Spec == Init /\ [][Next]_<<pos, st, bad, cov>>
=============================================================================
