------------------------------- MODULE Codec --------------------------------
(* What turns demuxed FLV media into elementary streams: AVC to Annex-B, AAC  *)
(* to ADTS, MP3 (sample rate only).                                           *)
(*                                                                            *)
(* State: the parameter sets and the size of NAL unit lengths of the latest   *)
(* accepted AVC configuration, the latest accepted AAC configuration, the     *)
(* rate of the latest MP3 packet.                                             *)
EXTENDS Flv

StartCode == <<0, 0, 0, 1>>
Delimiter == <<0, 0, 0, 1, 9, 240>>

NoAvc == [has |-> FALSE, unk |-> FALSE, sets |-> <<>>, ls |-> 4]
NoAac == [has |-> FALSE, ot |-> 0, fi |-> 0, ch |-> 0]
NoMp3 == [has |-> FALSE, dev |-> 0, std |-> 0]

CodecInit == [avc |-> NoAvc, aac |-> NoAac, mp3 |-> NoMp3]

-----------------------------------------------------------------------------
(* AVC                                                                        *)

\* AVCDecoderConfigurationRecord: the size of the NAL unit lengths, the SPS, the
\* PPS. n sets, each behind a two-byte length that is not zero:
RECURSIVE Sets(_, _, _)
Sets(n, b, acc) ==
  IF n = 0 THEN [ok |-> TRUE, sets |-> acc, rest |-> b]
  ELSE IF Len(b) < 2 THEN [ok |-> FALSE]
  ELSE LET len == b[1] * 256 + b[2] IN
       IF len = 0 \/ Len(b) < 2 + len THEN [ok |-> FALSE]
       ELSE Sets(n - 1, Rest(b, 2 + len), Append(acc, SubSeq(b, 3, 2 + len)))

\* usual: version 1 with at least one SPS and one PPS; others are left open
AvcConfig(b) ==
  IF Len(b) < 9 THEN [ok |-> FALSE]
  ELSE LET s == Sets(b[6] % 32, Rest(b, 6), <<>>) IN
       IF ~s.ok \/ s.rest = <<>> THEN [ok |-> FALSE]
       ELSE LET p == Sets(s.rest[1], Tail(s.rest), <<>>) IN
            IF ~p.ok THEN [ok |-> FALSE]
            ELSE [ok |-> TRUE,
                  usual |-> b[1] = 1 /\ s.sets # <<>> /\ p.sets # <<>>,
                  avc |-> [has |-> TRUE, unk |-> FALSE, sets |-> s.sets \o p.sets, ls |-> (b[5] % 4) + 1]]

\* cutting an access unit into NAL units, each behind its length in ls bytes
RECURSIVE Nals(_, _, _, _)
Nals(ls, b, i, acc) ==
  IF i = Len(b) + 1 THEN [ok |-> TRUE, nals |-> acc]
  ELSE IF Len(b) - i + 1 < ls THEN [ok |-> FALSE, nals |-> acc]
  ELSE IF ls = 4 /\ b[i] >= 64 THEN [ok |-> FALSE, nals |-> acc]     \* longer than any test input
  ELSE LET n == FoldLeft(LAMBDA x, y : x * 256 + y, 0, SubSeq(b, i, i + ls - 1)) IN
       IF n = 0 \/ Len(b) - i - ls + 1 < n THEN [ok |-> FALSE, nals |-> acc]
       ELSE Nals(ls, b, i + ls + n, Append(acc, SubSeq(b, i + ls, i + ls - 1 + n)))

NalType(n) == n[1] % 32
Slice == 1   Idr == 5   Sei == 6   Sps == 7   Pps == 8   Aud == 9

AnnexB(nals) == FoldLeft(LAMBDA a, n : a \o StartCode \o n, <<>>, nals)

IsAnnexB(b) == Len(b) >= 4 /\ SubSeq(b, 1, 4) = StartCode

AvcFrame(cfg, b) ==
  IF b = <<>> THEN [ok |-> FALSE]
  ELSE IF IsAnnexB(b) THEN [ok |-> TRUE, out |-> b, idr |-> FALSE, sets |-> FALSE]
  ELSE LET c == Nals(cfg.ls, b, 1, <<>>) IN
       IF ~c.ok \/ \E k \in DOMAIN c.nals : NalType(c.nals[k]) \notin {Slice, Idr, Sei, Sps, Pps, Aud}
       THEN [ok |-> FALSE]
       ELSE LET firstIdr == SelectInSeq(c.nals, LAMBDA n : NalType(n) = Idr)
                upto   == IF firstIdr = 0 THEN <<>> ELSE SubSeq(c.nals, 1, firstIdr - 1)
                after  == IF firstIdr = 0 THEN c.nals ELSE Rest(c.nals, firstIdr - 1)
                isPic(n) == NalType(n) \in {Slice, Idr, Sei}
                inband == SelectSeq(upto, LAMBDA n : NalType(n) \in {Sps, Pps})
                sets   == IF inband # <<>> THEN inband
                          ELSE cfg.sets
            IN [ok |-> TRUE,
                idr |-> firstIdr # 0,
                sets |-> firstIdr # 0 /\ inband = <<>>,      \* uses the cached parameter sets
                out |-> Delimiter
                        \o AnnexB(SelectSeq(upto, isPic))
                        \o (IF firstIdr = 0 THEN <<>> ELSE AnnexB(sets))
                        \o AnnexB(SelectSeq(after, isPic))]

-----------------------------------------------------------------------------
(* AAC                                                                        *)
AacConfig(b) ==
  IF Len(b) < 2 THEN [ok |-> FALSE]
  ELSE LET fi == (b[1] % 8) * 2 + b[2] \div 128
       IN IF fi = 15 THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, cfg |-> [has |-> TRUE, ot |-> b[1] \div 8, fi |-> fi, ch |-> (b[2] \div 8) % 16]]

MaxAacFrame == 8191 - 7

AacRates == <<96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350>>
AacRate(cfg) == IF cfg.fi < Len(AacRates) THEN AacRates[cfg.fi + 1] ELSE 44100

\* Is o the ADTS form of frame f under cfg? Object types ADTS has no profile
\* for (0 and above 4) and channel configurations above 7 leave those bits open.
AdtsHeader(h) ==
  [sync |-> h[1] = 255 /\ h[2] \div 16 = 15,
   layer |-> (h[2] \div 2) % 4, noCrc |-> h[2] % 2 = 1,
   profile |-> h[3] \div 64, fi |-> (h[3] \div 4) % 16,
   ch |-> (h[3] % 2) * 4 + h[4] \div 64, priv |-> (h[3] \div 2) % 2,
   len |-> (h[4] % 4) * 2048 + h[5] * 8 + h[6] \div 32,
   blocks |-> h[7] % 4]

IsAdts(cfg, f, o) ==
  /\ Len(o) = Len(f) + 7
  /\ Rest(o, 7) = f
  /\ LET a == AdtsHeader(o) IN
     /\ a.sync /\ a.layer = 0 /\ a.noCrc /\ a.blocks = 0
     /\ a.len = Len(f) + 7
     /\ a.fi = cfg.fi
     /\ cfg.ot \in 1 .. 4 => a.profile = cfg.ot - 1
     /\ cfg.ch \in 0 .. 7 => a.ch = cfg.ch /\ a.priv = 0

-----------------------------------------------------------------------------
(* MP3: the implementation takes the sampling rate from bits 2..1 of the third *)
(* byte (known finding mp3-rate-bits); the standard has it in bits 3..2.       *)
Mp3Rates == <<44100, 48000, 32000>>

Mp3(b) == IF Len(b) < 3 THEN [ok |-> FALSE, known |-> FALSE]
          ELSE LET dev == (b[3] \div 2) % 4  std == (b[3] \div 4) % 4
               IN [ok |-> TRUE, dev |-> dev, std |-> std]
-----------------------------------------------------------------------------
(* One demuxed packet through the parser. k: "bad" refused, "none" accepted    *)
(* with nothing written (a sequence header), "exact" / "adts" a frame of n     *)
(* bytes, "any" accepted with unspecified output, "open" unspecified.          *)
Same(c, k) == [k |-> k, c |-> c, n |-> 0, es |-> <<>>]

Convert(c, t, d) ==
  LET h == Demux(t, d) IN
  IF ~h.ok \/ t \notin {Video, Audio} THEN Same(c, "bad")
  ELSE IF t = Video
  THEN IF ~h.avc THEN Same(c, "bad")
       ELSE IF h.seq
       THEN LET q == AvcConfig(h.media) IN
            IF ~q.ok THEN Same(c, "bad")
            ELSE IF q.usual THEN Same([c EXCEPT !.avc = q.avc], "none")
            ELSE Same([c EXCEPT !.avc.unk = TRUE], "open")
       ELSE LET f == AvcFrame(c.avc, h.media) IN
            IF c.avc.unk /\ h.media # <<>> /\ ~IsAnnexB(h.media) THEN Same(c, "open")
            ELSE IF ~f.ok THEN Same(c, "bad")
            ELSE [k |-> "exact", c |-> c, n |-> Len(f.out), es |-> f.out]
  ELSE IF h.mp3
  THEN LET m == Mp3(h.media) IN
       IF ~m.ok \/ (m.dev = 3 /\ m.std = 3) THEN Same(c, "bad")
       ELSE IF m.dev = 3 \/ m.std = 3 THEN Same(c, "open")
       ELSE Same([c EXCEPT !.mp3 = [has |-> TRUE, dev |-> m.dev, std |-> m.std]], "any")
  ELSE IF h.typ = 0
  THEN LET q == AacConfig(h.media) IN IF q.ok THEN Same([c EXCEPT !.aac = q.cfg], "none") ELSE Same(c, "bad")
  ELSE IF h.typ = 1 /\ c.aac.has /\ Len(h.media) \in 1 .. MaxAacFrame
  THEN [k |-> "adts", c |-> c, n |-> Len(h.media) + 7, es |-> h.media]
  ELSE Same(c, "bad")

\* is o what v stands for?
IsForm(v, o) == CASE v.k = "none"  -> o = <<>>
                  [] v.k = "exact" -> o = v.es
                  [] v.k = "adts"  -> IsAdts(v.c.aac, v.es, o)
                  [] OTHER -> TRUE
=============================================================================
