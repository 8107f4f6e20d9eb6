------------------------------ MODULE CodecMC -------------------------------
(* The codec parser as a state machine over a small alphabet of FLV packets,  *)
(* checked against statements of C01..C05 that do not use Codec's definitions *)
(* of the outputs, and the source of conformance behaviours.                  *)
EXTENDS Codec, TLC, Json

CONSTANTS Depth, Emit, Names      \* Names: the packets used

Nal(n) == U32(Len(n)) \o n
Avcc(ns) == FlattenSeq([k \in DOMAIN ns |-> Nal(ns[k])])
V(ft, typ, media) == [t |-> Video, d |-> <<ft * 16 + 7, typ, 0, 0, 0>> \o media]
A(typ, media) == [t |-> Audio, d |-> <<175, typ>> \o media]

Rec(sps, pps, extra) == <<1, 100, 0, 31, 255, 225>> \o <<0, Len(sps)>> \o sps
                        \o <<1>> \o <<0, Len(pps)>> \o pps \o extra

\* several sets; NAL unit lengths of ls bytes
RecN(ss, ps, ls, extra) ==
  <<1, 100, 0, 31, 251 + ls, 224 + Len(ss)>> \o FlattenSeq([k \in DOMAIN ss |-> <<0, Len(ss[k])>> \o ss[k]])
  \o <<Len(ps)>> \o FlattenSeq([k \in DOMAIN ps |-> <<0, Len(ps[k])>> \o ps[k]]) \o extra

Short(b) == SubSeq(b, 1, Len(b) - 1)

SpsA == <<103, 10, 1>>   PpsA == <<104, 11>>
SpsB == <<103, 20>>      PpsB == <<104, 21, 2, 3>>
SpsI == <<39, 30, 9>>    PpsI == <<40, 31>>
I1 == <<101, 1, 2>>  I2 == <<37, 3>>  S1 == <<65, 4, 5, 6>>  S2 == <<1, 7>>  E1 == <<6, 8>>  D == <<9, 240>>

Pkt(n) ==
  CASE n = "recA"  -> V(1, 0, Rec(SpsA, PpsA, <<>>))
    [] n = "recB"  -> V(1, 0, Rec(SpsB, PpsB, <<253, 248, 248, 0>>))
    [] n = "recX"  -> V(1, 0, SubSeq(Rec(SpsB, PpsB, <<>>), 1, 13))
    [] n = "recM"  -> V(1, 0, RecN(<<SpsB, SpsA>>, <<PpsA, PpsB, PpsA>>, 4, <<1, 2, 3, 4>>))
    [] n = "recMX" -> V(1, 0, Short(RecN(<<SpsB, SpsA>>, <<PpsA, PpsB>>, 4, <<>>)))
    [] n = "rec2"  -> V(1, 0, RecN(<<SpsB>>, <<PpsB>>, 2, <<>>))
    [] n = "idr2"  -> V(1, 1, <<0, 3>> \o I1 \o <<0, 2>> \o S2)
    [] n = "idr"   -> V(1, 1, Avcc(<<I1>>))
    [] n = "mix"   -> V(1, 1, Avcc(<<D, E1, S1, I1, I2, S2>>))
    [] n = "own"   -> V(1, 1, Avcc(<<SpsI, PpsI, I1, S2>>))
    [] n = "late"  -> V(1, 1, Avcc(<<E1, I2, SpsI, PpsI, I1>>))
    [] n = "p"     -> V(2, 1, Avcc(<<S1, S2>>))
    [] n = "sets"  -> V(2, 1, Avcc(<<SpsI, PpsI>>))
    [] n = "cut"   -> V(2, 1, SubSeq(Avcc(<<S1, SpsI, I1>>), 1, 12))
    [] n = "zero"  -> V(2, 1, Avcc(<<SpsI>>) \o <<0, 0, 0, 0>>)
    [] n = "type"  -> V(2, 1, Avcc(<<S1, <<12, 1>>>>))
    [] n = "annexb" -> V(1, 1, StartCode \o I1 \o StartCode \o <<12, 2>>)
    [] n = "hevc"  -> [t |-> Video, d |-> <<28, 1, 0, 0, 0, 0, 0, 0, 1, 101>>]
    [] n = "cfgA"  -> A(0, <<18, 16>>)
    [] n = "cfgB"  -> A(0, <<12, 8, 8, 0>>)
    [] n = "cfgX"  -> A(0, <<23, 144, 1, 2, 3>>)
    [] n = "cfgS"  -> A(0, <<18>>)
    [] n = "raw"   -> A(1, <<33, 16, 5>>)
    [] n = "raw0"  -> A(1, <<>>)
    [] n = "aac2"  -> A(2, <<18, 16>>)
    [] n = "mp3"   -> [t |-> Audio, d |-> <<47, 255, 251, 226>>]
    [] n = "mp3s"  -> [t |-> Audio, d |-> <<47, 255, 251>>]

AllNames == {"recA", "recB", "recX", "recM", "recMX", "rec2", "idr2", "idr", "mix", "own", "late", "p", "sets", "cut", "zero", "type", "annexb", "hevc",
             "cfgA", "cfgB", "cfgX", "cfgS", "raw", "raw0", "aac2", "mp3", "mp3s"}

VARIABLES c, h, ok, out
vars == <<c, h, ok, out>>

Init == c = CodecInit /\ h = <<>> /\ ok = TRUE /\ out = <<>>

Fail == ok' = FALSE /\ out' = <<>> /\ UNCHANGED c
Accept(c2, o) == ok' = TRUE /\ out' = o /\ c' = c2

\* the ADTS frame when every bit is defined (object type 1..4, channels <= 7)
Adts(cfg, f) ==
  LET n == Len(f) + 7 IN
  <<255, 241, (cfg.ot - 1) * 64 + cfg.fi * 4 + cfg.ch \div 4,
    (cfg.ch % 4) * 64 + n \div 2048, (n \div 8) % 256, (n % 8) * 32 + 31, 252>> \o f

Parse(n) ==
  LET p == Pkt(n)  x == Demux(p.t, p.d) IN
  IF ~x.ok THEN Fail
  ELSE IF p.t = Video
  THEN IF ~x.avc THEN Fail
       ELSE IF x.seq
       THEN LET q == AvcConfig(x.media) IN
            IF q.ok THEN Accept([c EXCEPT !.avc = q.avc], <<>>) ELSE Fail
       ELSE LET f == AvcFrame(c.avc, x.media) IN IF f.ok THEN Accept(c, f.out) ELSE Fail
  ELSE IF x.mp3
  THEN LET m == Mp3(x.media) IN
       IF m.ok THEN Accept([c EXCEPT !.mp3 = [has |-> TRUE, dev |-> m.dev, std |-> m.std]], <<>>) ELSE Fail
  ELSE IF x.typ = 0
  THEN LET q == AacConfig(x.media) IN IF q.ok THEN Accept([c EXCEPT !.aac = q.cfg], <<>>) ELSE Fail
  ELSE IF x.typ = 1 /\ c.aac.has /\ Len(x.media) \in 1 .. MaxAacFrame THEN Accept(c, Adts(c.aac, x.media))
  ELSE Fail

Next == /\ Len(h) < Depth
        /\ \E n \in Names : Parse(n) /\ h' = Append(h, n)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* reading Annex-B back: the units between start codes (no unit here contains one)
RECURSIVE Units(_, _, _)
Units(b, i, cur) ==
  IF i > Len(b) THEN <<cur>>
  ELSE IF i + 3 <= Len(b) /\ SubSeq(b, i, i + 3) = StartCode THEN <<cur>> \o Units(b, i + 4, <<>>)
  ELSE Units(b, i + 1, Append(cur, b[i]))
Read(b) == Tail(Units(b, 1, <<>>))

LastOf(S) == LET I == {k \in DOMAIN h : h[k] \in S} IN
             IF I = {} THEN "none" ELSE h[CHOOSE k \in I : \A j \in I : j <= k]
Now == IF h = <<>> THEN "none" ELSE Last(h)

Given == [idr |-> <<I1>>, mix |-> <<D, E1, S1, I1, I2, S2>>, own |-> <<SpsI, PpsI, I1, S2>>,
          late |-> <<E1, I2, SpsI, PpsI, I1>>, idr2 |-> <<I1, S2>>, p |-> <<S1, S2>>, sets |-> <<SpsI, PpsI>>]

Pics == {I1, I2, S1, S2, E1}
Record == LastOf({"recA", "recB", "recM", "rec2"})
SetsSeen == CASE Record = "recA" -> <<SpsA, PpsA>>
              [] Record \in {"recB", "rec2"} -> <<SpsB, PpsB>>
              [] Record = "recM" -> <<SpsB, SpsA, PpsA, PpsB, PpsA>>
              [] OTHER -> <<>>

\* C01: pictures unchanged and in order behind one delimiter; the parameter
\* sets just before the first IDR: the packet's own if it has them earlier
Fits == (Now = "idr2") = (Record = "rec2")          \* lengths as the record in force says
AnnexBOut == (Now \in DOMAIN Given /\ ~Fits) => ~ok
AnnexBIn == (Now \in DOMAIN Given /\ Fits) =>
  LET u == Read(out)  g == Given[Now]
      sets == SelectSeq(u, LAMBDA n : n \notin Pics /\ n # D)
      at   == SelectInSeq(u, LAMBDA n : n \in {I1, I2})
  IN /\ ok
     /\ u[1] = D /\ Len(SelectSeq(u, LAMBDA n : n = D)) = 1
     /\ SelectSeq(u, LAMBDA n : n \in Pics) = SelectSeq(g, LAMBDA n : n \in Pics)
     /\ sets = (IF at = 0 THEN <<>> ELSE IF Now = "own" THEN <<SpsI, PpsI>> ELSE SetsSeen)
     /\ at # 0 => SubSeq(u, at - Len(sets), at - 1) = sets

\* C02, C03, C04: what is refused, and that it leaves no trace
Refusals == /\ Now \in {"recX", "recMX", "cut", "zero", "type", "hevc", "cfgX", "cfgS", "raw0", "aac2", "mp3s"} => ~ok
            /\ (Now = "raw" /\ LastOf({"cfgA", "cfgB"}) = "none") => ~ok
            /\ ~ok => out = <<>>
NoTrace == [][~ok' => UNCHANGED c]_vars

\* C03
AdtsOut == (Now = "raw" /\ ok) =>
  LET x == AdtsHeader(out) IN
  /\ IsAdts(c.aac, <<33, 16, 5>>, out)
  /\ x.len = 10
  /\ <<x.profile, x.fi, x.ch>> = (IF LastOf({"cfgA", "cfgB"}) = "cfgA" THEN <<1, 4, 2>> ELSE <<0, 8, 1>>)

\* C05
Rates == /\ c.aac.has = (LastOf({"cfgA", "cfgB"}) # "none")
         /\ LastOf({"cfgA", "cfgB"}) = "cfgA" => AacRate(c.aac) = 44100
         /\ LastOf({"cfgA", "cfgB"}) = "cfgB" => AacRate(c.aac) = 16000
         /\ c.mp3.has = (LastOf({"mp3"}) # "none")

EmitBehaviour == (Emit /\ Len(h) = Depth) => PrintT("@@" \o ToJson(h))
\* the alphabet itself, once
EmitPackets == (Emit /\ h = <<>>) => PrintT("@@" \o ToJson([n \in AllNames |-> Pkt(n)]))
=============================================================================
