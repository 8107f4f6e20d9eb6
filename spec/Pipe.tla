-------------------------------- MODULE Pipe --------------------------------
(* A media server built from the library: a publisher, a GOP cache, and FLV   *)
(* and TS viewers that join at any time. A packet is demuxed once; the cache  *)
(* and all viewers share it.                                                  *)
(*                                                                            *)
(* What a viewer must receive is a sequence of items. An FLV viewer's items:  *)
(* <<"head", video tag, audio tag, metadata packet id>>, <<"tag", bytes>>; a  *)
(* TS viewer's: <<"tables", video, audio>>, <<"frame", video, conversion,     *)
(* key, dts, pts>>, and <<"loose", video>> where the output is unspecified.   *)
EXTENDS Ts
G == INSTANCE Gop WITH MaxGop <- 1024

Pub(t, d, ts) == [t |-> t, d |-> d, ts |-> ts]

\* what the cache takes a packet for
Kind(p) ==
  LET h == Demux(p.t, p.d) IN
  CASE p.t = Meta -> "md"
    [] p.t = Audio -> IF h.seq THEN "aseq" ELSE "other"
    [] h.seq -> "vseq"
    [] h.key -> "key"
    [] h.inter -> "inter"
    [] OTHER -> "other"

\* the server: the cache (of packet ids) and every packet published so far
PipeInit(cap) == [g |-> G!GopInit(cap), log |-> <<>>]
Publish(s, p) == LET log == Append(s.log, p) IN
                 [g |-> G!GopWrite(s.g, Kind(p), Len(log)), log |-> log]

Cached(s) == FlattenSeq(s.g.gops)

-----------------------------------------------------------------------------
(* FLV viewers                                                                *)
SetDataFrame == <<2, 0, 13, 64, 115, 101, 116, 68, 97, 116, 97, 70, 114, 97, 109, 101>>

\* a metadata payload: "open" if it does not start with a short string, else
\* without the @setDataFrame that RTMP puts in front
Script(d) ==
  IF Len(d) < 3 \/ d[1] # 2 THEN [k |-> IF d = <<>> \/ d[1] \in {0, 1, 3, 5, 6, 8, 10} THEN "bad" ELSE "open", d |-> <<>>]
  ELSE IF Len(d) < 3 + d[2] * 256 + d[3] THEN [k |-> "bad", d |-> <<>>]
  ELSE [k |-> "ok", d |-> IF IsPrefix(SetDataFrame, d) THEN Rest(d, Len(SetDataFrame)) ELSE d]

FlvLive(p) ==
  IF p.t # Meta THEN << <<"tag", Tag(p.t, p.d, p.ts)>> >>
  ELSE LET x == Script(p.d) IN
       CASE x.k = "ok" -> << <<"tag", Tag(Meta, x.d, p.ts)>> >>
         [] x.k = "bad" -> <<>>
         [] OTHER -> << <<"loose">> >>

HeadTag(s, id) == IF id = 0 THEN <<>> ELSE Tag(s.log[id].t, s.log[id].d, Zero)
FlvJoin(s) ==
  << <<"head", HeadTag(s, s.g.vs), HeadTag(s, s.g.as), s.g.md>> >>
  \o FlattenSeq([k \in DOMAIN Cached(s) |-> FlvLive(s.log[Cached(s)[k]])])

-----------------------------------------------------------------------------
(* TS viewers. State: the parser, the streams whose header was accepted ("?"  *)
(* if that is unspecified), and the audio clock.                              *)
TsNew == [c |-> CodecInit, v |-> FALSE, a |-> FALSE, clk |-> NoClock, sure |-> TRUE]

Signed(n) == IF n < 0 THEN Minus(<<0, 0, 0>>, Small(0 - n)) ELSE Small(n)

TsHeader(w, p) ==
  LET x == Convert(w.c, p.t, p.d) IN
  [w EXCEPT !.c = x.c,
            !.v = @ \/ (p.t = Video /\ x.k \in {"none", "open"}), !.a = @ \/ (p.t = Audio /\ x.k \in {"none", "open"}),
            !.sure = @ /\ x.k # "open"]

\* <<state, items>>
TsLive(w, p) ==
  LET h == Demux(p.t, p.d)
      dts == Ms(p.ts)
      x == Convert(w.c, p.t, p.d)
      rate == IF w.c.aac.has THEN AacRate(w.c.aac) ELSE Mp3Rates[w.c.mp3.dev + 1]
      au == AudioTime(w.clk, dts, rate)
      t == IF p.t = Audio THEN au.t ELSE dts
      item == CASE x.k = "bad" -> <<>>
                [] x.k \in {"exact", "adts"} ->
                     << <<"frame", p.t = Video, x, p.t = Video /\ h.key, t,
                          IF p.t = Video THEN Plus(dts, Times(Signed(h.cts), 90)) ELSE t>> >>
                [] OTHER -> << <<"loose", p.t = Video>> >>
  IN IF p.t = Meta THEN <<w, <<>>>>
     ELSE IF h.seq THEN <<TsHeader(w, p), <<>>>>
     ELSE IF p.t = Audio
     THEN IF ~w.c.aac.has /\ ~w.c.mp3.has THEN <<w, <<>>>>            \* no clock yet
          ELSE << [w EXCEPT !.c = x.c, !.clk = au.c], item >>
     ELSE << [w EXCEPT !.c = x.c], item >>

TsJoin(s) ==
  LET h(w, id) == IF id = 0 THEN w ELSE TsHeader(w, s.log[id])
      w0 == h(h(TsNew, s.g.vs), s.g.as)
  IN FoldLeft(LAMBDA a, id : LET r == TsLive(a[1], s.log[id]) IN <<r[1], a[2] \o r[2]>>,
              <<w0, << <<"tables", w0.v, w0.a, w0.sure>> >>>>, Cached(s))
=============================================================================
