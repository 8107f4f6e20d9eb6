--------------------------------- MODULE Ts ---------------------------------
(* MPEG transport streams: packets, PES packets, program tables, and the      *)
(* clocks of the mixer. Mostly a demultiplexer: what a muxer writes is judged *)
(* by reading it back.                                                        *)
EXTENDS Codec, Bitwise, FiniteSets

VideoPID == 256   AudioPID == 257   SdtPID == 17   PatPID == 0   PmtPID == 4097
PacketLen == 188

-----------------------------------------------------------------------------
(* Integers beyond 32 bits: triples in base 2^15, most significant first.     *)
B15 == 32768
Norm(t) == LET m == t[2] + (t[3] \div B15)
           IN <<t[1] + (m \div B15), m % B15, t[3] % B15>>
Plus(a, b) == Norm(<<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>)
Minus(a, b) == Norm(<<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>)
Times(t, n) == Norm(<<t[1] * n, t[2] * n, t[3] * n>>)        \* n < 2^15
Small(n) == Norm(<<0, 0, n>>)                                 \* n < 2^31
Mod33(t) == <<t[1] % 8, t[2], t[3]>>
\* a 32-bit pattern (limbs of 2, 15 and 15 bits) as a signed number
Signed32(l) == IF l[1] >= 2 THEN <<l[1] - 4, l[2], l[3]>> ELSE l
\* the last three limbs of a longer number, enough modulo 2^33
Low3(l) == SubSeq(l, Len(l) - 2, Len(l))
AtMost(t, n) == t[1] = 0 /\ t[2] = 0 /\ t[3] <= n              \* 0 <= t <= n < 2^15

-----------------------------------------------------------------------------
(* Transport packets                                                          *)
Packet(b) ==
  LET afc   == (b[4] \div 16) % 4
      al    == IF afc >= 2 THEN b[5] ELSE 0
      flags == IF afc >= 2 /\ al > 0 THEN b[6] ELSE 0
      pcr   == Bit(flags, 4) = 1
  IN [sync |-> b[1] = 71, err |-> b[2] \div 128, pusi |-> Bit(b[2], 6) = 1,
      pid |-> (b[2] % 32) * 256 + b[3], scr |-> b[4] \div 64, afc |-> afc, cc |-> b[4] % 16,
      al |-> al, flags |-> flags, rai |-> Bit(flags, 6) = 1, pcr |-> pcr,
      stuff |-> IF al <= (IF pcr THEN 7 ELSE 1) THEN <<>> ELSE SubSeq(b, IF pcr THEN 13 ELSE 7, IF 5 + al > Len(b) THEN Len(b) ELSE 5 + al),
      base |-> IF pcr THEN << b[7] \div 32, ((b[7] % 32) * 1024) + (b[8] * 4) + (b[9] \div 64),
                              ((b[9] % 64) * 512) + (b[10] * 2) + (b[11] \div 128) >> ELSE <<>>,
      ext |-> IF pcr THEN ((b[11] % 2) * 256) + b[12] ELSE 0,
      res |-> IF pcr THEN (b[11] \div 2) % 64 ELSE 63,
      payload |-> IF afc = 1 THEN Rest(b, 4) ELSE IF afc = 3 THEN Rest(b, 5 + al) ELSE <<>>]

IsWhole(b) == Len(b) = PacketLen

\* A consistent adaptation field, if any, and a payload behind it. Only the
\* random-access and the PCR flag are used.
FieldOk(p) ==
  /\ p.afc \in {1, 3}
  /\ p.afc = 3 => /\ p.al <= 182
                  /\ p.flags \in {0, 64, 16, 80}
                  /\ p.pcr => p.al >= 7
                  /\ \A k \in DOMAIN p.stuff : p.stuff[k] = 255

HeadOk(p, pid) == p.sync /\ p.err = 0 /\ p.scr = 0 /\ p.pid = pid

Joined(ps) == FoldLeft(LAMBDA a, p : a \o p.payload, <<>>, ps)

-----------------------------------------------------------------------------
(* PES packets                                                                *)
StartsPes(b) == Len(b) >= 9 /\ SubSeq(b, 1, 3) = <<0, 0, 1>>

PesTime(b, i) ==
  [mark |-> b[i] % 2 = 1 /\ b[i + 2] % 2 = 1 /\ b[i + 4] % 2 = 1,
   prefix |-> b[i] \div 16,
   t |-> << (b[i] \div 2) % 8, ((b[i + 1] * 256) + b[i + 2]) \div 2, ((b[i + 3] * 256) + b[i + 4]) \div 2 >>]

\* b starts with a PES header: its fields, and where the payload starts
Pes(b) ==
  IF ~StartsPes(b) THEN [ok |-> FALSE]
  ELSE LET f == b[8] \div 64
           need == CASE f = 2 -> 5 [] f = 3 -> 10 [] OTHER -> 0
       IN IF b[9] < need \/ Len(b) < 9 + b[9] \/ f \in {0, 1} THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, sid |-> b[4], len |-> (b[5] * 256) + b[6],
                mark |-> b[7] \div 64 = 2, scr |-> (b[7] \div 16) % 4, f |-> f, other |-> b[8] % 64, hdl |-> b[9],
                pts |-> PesTime(b, 10),
                dts |-> IF f = 3 THEN PesTime(b, 15) ELSE PesTime(b, 10),
                n |-> 9 + b[9]]

HeaderLen(video, dts, pts) == IF video /\ dts # pts THEN 19 ELSE 14

\* the fewest transport packets for n PES bytes
Packets(n, key) == LET first == IF key THEN 176 ELSE 184 IN
                   IF n <= first THEN 1 ELSE 1 + ((n - first + 183) \div 184)

\* T03: header h of a PES packet of n bytes in all
PesHeaderOk(h, n, video, dts, pts) ==
  /\ h.sid = (IF video THEN 224 ELSE 192)
  /\ h.mark /\ h.scr = 0 /\ h.other = 0
  /\ h.f = (IF video /\ dts # pts THEN 3 ELSE 2)
  /\ h.hdl = (IF h.f = 3 THEN 10 ELSE 5)
  /\ h.pts.mark /\ h.dts.mark
  /\ IF h.f = 3 THEN h.pts.prefix = 3 /\ h.dts.prefix = 1 ELSE h.pts.prefix = 2
  /\ h.len = (IF n - 6 > 65535 THEN 0 ELSE n - 6)

PesTimesOk(h, video, dts, pts) == h.pts.t = Mod33(pts) /\ h.dts.t = Mod33(IF video THEN dts ELSE pts)

\* the stuffing field the implementation puts into the payload of a short key
\* frame's packet (known finding ts-short-key-stuffing)
StuffField(n) == <<n - 1>> \o (IF n > 1 THEN <<0>> ELSE <<>>) \o [k \in 1 .. (n - 2) |-> 255]

-----------------------------------------------------------------------------
(* A muxer of reference: one way to write a frame, as packets                 *)
TimeBytes(prefix, t) ==
  << (prefix * 16) + (t[1] * 2) + 1, t[2] \div 128, ((t[2] % 128) * 2) + 1, t[3] \div 128, ((t[3] % 128) * 2) + 1 >>

PesBytes(video, es, dts, pts) ==
  LET two == video /\ dts # pts
      hdl == IF two THEN 10 ELSE 5
      n   == 3 + hdl + Len(es)
      l   == IF n > 65535 THEN 0 ELSE n
  IN <<0, 0, 1, IF video THEN 224 ELSE 192, l \div 256, l % 256, 128, IF two THEN 192 ELSE 128, hdl>>
     \o TimeBytes(IF two THEN 3 ELSE 2, Mod33(pts))
     \o (IF two THEN TimeBytes(1, Mod33(dts)) ELSE <<>>) \o es

PcrBytes(t) == << (t[1] * 32) + (t[2] \div 1024), (t[2] \div 4) % 256, ((t[2] % 4) * 64) + (t[3] \div 512), (t[3] \div 2) % 256,
                  ((t[3] % 2) * 128) + 126, 0 >>

RECURSIVE Packetize(_, _, _, _, _)
\* b: what is left of the PES packet, cc: the next counter value
Packetize(pid, b, cc, first, pcr) ==
  LET key  == pcr # <<>>
      room == IF key THEN 176 ELSE 184
      n    == IF Len(b) < room THEN Len(b) ELSE room
      pad  == room - n
      field == IF key THEN <<7 + pad, 80>> \o PcrBytes(pcr) \o [k \in 1 .. pad |-> 255]
               ELSE IF pad = 0 THEN <<>>
               ELSE IF pad = 1 THEN <<0>>
               ELSE <<pad - 1, 0>> \o [k \in 1 .. (pad - 2) |-> 255]
      head == <<71, (IF first THEN 64 ELSE 0) + (pid \div 256), pid % 256, (IF field = <<>> THEN 16 ELSE 48) + cc>>
      p    == head \o field \o SubSeq(b, 1, n)
  IN IF n = Len(b) THEN <<p>> ELSE <<p>> \o Packetize(pid, Rest(b, n), (cc + 1) % 16, FALSE, <<>>)

MuxFrame(video, es, key, dts, pts, cc) ==
  Packetize(IF video THEN VideoPID ELSE AudioPID, PesBytes(video, es, dts, pts), cc, TRUE,
            IF video /\ key THEN Mod33(dts) ELSE <<>>)

-----------------------------------------------------------------------------
(* Sections and tables                                                        *)
\* CRC-32/MPEG-2 in 16-bit halves
RECURSIVE CrcBits(_, _)
CrcBits(r, k) ==
  IF k = 0 THEN r
  ELSE LET s == << ((r[1] * 2) % 65536) + (r[2] \div 32768), (r[2] * 2) % 65536 >>
       IN CrcBits(IF r[1] >= 32768 THEN <<s[1] ^^ 1217, s[2] ^^ 7607>> ELSE s, k - 1)
CrcTable == [b \in 0 .. 255 |-> CrcBits(<<b * 256, 0>>, 8)]
CrcNext(r, b) == LET t == CrcTable[(r[1] \div 256) ^^ b]
                 IN << (((r[1] % 256) * 256) + (r[2] \div 256)) ^^ t[1], ((r[2] % 256) * 256) ^^ t[2] >>
Crc(b) == FoldLeft(CrcNext, <<65535, 65535>>, b)

\* the one section in the packet p (of bytes b)
Section(b) ==
  IF ~IsWhole(b) THEN [ok |-> FALSE]
  ELSE LET p == Packet(b) IN
       IF ~(p.sync /\ p.err = 0 /\ p.scr = 0 /\ p.pusi /\ FieldOk(p)) \/ Len(p.payload) < 1 \/ p.payload[1] > 160 THEN [ok |-> FALSE]
       ELSE LET s == Rest(p.payload, 1 + p.payload[1]) IN
            IF Len(s) < 12 THEN [ok |-> FALSE]
            ELSE LET n == ((s[2] % 16) * 256) + s[3] IN
                 IF n < 9 \/ 3 + n > Len(s) THEN [ok |-> FALSE]
                 ELSE LET sec == SubSeq(s, 1, 3 + n) IN
                      [ok |-> /\ s[2] \div 64 \in {2, 3}                     \* section_syntax_indicator
                              /\ s[6] % 2 = 1                               \* current
                              /\ s[7] = 0 /\ s[8] = 0                       \* the only section
                              /\ Crc(sec) = <<0, 0>>
                              /\ \A k \in (3 + n + 1) .. Len(s) : s[k] = 255,
                       pid |-> p.pid, cc |-> p.cc, table |-> s[1], id |-> (s[4] * 256) + s[5],
                       body |-> SubSeq(sec, 9, n - 1)]

RECURSIVE Programs(_)
Programs(b) == IF Len(b) < 4 THEN IF b = <<>> THEN <<>> ELSE << <<"bad">> >>
               ELSE << <<"p", (b[1] * 256) + b[2], ((b[3] % 32) * 256) + b[4]>> >> \o Programs(Rest(b, 4))
RECURSIVE Streams(_)
Streams(b) == IF b = <<>> THEN <<>>
              ELSE IF Len(b) < 5 THEN << <<"bad">> >>
              ELSE LET n == ((b[4] % 16) * 256) + b[5] IN
                   IF Len(b) < 5 + n THEN << <<"bad">> >>
                   ELSE << <<"s", b[1], ((b[2] % 32) * 256) + b[3]>> >> \o Streams(Rest(b, 5 + n))

Program == 1
H264 == <<"s", 27, VideoPID>>
AAC == <<"s", 15, AudioPID>>

PatOk(s) == s.ok /\ s.pid = PatPID /\ s.table = 0 /\ Programs(s.body) = << <<"p", Program, PmtPID>> >>

\* listed: set of {"v", "a"}
PmtOk(s, v, a) ==
  /\ s.ok /\ s.pid = PmtPID /\ s.table = 2 /\ s.id = Program
  /\ Len(s.body) >= 4
  /\ LET il == ((s.body[3] % 16) * 256) + s.body[4]
         st == Streams(Rest(s.body, 4 + il))
     IN /\ Len(s.body) >= 4 + il
        /\ ToSet(st) = (IF v THEN {H264} ELSE {}) \cup (IF a THEN {AAC} ELSE {})
        /\ Len(st) = Cardinality(ToSet(st))
PcrPid(s) == ((s.body[1] % 32) * 256) + s.body[2]

ServiceDesc(typ, prov, serv) ==
  <<72, 3 + Len(prov) + Len(serv), typ, Len(prov)>> \o prov \o <<Len(serv)>> \o serv

NetworkDesc(name) == <<64, Len(name)>> \o name

\* available or not, and where: the 24 bits of an ISO 3166 code
IsCountryDesc(d, available, code) ==
  /\ Len(d) = 6 /\ d[1] = 73 /\ d[2] = 4
  /\ d[3] \div 128 = available
  /\ SubSeq(d, 4, 6) = <<code \div 65536, (code \div 256) % 256, code % 256>>
\* known finding: a byte more than the length says, and 12 of the 24 bits
CountryDescAsBuilt(available, code) ==
  <<73, 4, 128 * available, 0, 0, (code \div 256) % 16, code % 256>>

SdtOk(s, desc) ==
  /\ s.ok /\ s.pid = SdtPID /\ s.table = 66
  /\ Len(s.body) = 3 + 5 + Len(desc)
  /\ (s.body[4] * 256) + s.body[5] = Program
  /\ ((s.body[7] % 16) * 256) + s.body[8] = Len(desc)
  /\ Rest(s.body, 8) = desc

\* one packet holds 5 bytes of head, 16 of table, 4 of CRC
MaxDesc == PacketLen - 5 - 16 - 4

-----------------------------------------------------------------------------
(* Clocks, in ticks of 90 kHz                                                 *)
Ms(ts) == Times(ts, 90)
FrameTicks(rate) == (90000 * 1024) \div rate
Window == 900                                     \* 10 ms

NoClock == [anchor |-> <<0, 0, 0>>, n |-> 0]

\* the clock at its next frame
Running(c, rate) == Plus(c.anchor, Small(c.n * FrameTicks(rate)))
Near(a, b) == AtMost(Minus(a, b), Window) \/ AtMost(Minus(b, a), Window)

\* an audio frame published at dts: its time, and the clock after it
AudioTime(c, dts, rate) ==
  LET run == Running(c, rate) IN
  IF Near(run, dts) THEN [t |-> run, c |-> [c EXCEPT !.n = @ + 1]]
  ELSE [t |-> dts, c |-> [anchor |-> dts, n |-> 1]]
=============================================================================
