-------------------------------- MODULE TsMC --------------------------------
(* The transport stream mixer as a state machine over a small alphabet, its   *)
(* whole output checked by demultiplexing it, and the source of conformance   *)
(* behaviours. Frames are published 40 ms apart.                              *)
EXTENDS Ts, TLC, Json

CONSTANTS Depth, Emit, Names

Nal(n) == U32(Len(n)) \o n
Avcc(ns) == FlattenSeq([k \in DOMAIN ns |-> Nal(ns[k])])
V(ft, typ, cts, media) == <<ft * 16 + 7, typ>> \o cts \o media
A(typ, media) == <<175, typ>> \o media
Run(b, n) == [k \in 1 .. n |-> (b + k) % 256]
Rec(sps, pps) == <<1, 100, 0, 31, 255, 225, 0, Len(sps)>> \o sps \o <<1, 0, Len(pps)>> \o pps

\* what is published: kind, payload
Pkt(n) ==
  CASE n = "avch"  -> [t |-> Video, d |-> V(1, 0, <<0, 0, 0>>, Rec(<<103, 1, 2>>, <<104, 3>>))]
    [] n = "avchB" -> [t |-> Video, d |-> V(1, 0, <<0, 0, 0>>, Rec(<<103, 9>>, <<104, 8, 7>>))]
    [] n = "avchX" -> [t |-> Video, d |-> V(1, 0, <<0, 0, 0>>, <<1, 100, 0, 31, 255, 225, 0, 9, 103>>)]
    [] n = "aach"  -> [t |-> Audio, d |-> A(0, <<18, 16>>)]
    [] n = "aachX" -> [t |-> Audio, d |-> A(0, <<23, 144>>)]
    [] n = "key"   -> [t |-> Video, d |-> V(1, 1, <<0, 0, 0>>, Avcc(<< <<101>> \o Run(1, 30) >>))]
    [] n = "keyL"  -> [t |-> Video, d |-> V(1, 1, <<0, 0, 80>>, Avcc(<< <<101>> \o Run(7, 350) >>))]
    [] n = "p"     -> [t |-> Video, d |-> V(2, 1, <<0, 0, 0>>, Avcc(<< <<65>> \o Run(3, 158) >>))]
    [] n = "b"     -> [t |-> Video, d |-> V(2, 1, <<255, 255, 216>>, Avcc(<< <<1>> \o Run(5, 154) >>))]
    [] n = "bad"   -> [t |-> Video, d |-> V(2, 1, <<0, 0, 0>>, <<0, 0, 0, 9, 65>>)]
    [] n = "a"     -> [t |-> Audio, d |-> A(1, Run(9, 163))]
    [] n = "a2"    -> [t |-> Audio, d |-> A(1, Run(40, 700))]
AllPkts == {"avch", "avchB", "avchX", "aach", "aachX", "key", "keyL", "p", "b", "bad", "a", "a2"}

Prov == <<112, 49>>
Serv == <<115>>

VARIABLES c, v, a, desc, clk, cc, wire, sent, h
vars == <<c, v, a, desc, clk, cc, wire, sent, h>>

Init == /\ c = CodecInit /\ v = FALSE /\ a = FALSE /\ desc = <<>> /\ clk = NoClock
        /\ cc = [p \in {VideoPID, AudioPID, SdtPID, PatPID, PmtPID} |-> 0]
        /\ wire = <<>> /\ sent = <<>> /\ h = <<>>

Clock == Small(40 * (Len(h) + 1))

\* --- sections written
Section188(pid, cnt, table, id, body) ==
  LET n   == 5 + Len(body) + 4
      sec == <<table, 176 + (n \div 256), n % 256, id \div 256, id % 256, 193, 0, 0>> \o body
      r   == Crc(sec)
      b   == <<71, 64 + (pid \div 256), pid % 256, 16 + cnt, 0>> \o sec
             \o << r[1] \div 256, r[1] % 256, r[2] \div 256, r[2] % 256 >>
  IN b \o [k \in 1 .. (PacketLen - Len(b)) |-> 255]

Sdt == Section188(SdtPID, cc[SdtPID], 66, 1, <<255, 1, 255, 0, 1, 252, 128 + (Len(desc) \div 256), Len(desc) % 256>> \o desc)
Pat == Section188(PatPID, cc[PatPID], 0, 1, <<0, 1, 240, 1>>)
Pmt == Section188(PmtPID, cc[PmtPID], 2, 1, <<225, 0, 240, 0>> \o (IF v THEN <<27, 225, 0, 240, 0>> ELSE <<>>)
                                            \o (IF a THEN <<15, 225, 1, 240, 0>> ELSE <<>>))

Write(ps, s) ==
  /\ wire' = wire \o ps
  /\ sent' = sent \o s
  /\ cc' = [p \in DOMAIN cc |-> (cc[p] + Len(SelectSeq(ps, LAMBDA x : Packet(x).pid = p))) % 16]

Nothing == UNCHANGED <<wire, sent, cc>>

Header(n) ==
  LET x == Convert(c, Pkt(n).t, Pkt(n).d) IN
  /\ c' = x.c
  /\ v' = (v \/ (x.k = "none" /\ Pkt(n).t = Video))
  /\ a' = (a \/ (x.k = "none" /\ Pkt(n).t = Audio))
  /\ Nothing /\ UNCHANGED <<desc, clk>>

\* the frame as an elementary stream; ADTS for the configuration of this alphabet
Es(x) == IF x.k = "exact" THEN x.es
         ELSE <<255, 241, 80, 128 + (x.n \div 2048), (x.n \div 8) % 256, ((x.n % 8) * 32) + 31, 252>> \o x.es

Frame(n) ==
  LET p == Pkt(n)
      x == Convert(c, p.t, p.d)
      d == Demux(p.t, p.d)
      dts == Ms(Clock)
      au == AudioTime(clk, dts, AacRate(c.aac))
      pub == IF p.t = Video THEN dts ELSE au.t
      pts == IF p.t = Video THEN Plus(dts, IF d.cts < 0 THEN Minus(<<0, 0, 0>>, Small(-d.cts * 90)) ELSE Small(d.cts * 90)) ELSE au.t
      pid == IF p.t = Video THEN VideoPID ELSE AudioPID
      key == p.t = Video /\ d.key
  IN /\ UNCHANGED <<c, v, a, desc>>
     /\ clk' = IF p.t = Audio /\ c.aac.has THEN au.c ELSE clk
     /\ IF x.k \in {"exact", "adts"}
        THEN Write(MuxFrame(p.t = Video, Es(x), key, pub, pts, cc[pid]),
                   << [pid |-> pid, es |-> Es(x), key |-> key, dts |-> Mod33(pub), pts |-> Mod33(pts)] >>)
        ELSE Nothing

Do(n) ==
  CASE n \in {"avch", "avchB", "avchX", "aach", "aachX"} -> Header(n)
    [] n = "md"  -> desc' = ServiceDesc(1, Prov, Serv) /\ Nothing /\ UNCHANGED <<c, v, a, clk>>
    [] n = "mdL" -> Nothing /\ UNCHANGED <<c, v, a, desc, clk>>          \* refused
    [] n = "hdr" -> Write(<<Sdt, Pat, Pmt>>, <<>>) /\ UNCHANGED <<c, v, a, desc, clk>>
    [] OTHER -> Frame(n)

Next == /\ Len(h) < Depth
        /\ \E n \in Names : Do(n) /\ h' = Append(h, n)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
On(pid) == SelectSeq([k \in DOMAIN wire |-> Packet(wire[k])], LAMBDA p : p.pid = pid)

\* T01: whole packets; T02: counters
WellFormed == \A k \in DOMAIN wire : IsWhole(wire[k]) /\ LET p == Packet(wire[k]) IN HeadOk(p, p.pid) /\ FieldOk(p)
Counting == \A pid \in DOMAIN cc : LET ps == On(pid) IN \A k \in DOMAIN ps : ps[k].cc = (k - 1) % 16

\* what a demultiplexer makes of one PID: PES packets cut at the start flags
RECURSIVE PesOf(_, _)
PesOf(ps, acc) ==
  IF ps = <<>> THEN acc
  ELSE LET p == Head(ps) IN
       PesOf(Tail(ps), IF p.pusi THEN Append(acc, [b |-> p.payload, rai |-> p.rai, base |-> p.base])
                       ELSE [acc EXCEPT ![Len(acc)].b = @ \o p.payload])

\* T01, T03, T04, T06: every frame sent is read back, in order
ReadBack ==
  \A pid \in {VideoPID, AudioPID} :
    LET fs == SelectSeq(sent, LAMBDA f : f.pid = pid)
        ps == PesOf(On(pid), <<>>)
    IN /\ Len(fs) = Len(ps)
       /\ \A k \in DOMAIN ps :
            LET x == Pes(ps[k].b) IN
            /\ x.ok
            /\ Rest(ps[k].b, x.n) = fs[k].es
            /\ PesHeaderOk(x, Len(ps[k].b), pid = VideoPID, fs[k].dts, fs[k].pts)
            /\ PesTimesOk(x, pid = VideoPID, fs[k].dts, fs[k].pts)
            /\ ps[k].rai = fs[k].key
            /\ ps[k].base = (IF fs[k].key THEN fs[k].dts ELSE <<>>)
PcrOnlyThere == \A k \in DOMAIN wire : LET p == Packet(wire[k]) IN (p.pcr \/ p.rai) => (p.pusi /\ p.pcr /\ p.rai /\ p.pid = VideoPID)

\* T05: the tables just written
TablesOk ==
  (h # <<>> /\ Last(h) = "hdr") =>
    LET n == Len(wire) IN
    /\ SdtOk(Section(wire[n - 2]), desc)
    /\ PatOk(Section(wire[n - 1]))
    /\ PmtOk(Section(wire[n]), v, a)
    /\ v = (\E k \in DOMAIN h : h[k] \in {"avch", "avchB"})
    /\ a = (\E k \in DOMAIN h : h[k] = "aach")
    /\ (desc # <<>>) = (\E k \in DOMAIN h : h[k] = "md")

\* T06: an audio frame is never further than 10 ms from its published time
Close == (h # <<>> /\ Last(h) \in {"a", "a2"} /\ c.aac.has) =>
           Near(Last(SelectSeq(sent, LAMBDA f : f.pid = AudioPID)).dts, Ms(Small(40 * Len(h))))

EmitBehaviour == (Emit /\ Len(h) = Depth) => PrintT("@@" \o ToJson(h))
EmitPackets == (Emit /\ h = <<>>) => PrintT("@@" \o ToJson([n \in AllPkts |-> Pkt(n)]))
=============================================================================
