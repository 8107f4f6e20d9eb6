------------------------------ MODULE TsSizes -------------------------------
(* Every frame size: packets written by the reference muxer are read back as  *)
(* the frame (T01, T03, T04), and damaged sections are recognised (T05).      *)
EXTENDS Ts, TLC

CONSTANTS MaxLen, Clocks

VARIABLES n, key, video, d, p
vars == <<n, key, video, d, p>>

\* clock values worth telling apart modulo 2^33
Times3 == << <<0, 0, 0>>, <<0, 0, 1>>, <<7, 32767, 32767>>, <<8, 0, 5>>, <<4, 1, 16384>>, <<5, 21845, 10922>>, <<-1, 32767, 32000>> >>

Init == /\ n \in 0 .. MaxLen /\ key \in BOOLEAN /\ video \in BOOLEAN
        /\ d \in 1 .. Clocks /\ p \in 1 .. Clocks
        /\ (~video => ~key /\ d = p)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Es == [k \in 1 .. n |-> (k * 7 + n) % 256]

RoundTrip ==
  LET dts == Times3[d]  pts == Times3[p]
      out == MuxFrame(video, Es, key, dts, pts, 3)
      ps  == [k \in DOMAIN out |-> Packet(out[k])]
      b   == Joined(ps)
      x   == Pes(b)
  IN /\ \A k \in DOMAIN out : /\ IsWhole(out[k]) /\ FieldOk(ps[k])
                              /\ HeadOk(ps[k], IF video THEN VideoPID ELSE AudioPID)
                              /\ ps[k].pusi = (k = 1) /\ ps[k].cc = (2 + k) % 16
                              /\ ps[k].rai = (key /\ k = 1) /\ ps[k].pcr = (key /\ k = 1)
     /\ Len(out) = Packets(Len(b), key)
     /\ key => ps[1].base = Mod33(dts) /\ ps[1].ext = 0 /\ ps[1].res = 63
     /\ x.ok /\ Rest(b, x.n) = Es /\ x.n = HeaderLen(video, dts, pts)
     /\ PesHeaderOk(x, Len(b), video, dts, pts) /\ PesTimesOk(x, video, dts, pts)
=============================================================================
