------------------------------- MODULE FlvMC --------------------------------
(* An FLV stream being written, as a state machine: headers are cached, the   *)
(* file header is emitted, packets are muxed, some writes fail. Checked: a    *)
(* file written without failures always reads back as the tags it was made    *)
(* of, and the caches' latest contents open it.                               *)
EXTENDS Flv, TLC, Json

CONSTANTS Depth, Emit

VARIABLES v, a, vf, af, file, tags, opened, h
vars == <<v, a, vf, af, file, tags, opened, h>>

Seqs == {<<23, 0, 0, 0, 0, 1>>, <<23, 0, 0, 0, 0, 2, 3>>}
Asqs == {<<175, 0, 18, 16>>, <<175, 0, 17, 144>>}
Pkts == {<<Video, <<39, 1, 0, 0, 9>>, <<0, 0, 40>>>>, <<Audio, <<175, 1>>, <<0, 512, 0>>>>,
         <<Meta, <<2, 0, 1, 97>>, <<3, 32767, 32767>>>>, <<Video, <<>>, <<0, 511, 32767>>>>}

Init == v = <<>> /\ a = <<>> /\ vf = FALSE /\ af = FALSE /\ file = <<>> /\ tags = <<>> /\ opened = FALSE /\ h = <<>>

SaveV == \E d \in Seqs : v' = Tag(Video, d, Zero) /\ vf' = TRUE /\ h' = Append(h, <<"avch", d>>)
                        /\ UNCHANGED <<a, af, file, tags, opened>>
SaveA == \E d \in Asqs : a' = Tag(Audio, d, Zero) /\ af' = TRUE /\ h' = Append(h, <<"aach", d>>)
                        /\ UNCHANGED <<v, vf, file, tags, opened>>
\* a new viewer: the stream starts again
Open == /\ file' = FileHeader(vf, af) \o v \o a
        /\ tags' = (IF v = <<>> THEN <<>> ELSE <<9>>) \o (IF a = <<>> THEN <<>> ELSE <<8>>)
        /\ opened' = TRUE
        /\ h' = Append(h, <<"hdr">>)
        /\ UNCHANGED <<v, a, vf, af>>
Put == /\ opened
       /\ \E p \in Pkts : /\ file' = file \o Tag(p[1], p[2], p[3])
                          /\ tags' = Append(tags, TagType(p[1]))
                          /\ h' = Append(h, <<"mux", p[1], p[2], p[3]>>)
       /\ UNCHANGED <<v, a, vf, af, opened>>

Next == Len(h) < Depth /\ (SaveV \/ SaveA \/ Open \/ Put)
Spec == Init /\ [][Next]_vars

ReadsBack == opened =>
  LET f == ReadTags(file, 14, <<>>) IN
  /\ f.ok
  /\ [k \in DOMAIN f.tags |-> f.tags[k].typ] = tags
  /\ \A k \in DOMAIN f.tags : f.tags[k].sid = Zero
SignatureOk == opened => SubSeq(file, 1, 4) = <<70, 76, 86, 1>> /\ SubSeq(file, 6, 13) = <<0, 0, 0, 9, 0, 0, 0, 0>>
FlagsOk == (h # <<>> /\ Last(h)[1] = "hdr") =>
  /\ (file[5] % 2 = 1) = (\E k \in DOMAIN h : h[k][1] = "avch")
  /\ (file[5] \div 4 = 1) = (\E k \in DOMAIN h : h[k][1] = "aach")
\* the tag header carries length and timestamp where a reader looks for them
Timestamps == opened =>
  LET f == ReadTags(file, 14, <<>>)
      put == SelectSeq(h, LAMBDA x : x[1] = "mux")
      n == Len(f.tags)
      m == Len(SelectSeq(h, LAMBDA x : x[1] = "hdr"))
  IN (m = 1 /\ put # <<>>) =>
     /\ f.tags[n].data = Last(put)[3]
     /\ LET ts == Last(put)[4] IN
        f.tags[n].ts = << ts[1] * 64 + ts[2] \div 512, (ts[2] % 512) * 32768 + ts[3] >>

EmitBehaviour == (Emit /\ Len(h) = Depth) => PrintT("@@" \o ToJson(h))
=============================================================================
