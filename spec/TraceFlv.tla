------------------------------ MODULE TraceFlv ------------------------------
(* Recorded FLV demuxer, tag and mixer histories and metadata prefix calls,   *)
(* checked against modules Flv and Amf.                                       *)
EXTENDS TraceLib
F == INSTANCE Flv
M == INSTANCE Amf

VARIABLES pos, st, bad, cov

AllF == <<"F01", "F02", "F03", "F04", "T07">>

\* The mixer's caches. md is a sequence of alternatives (a save that fails may
\* keep or clear what was cached); an alternative is <<"none">>, <<"val", v>>
\* (not seen on the wire yet) or <<"bytes", b>>.
TInit == [md |-> << <<"none">> >>, avc |-> <<>>, aac |-> <<>>, v |-> FALSE, a |-> FALSE, seen |-> FALSE]

-----------------------------------------------------------------------------
(* The @setDataFrame prefix                                                   *)
SetName == <<64, 115, 101, 116, 68, 97, 116, 97, 70, 114, 97, 109, 101>>
MetaName == <<111, 110, 77, 101, 116, 97, 68, 97, 116, 97>>
Prefix == <<2, 0, 13>> \o SetName

\* what an AMF0 payload starts with
Lead(d) ==
  LET v == M!D(0, M!Dec(d, 1, M!Tables, <<>>))  s == v[2]
      n == v[1]
      isXml == n[1] = "xml0" \/ (n[1] \in {"def3", "ref3"} /\ s.obj[n[2]][1] = "xml")
  IN IF s.err THEN [k |-> "bad"]
     ELSE IF s.un \/ isXml THEN [k |-> "open"]        \* an XML document is handed out as text
     ELSE IF n[1] \in {"str", "lstr"} THEN [k |-> "str", s |-> n[2], n |-> s.i - 1]
     ELSE [k |-> "bad"]

Removed(d, l) == IF l.s = SetName THEN F!Rest(d, l.n) ELSE d
Added(d, l) == IF l.s = SetName THEN d ELSE Prefix \o d

-----------------------------------------------------------------------------
(* Demuxing                                                                   *)
VideoFields(r, h) ==
  /\ r.key = F!B2I(h.key) /\ r.inter = F!B2I(h.inter) /\ r.seq = F!B2I(h.seq) /\ r.eos = F!B2I(h.eos)
  /\ r.avc = F!B2I(h.avc) /\ r.codec = h.codec
AudioFields(r, h) ==
  /\ r.fmt = h.fmt /\ r.aac = F!B2I(h.aac) /\ r.mp3 = F!B2I(h.mp3)
  /\ h.aac => r.aactype = h.typ /\ r.aacseq = F!B2I(h.seq)

DemuxChecks(e, n) ==
  LET t == e.a.t  h == F!Demux(t, e.a.data)  r == e.r IN
  Chk("F03", n \o (IF h.ok THEN "-accepted" ELSE "-rejected"), (r.k = "ok") = h.ok)
  \o (IF ~h.ok \/ r.k # "ok" THEN <<>>
      ELSE (IF t = F!Video THEN Chk("F03", n \o "-video-fields", VideoFields(r, h))
                                \o Chk("F03", n \o "-composition-time", r.cts = h.cts)
            ELSE IF t = F!Audio THEN Chk("F03", n \o "-audio-fields", AudioFields(r, h)) ELSE <<>>)
           \o (IF e.a.op = "tag" THEN Chk("F03", "tag-length", r.n = h.n)
               ELSE Chk("F03", "media", r.media = h.media) \o Chk("F03", "payload-unchanged", r.same = 1)))

-----------------------------------------------------------------------------
(* The mixer                                                                  *)

\* is b the metadata tag for object v?
IsMetaTag(b, v) ==
  LET f == F!ReadTags(b, 1, <<>>) IN
  /\ f.ok /\ Len(f.tags) = 1
  /\ f.tags[1].typ = 18 /\ f.tags[1].ts = <<0, 0>> /\ f.tags[1].sid = F!Zero
  /\ LET d == f.tags[1].data
         x == M!D(0, M!Dec(d, 1, M!Tables, <<>>))
     IN /\ ~x[2].err /\ x[1] = <<"str", MetaName>>
        /\ LET y == M!D(0, M!Dec(d, x[2].i, M!Tables, <<>>)) IN
           ~y[2].err /\ y[2].i = Len(d) + 1 /\ M!Wire(0, y[2], v, y[1])

IsAlt(b, alt) == CASE alt[1] = "none" -> b = <<>>
                   [] alt[1] = "bytes" -> b = alt[2]
                   [] OTHER -> b # <<>> /\ IsMetaTag(b, alt[2])

Head13(s) == F!FileHeader(s.v, s.a)
\* what lies between the file header and the sequence header tags
Middle(s, b) ==
  LET tail == s.avc \o s.aac
      n    == Len(b) - 13 - Len(tail)
  IN IF n < 0 THEN [ok |-> FALSE, b |-> <<>>]
     ELSE [ok |-> SubSeq(b, 1, 13) = Head13(s) /\ SubSeq(b, 14 + n, Len(b)) = tail, b |-> SubSeq(b, 14, 13 + n)]

HdrJudge(s, e) ==
  LET out == e.r.out
      m   == Middle(s, out)
      hit == SelectSeq(s.md, LAMBDA x : IsAlt(m.b, x))
      one == Len(s.md) = 1 /\ s.md[1][1] # "val"
      all == Head13(s) \o (IF s.md[1][1] = "bytes" THEN s.md[1][2] ELSE <<>>) \o s.avc \o s.aac
  IN IF e.a.fail >= 0 /\ (e.a.fail < 13 + Len(s.avc) + Len(s.aac) \/ (one /\ e.a.fail < Len(all)))
     THEN [st |-> s, c |-> Chk("F02", "write-failure-reported", e.r.k = "err")
                           \o (IF one THEN Chk("F02", "prefix-on-failure", IsPrefix(out, all)) ELSE <<>>)]
     ELSE IF e.a.fail >= 0 /\ ~one THEN [st |-> s, c |-> <<>>]
     ELSE [st |-> IF m.ok /\ hit # <<>>
                  THEN [s EXCEPT !.md = << IF m.b = <<>> THEN <<"none">> ELSE <<"bytes", m.b>> >>] ELSE s,
           c |-> Chk("F02", "file-header", e.r.k = "ok" /\ SubSeq(out, 1, 13) = Head13(s))
                 \o Chk("F02", "cached-tags", m.ok /\ hit # <<>>)
                 \o (IF one THEN Chk("F02", "repeatable", out = all) ELSE <<>>)]

NumOf(e) == IF "num" \in DOMAIN e.a THEN e.a.num ELSE 0

SaveHdr(s, e, video) ==
  LET d == e.a.data  tag == F!Tag(IF video THEN F!Video ELSE F!Audio, d, F!Zero)
      refuse == e.a.t \notin {F!Video, F!Audio, F!Meta} \/ NumOf(e) > 16777215
  IN
  IF refuse      \* what was cached before stays
  THEN [st |-> s, c |-> Chk("F02", "bad-header-rejected", e.r.k = "err" /\ e.r.out = <<>>)
                        \o Chk("T07", "packet-unchanged", e.r.same = 1)]
  ELSE
  [st |-> IF video THEN [s EXCEPT !.avc = tag, !.v = TRUE] ELSE [s EXCEPT !.aac = tag, !.a = TRUE],
   c |-> Chk("F02", "header-saved", e.r.k = "ok" /\ e.r.out = <<>>)
         \o Chk("T07", "packet-unchanged", e.r.same = 1)]

SaveMd(s, e) ==
  IF e.r.k = "skip" THEN [st |-> s, c |-> <<>>]
  ELSE LET can == NumOf(e) = 0 /\ M!Encodable(0, e.a.val) IN      \* num > 0: a value of more bytes than a tag can hold
       [st |-> IF can THEN [s EXCEPT !.md = << <<"val", e.a.val>> >>]
               ELSE s,                                          \* what was cached before stays
        c |-> Chk("F02", IF can THEN "metadata-saved" ELSE "bad-metadata-rejected", (e.r.k = "ok") = can)]

MuxJudge(s, e) ==
  LET t == e.a.t  d == e.a.data  r == e.r  big == e.a.num > 0
      l == IF t = F!Meta THEN Lead(d) ELSE [k |-> "none"]
      \* what a tag of kind t keeps of the data; num more bytes follow d
      left == IF t = F!Meta /\ l.k \notin {"bad", "open"} THEN Removed(d, l) ELSE d
      n == Len(left) + e.a.num
      refuse == \/ t \notin {F!Video, F!Audio, F!Meta}
                \/ n > 16777215
                \/ l.k = "bad"
  IN IF l.k = "open" THEN <<>>
     ELSE IF refuse THEN Chk("F01", "rejected-and-nothing-written", r.k = "err" /\ r.out = <<>>)
     ELSE IF big
     THEN Chk("F01", "large-tag", /\ r.k = "ok" /\ r.len = n + 15 /\ r.body = 1
                                  /\ r.out = F!TagHeader(t, n, e.a.ts) \o F!U32(n + 11))
     ELSE LET body == IF t = F!Meta THEN Removed(d, l) ELSE d
              tag  == F!Tag(t, body, e.a.ts)
          IN IF e.a.fail >= 0 /\ e.a.fail < Len(tag)
             THEN Chk("F01", "write-failure-reported", r.k = "err")
                  \o Chk("F01", "prefix-on-failure", IsPrefix(r.out, tag))
             ELSE Chk("F01", IF t = F!Meta THEN "metadata-tag" ELSE "tag", r.k = "ok" /\ r.out = tag)
                  \o Chk("T07", "same-tag-again", r.k = "ok" /\ r.out = tag)

MetaJudge(e) ==
  LET d == e.a.data  l == Lead(d)  r == e.r IN
  IF l.k = "open" THEN <<>>
  ELSE IF l.k = "bad" THEN Chk("F04", "not-a-string-rejected", r.k = "err")
  ELSE CASE e.a.op = "addmeta" -> Chk("F04", IF l.s = SetName THEN "kept" ELSE "added", r.k = "ok" /\ r.out = Added(d, l))
         [] e.a.op = "delmeta" -> Chk("F04", IF l.s = SetName THEN "removed" ELSE "left", r.k = "ok" /\ r.out = Removed(d, l))
         [] OTHER -> Chk("F04", "add-then-remove", r.k = "ok" /\ r.out = Removed(d, l))

Judge(s, e) ==
  LET op == e.a.op IN
  IF Dead(e) THEN [st |-> s, c |-> Chks(CASE op \in {"demux", "tag"} -> <<"F03">>
                                          [] op \in {"addmeta", "delmeta", "adddel"} -> <<"F04">>
                                          [] op = "mux" -> <<"F01", "T07">>
                                          [] OTHER -> <<"F02">>, "returns", FALSE)]
  ELSE CASE op = "new" -> [st |-> TInit, c |-> <<>>]
         [] op = "demux" -> [st |-> s, c |-> DemuxChecks(e, "demux")]
         [] op = "tag" -> [st |-> s, c |-> DemuxChecks(e, "tag")]
         [] op = "md" -> SaveMd(s, e)
         [] op = "avch" -> SaveHdr(s, e, TRUE)
         [] op = "aach" -> SaveHdr(s, e, FALSE)
         [] op = "hdr" -> HdrJudge(s, e)
         [] op = "mux" -> [st |-> s, c |-> MuxJudge(s, e) \o Chk("T07", "packet-unchanged", e.r.same = 1)]
         [] op \in {"addmeta", "delmeta", "adddel"} -> [st |-> s, c |-> MetaJudge(e) \o Chk("F04", "payload-unchanged", e.r.same = 1)]
         [] OTHER -> [st |-> s, c |-> Chks(AllF, "known-op", FALSE)]

Init == pos = 1 /\ st = TInit /\ bad = <<>> /\ cov = <<>>

Step == /\ pos <= Len(Trace)
        /\ LET e == Trace[pos]
               j == Judge(st, e)
           IN /\ st' = j.st
              /\ bad' = AddBad(bad, e, j.c)
              /\ cov' = CountChecks(cov, j.c)
        /\ pos' = pos + 1

Done == /\ pos = Len(Trace) + 1
        /\ Report(pos - 1, bad, cov)
        /\ pos' = pos + 1
        /\ UNCHANGED <<st, bad, cov>>

Next == Step \/ Done
Spec == Init /\ [][Next]_<<pos, st, bad, cov>>
=============================================================================
