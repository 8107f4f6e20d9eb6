----------------------------- MODULE TracePipe ------------------------------
(* Recorded server histories, checked against module Pipe.                    *)
EXTENDS TraceLib
P == INSTANCE Pipe
M == INSTANCE Amf

VARIABLES pos, st, bad, cov

AnyCc == 0 .. 15
PidsT == {P!VideoPID, P!AudioPID, P!SdtPID, P!PatPID, P!PmtPID}

\* the server and its viewers; a viewer's items not yet seen, how much of its
\* output was judged, and (TS) its conversion state and counters
TInit == [s |-> P!PipeInit(0), vs |-> <<>>]

NewViewer(n, kind) ==
  [n |-> n, kind |-> kind, items |-> <<>>, seen |-> 0, lost |-> FALSE, w |-> P!TsNew, cc |-> [p \in PidsT |-> AnyCc],
   moved |-> FALSE]

-----------------------------------------------------------------------------
(* Metadata: what an object decoded from AMF0 is, as a value to encode         *)
OnMetaData == <<111, 110, 77, 101, 116, 97, 68, 97, 116, 97>>

RECURSIVE ValOf(_, _)
\* <<value>>, or <<>> if the value has no single reading
ValOf(s, n) ==
  CASE n[1] = "nil" -> << <<"nil">> >>
    [] n[1] = "undef" -> << <<"nil">> >>
    [] n[1] = "bool" -> IF n[2] \in {0, 1} THEN << <<"bool", n[2]>> >> ELSE <<>>
    [] n[1] = "num" -> << <<"num", n[2]>> >>
    [] n[1] = "str" -> << <<"str", n[2]>> >>
    [] n[1] = "def0" /\ s.r0[n[2]][1] = "obj" ->
         LET ps == s.r0[n[2]][2]
             vs == [k \in DOMAIN ps |-> ValOf(s, ps[k][2])]
         IN IF \E k \in DOMAIN vs : vs[k] = <<>> THEN <<>>
            ELSE << <<"obj", M!Canon([k \in DOMAIN ps |-> <<ps[k][1], vs[k][1]>>])>> >>
    [] OTHER -> <<>>

\* the object of a metadata payload d behind its name: "none", "open" or "val"
RECURSIVE Objects(_, _)
Objects(s, acc) ==
  IF s.i > Len(s.b) THEN acc
  ELSE LET v == M!D(0, s) IN
       IF v[2].err \/ v[2].un \/ v[2].refs THEN <<"open">>
       ELSE Objects([v[2] EXCEPT !.refs = FALSE],
                    IF v[1][1] \in {"ref0"} THEN <<"open">>
                    ELSE IF v[1][1] = "def0" /\ v[2].r0[v[1][2]][1] = "obj"
                    THEN (LET x == ValOf(v[2], v[1]) IN IF acc = <<"open">> \/ x = <<>> THEN <<"open">> ELSE <<"val", x[1]>>)
                    ELSE acc)
MdOf(d) ==
  LET x == P!Script(d) IN
  CASE x.k = "bad" -> <<"none">>
    [] x.k = "open" -> <<"open">>
    [] OTHER -> Objects(M!Dec(x.d, 1, M!Tables, <<>>), <<"none">>)

\* is b a metadata tag for v?
IsMd(b, v) ==
  LET f == P!ReadTags(b, 1, <<>>) IN
  /\ f.ok /\ Len(f.tags) = 1
  /\ f.tags[1].typ = 18 /\ f.tags[1].ts = <<0, 0>> /\ f.tags[1].sid = <<0, 0, 0>>
  /\ LET d == f.tags[1].data
         x == M!D(0, M!Dec(d, 1, M!Tables, <<>>))
     IN /\ ~x[2].err /\ x[1] = <<"str", OnMetaData>>
        /\ LET y == M!D(0, M!Dec(d, x[2].i, M!Tables, <<>>)) IN
           ~y[2].err /\ y[2].i = Len(d) + 1 /\ M!Wire(0, y[2], v, y[1])

-----------------------------------------------------------------------------
(* An FLV viewer's output                                                     *)

\* the length of the tag at the start of b
TagLen(b, i) == IF Len(b) < i + 10 THEN 0 ELSE 15 + b[i + 1] * 65536 + b[i + 2] * 256 + b[i + 3]

\* the file header at byte i of out: <<fine, bytes used>>
FlvHead(s, out, i, it) ==
  LET file == P!FileHeader(it[2] # <<>>, it[3] # <<>>)
      tail == it[2] \o it[3]
      md == IF it[4] = 0 THEN <<"none">> ELSE MdOf(s.log[it[4]].d)
      here == Len(out) > i + 12 /\ out[i + 13] = 18
      n == IF md[1] = "none" \/ (md[1] = "open" /\ ~here) THEN 0 ELSE TagLen(out, i + 13)
      all == 13 + n + Len(tail)
  IN IF Len(out) < i - 1 + all THEN <<FALSE, 0>>
     ELSE << /\ SubSeq(out, i, i + 12) = file
             /\ SubSeq(out, i + 13 + n, i - 1 + all) = tail
             /\ md[1] = "val" => IsMd(SubSeq(out, i + 13, i + 12 + n), md[2]),
             all >>

\* walk through the items: a = [ok, i (next byte), lost]
FlvItem(s, out, a, it) ==
  IF a.lost \/ ~a.ok THEN a
  ELSE CASE it[1] = "head" -> LET h == FlvHead(s, out, a.i, it) IN [a EXCEPT !.ok = h[1], !.i = @ + h[2]]
         [] it[1] = "loose" -> [a EXCEPT !.lost = TRUE]
         [] OTHER -> LET n == Len(it[2]) IN
                     IF Len(out) < a.i - 1 + n THEN [a EXCEPT !.ok = FALSE]
                     ELSE [a EXCEPT !.ok = SubSeq(out, a.i, a.i - 1 + n) = it[2], !.i = @ + n]

FlvCheck(s, v, r) ==
  LET out == r.out
      hd == v.items # <<>> /\ v.items[1][1] = "head"
      f == FoldLeft(LAMBDA a, it : FlvItem(s, out, a, it), [ok |-> TRUE, i |-> v.seen + 1, lost |-> v.lost], v.items)
      name == IF hd THEN (IF Len(v.items) > 1 THEN "flv-from-join" ELSE "flv-head") ELSE "flv-live"
  IN [v |-> [v EXCEPT !.items = <<>>, !.seen = Len(out), !.lost = f.lost \/ ~f.ok],
      c |-> IF v.lost THEN <<>>
            ELSE Chk("P01", name, f.ok) \o (IF f.lost \/ ~f.ok THEN <<>> ELSE Chk("P01", "flv-nothing-else", f.i = Len(out) + 1))]

-----------------------------------------------------------------------------
(* A TS viewer's output: a list of packets                                    *)
Follow(S, ps) == FoldLeft(LAMBDA a, p : [ok |-> a.ok /\ p.cc \in a.s, s |-> {(p.cc + 1) % 16}], [ok |-> TRUE, s |-> S], ps)

Table(x, it) ==
  /\ x.ok
  /\ CASE x.pid = P!SdtPID -> P!SdtOk(x, <<>>)
       [] x.pid = P!PatPID -> P!PatOk(x)
       [] x.pid = P!PmtPID -> it[4] => P!PmtOk(x, it[2], it[3])
       [] OTHER -> FALSE

\* the packets of the frame that starts at k: up to the next start flag
Extent(ps, k) ==
  FoldLeft(LAMBDA a, j : IF a[2] THEN a ELSE IF ps[j].pusi \/ ps[j].pid # ps[k].pid THEN <<a[1], TRUE>> ELSE <<j, FALSE>>,
           <<k, FALSE>>, [j \in 1 .. (Len(ps) - k) |-> k + j])[1]

FrameOk(it, fs) ==
  LET video == it[2]  x == it[3]  key == it[4]  dts == it[5]  pts == it[6]
      pid == IF video THEN P!VideoPID ELSE P!AudioPID
      body == P!Joined(fs)
      n == P!HeaderLen(video, dts, pts) + x.n
      pad == 176 - n
      short == /\ key /\ pad > 0 /\ Len(fs) = 1 /\ Len(body) = 176 /\ fs[1].al = 7 /\ SubSeq(body, 1, pad) = P!StuffField(pad)
      pes == IF short THEN P!Rest(body, pad) ELSE body
      h == P!Pes(pes)
  IN [es |-> /\ \A k \in DOMAIN fs : P!HeadOk(fs[k], pid) /\ P!FieldOk(fs[k]) /\ fs[k].pusi = (k = 1)
             /\ h.ok /\ P!IsForm(x, P!Rest(pes, h.n)) /\ P!PesHeaderOk(h, Len(pes), video, dts, pts),
      time |-> h.ok => P!PesTimesOk(h, video, dts, pts),
      key |-> fs[1].rai = key /\ fs[1].pcr = key,
      short |-> short]

\* walk: k next packet; es, time, key, cc, tab: what was fine so far; fr: the
\* first frame items; loose: one frame may be missing or unspecified
TsItem(ps, raw, a, it) ==
  IF ~a.there THEN a
  ELSE IF it[1] = "tables"
  THEN IF Len(raw) < a.k + 2 THEN [a EXCEPT !.there = FALSE, !.tab = FALSE]
       ELSE LET xs == [j \in 1 .. 3 |-> P!Section(raw[a.k + j - 1])]
                fol(S, p) == Follow(S, SelectSeq(xs, LAMBDA x : x.ok /\ x.pid = p))
            IN [a EXCEPT !.k = @ + 3,
                         !.tab = @ /\ (\A j \in 1 .. 3 : Table(xs[j], it)) /\ Cardinality({ IF xs[j].ok THEN xs[j].pid ELSE 0 - j : j \in 1 .. 3 }) = 3,
                         !.cc = [p \in PidsT |-> fol(@[p], p).s]]
  ELSE IF Len(ps) < a.k THEN [a EXCEPT !.there = it[1] = "loose"]
  ELSE LET e == Extent(ps, a.k)
           fs == SubSeq(ps, a.k, e)
           pid == IF it[2] THEN P!VideoPID ELSE P!AudioPID
           fo == Follow(a.cc[pid], fs)
       IN IF it[1] = "loose"
          THEN [a EXCEPT !.there = FALSE, !.lost = TRUE]
          ELSE LET f == FrameOk(it, fs) IN
               [a EXCEPT !.k = e + 1, !.es = @ /\ f.es, !.time = @ /\ f.time, !.key = @ /\ f.key, !.cnt = @ /\ fo.ok,
                         !.cc = [@ EXCEPT ![pid] = fo.s], !.short = @ \/ f.short]

TsCheck(s, v, r) ==
  LET raw == SubSeq(r.out, v.seen + 1, Len(r.out))
      whole == \A k \in DOMAIN raw : P!IsWhole(raw[k])
      ps == [k \in DOMAIN raw |-> P!Packet(raw[k])]
      f == FoldLeft(LAMBDA a, it : TsItem(ps, raw, a, it),
                    [there |-> TRUE, lost |-> FALSE, k |-> 1, tab |-> TRUE, es |-> TRUE, time |-> TRUE, key |-> TRUE, cnt |-> TRUE,
                     short |-> FALSE, cc |-> v.cc], v.items)
      hd == v.items # <<>> /\ v.items[1][1] = "tables"
      frames == Cardinality({ k \in DOMAIN v.items : v.items[k][1] = "frame" })
      fv == { k \in DOMAIN v.items : v.items[k][1] = "frame" /\ v.items[k][2] }
  IN IF v.lost THEN [v |-> [v EXCEPT !.items = <<>>], c |-> <<>>]
     ELSE IF ~whole THEN [v |-> [v EXCEPT !.lost = TRUE, !.items = <<>>], c |-> Chk("P02", "ts-whole-packets", FALSE)]
     ELSE [v |-> [v EXCEPT !.items = <<>>, !.seen = Len(r.out), !.lost = f.lost \/ ~f.there, !.cc = f.cc],
           c |-> Chk("P02", IF hd THEN (IF frames > 0 THEN "ts-from-join" ELSE "ts-tables") ELSE "ts-live", f.there \/ f.lost)
                 \o (IF hd THEN Chk("P02", "ts-tables-ok", f.tab) ELSE <<>>)
                 \o (IF frames = 0 THEN <<>>
                     ELSE Chk("P02", "ts-frames", f.es) \o Chk("P02", "ts-times", f.time)
                          \o Chk("P02", "ts-random-access", f.key) \o Chk("P02", "ts-counters", f.cnt))
                 \o (IF f.short THEN Known("P02", "ts-short-key-stuffing") ELSE <<>>)
                 \o (IF ~f.there \/ f.lost THEN <<>> ELSE Chk("P02", "ts-nothing-else", f.k = Len(ps) + 1))]

-----------------------------------------------------------------------------
Live(s, v, p) ==
  IF v.kind = "flv" THEN [v EXCEPT !.items = @ \o P!FlvLive(p)]
  ELSE LET r == P!TsLive(v.w, p) IN [v EXCEPT !.w = r[1], !.items = @ \o r[2]]

Join(s, n, kind) ==
  IF kind = "flv" THEN [NewViewer(n, kind) EXCEPT !.items = P!FlvJoin(s)]
  ELSE LET r == P!TsJoin(s) IN [NewViewer(n, kind) EXCEPT !.w = r[1], !.items = r[2]]

\* all viewers' outputs at once
CheckAll(s, e) ==
  LET find(n) == CHOOSE k \in DOMAIN e.r.cons : e.r.cons[k].n = n
      one(v) == LET r == e.r.cons[find(v.n)] IN IF v.kind = "flv" THEN FlvCheck(s.s, v, r) ELSE TsCheck(s.s, v, r)
      rs == [k \in DOMAIN s.vs |-> one(s.vs[k])]
  IN [vs |-> [k \in DOMAIN rs |-> rs[k].v],
      c |-> FlattenSeq([k \in DOMAIN rs |-> rs[k].c]) \o Chks(<<"P01", "P02">>, "packets-unchanged", e.r.mut = 0)]

Judge(s, e) ==
  LET op == e.a.op IN
  IF Dead(e) THEN [st |-> s, c |-> Chks(<<"P01", "P02">>, "returns", FALSE)]
  ELSE CASE op = "new" -> [st |-> [TInit EXCEPT !.s = P!PipeInit(e.a.cap)], c |-> <<>>]
         [] op = "pub" ->
              IF ~P!Demux(e.a.t, e.a.data).ok
              THEN [st |-> s, c |-> Chks(<<"P01", "P02">>, "malformed-not-published", e.r.k = "skip")]
              ELSE LET p == P!Pub(e.a.t, e.a.data, e.a.ts) IN
                   [st |-> [s |-> P!Publish(s.s, p), vs |-> [k \in DOMAIN s.vs |-> Live(s.s, s.vs[k], p)]],
                    c |-> Chks(<<"P01", "P02">>, "published", e.r.k # "skip")]
         [] op = "join" -> [st |-> [s EXCEPT !.vs = Append(SelectSeq(@, LAMBDA v : v.n # e.a.n), Join(s.s, e.a.n, e.a.fn))],
                            c |-> Chks(<<"P01", "P02">>, "joined", e.r.k = "ok")]
         [] op = "step" -> [st |-> s, c |-> <<>>]
         [] op = "check" -> LET a == CheckAll(s, e) IN [st |-> [s EXCEPT !.vs = a.vs], c |-> a.c]
         [] op = "leave" -> LET a == CheckAll(s, e) IN
                            [st |-> [s EXCEPT !.vs = SelectSeq(a.vs, LAMBDA v : v.n # e.a.n)], c |-> a.c]
         [] OTHER -> [st |-> s, c |-> Chks(<<"P01", "P02">>, "known-op", FALSE)]

Init == pos = 1 /\ st = TInit /\ bad = <<>> /\ cov = <<>>

Step == /\ pos <= Len(Trace)
        /\ LET e == Trace[pos]
               j == Judge(st, e)
           IN /\ st' = j.st
              /\ bad' = AddBad(bad, e, j.c)
              /\ cov' = CountChecks(cov, j.c)
        /\ pos' = pos + 1

Done == /\ pos = Len(Trace) + 1
        /\ Report(pos - 1, bad, cov)
        /\ pos' = pos + 1
        /\ UNCHANGED <<st, bad, cov>>

Next == Step \/ Done
Spec == Init /\ [][Next]_<<pos, st, bad, cov>>
=============================================================================
