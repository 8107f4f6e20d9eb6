------------------------------ MODULE TraceSip ------------------------------
(* Recorded calls of the sips package, checked against module Sip.            *)
EXTENDS Sip, TraceLib

VARIABLES pos, st, bad, cov

AllS == <<"S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08">>

\* a header set, to which lines can be added
TInit == HNone

CL == S("content-length")
XShare == S("x-share")

\* an address, URI or Via value of the implementation
AddrOf(x) == [wf |-> TRUE, typ |-> x.typ, name |-> x.name, user |-> x.user, host |-> x.host, port |-> x.port, args |-> ToSet(x.args)]
ViaOf(x) == [wf |-> TRUE, trans |-> x.trans, host |-> x.host, port |-> x.port, args |-> ToSet(x.args)]
IsAddr(w, x) == w.wf => (x.z = 0 /\ SameAddr(w, AddrOf(x)))
IsUri(w, x) == w.wf => (x.z = 0 /\ SameParts(w, AddrOf(x)))
IsVia(w, x) == w.wf => (x.z = 0 /\ w = ViaOf(x))
IsCseq(w, x) == w.wf => (x.z = 0 /\ w.id = x.id /\ w.method = x.method)

\* the parts an operation asks to encode
GivenAddr(a) == [wf |-> TRUE, typ |-> a.flds[1], name |-> a.flds[2], user |-> a.flds[3], host |-> a.flds[4], port |-> a.flds[5],
                 args |-> ToSet(a.args)]
GivenUri(a) == [GivenAddr(a) EXCEPT !.name = <<>>]
GivenVia(a, k) == [wf |-> TRUE, trans |-> a.flds[1], host |-> a.flds[k], port |-> a.flds[k + 1], args |-> ToSet(a.args)]

-----------------------------------------------------------------------------
(* Messages                                                                   *)

\* the body, with or without the separator line before it
IsBody(m, x) == x.body = m.body \/ x.body = m.sep \o m.body

Startline(m, x) ==
  /\ x.resp = m.f.resp /\ x.ver = m.f.ver
  /\ IF m.f.resp = 1 THEN x.code = m.f.code /\ x.status = m.f.status
     ELSE x.method = m.f.method /\ IsUri(Uri(m.f.uri), x.req)
Derived(m, x) == /\ IsAddr(Addr(HFirst(m.hdrs, S("from"))), x.from)
                 /\ IsAddr(Addr(HFirst(m.hdrs, S("to"))), x.to)
                 /\ IsAddr(Addr(HFirst(m.hdrs, S("contact"))), x.contact)
DerivedVia(m, x) == /\ IsVia(Via(HFirst(m.hdrs, S("via"))), x.via)
                    /\ IsCseq(CSeqOf(HFirst(m.hdrs, S("cseq"))), x.cseq)

\* the source breaks where its data ends: what has arrived whole is a message, and
\* nothing else is
BreaksOff(e) == "chunk" \in DOMAIN e.a /\ e.a.chunk \in {-3, -4}
MsgOf(e, s) == LET m == Msg(s) IN IF BreaksOff(e) /\ m.k = "ok" /\ ~m.whole THEN [k |-> "err", broken |-> TRUE] ELSE m
IsBroken(m) == "broken" \in DOMAIN m

\* x is what parsing the start of s gave, of which m is the specification
ParsedAs(m, s, x) ==
  IF m.k = "any" THEN <<>>
  ELSE IF IsBroken(m) THEN Chk("S03", "broken", x.k = "err")
  ELSE IF m.k = "err" THEN Chk("S01", "refused", x.k = "err")
  ELSE Chks(<<"S01", "S03">>, "accepted", x.k = "ok")
       \o (IF x.k # "ok" THEN <<>> ELSE
           Chk("S01", "first-line", Startline(m, x))
           \o Chk("S01", "headers", ToSet(x.hdrs) = AsSet(m.hdrs))
           \o Chk("S01", "header-section", x.head = Upto(s, m.head))
           \o Chk("S03", "body", IsBody(m, x))
           \o Chk("S05", "addresses", Derived(m, x) /\ (m.f.resp = 0 => IsUri(Uri(m.f.uri), x.req)))
           \o Chk("S06", "via-cseq", DerivedVia(m, x)))

\* a message that has arrived is returned without asking for more: the source, which
\* hands out c bytes at most, was last asked before the message was complete
Prompt(e, off, x) == x.eofs = 0 /\ (e.a.chunk > 0 => x.taken < off + e.a.chunk)

\* the messages of a stream one after another
RECURSIVE Follow(_, _, _, _, _)
Follow(e, s, got, rest, acc) ==
  IF got = <<>> THEN acc \o Chk("S03", "rest", rest = s)
  ELSE LET m == MsgOf(e, s)  x == Head(got) IN
       IF m.k = "any" THEN acc
       ELSE IF IsBroken(m) THEN acc \o ParsedAs(m, s, x)
       ELSE IF m.k = "err" THEN acc \o Chks(<<"S01", "S03">>, "refused", x.k = "err")
       ELSE IF x.k # "ok" THEN acc \o Chks(<<"S01", "S03">>, "accepted", FALSE)
       ELSE Follow(e, From(s, m.used + 1), Tail(got), rest,
                   acc \o ParsedAs(m, s, x)
                       \o (IF m.whole THEN Chk("S03", "returns-at-once", Prompt(e, Len(e.a.data) - Len(s) + m.used, x)) ELSE <<>>))

\* the header set of a message to be built
GivenHdrs(a) == [k \in DOMAIN a.hdrs |-> <<Lower(a.hdrs[k][1]), Tail(a.hdrs[k])>>]
Buildable(a) ==
  /\ IF a.fn = "resp" THEN a.num >= 0
     ELSE a.num \in 1 .. Len(Methods) /\ PartsOk(GivenUri(a))
          /\ \A p \in ToSet(a.args) : None(p[1], White) /\ None(p[2], White)
  /\ \A k \in DOMAIN a.hdrs : /\ LineName(a.hdrs[k][1])
                              /\ \A v \in DOMAIN a.hdrs[k] : LineValue(a.hdrs[k][v])
  /\ LET h == GivenHdrs(a) IN
     /\ \A j, k \in DOMAIN h : h[j][1] = h[k][1] => j = k
     /\ \A k \in DOMAIN h : h[k][1] \in {CL, CompactOf[CL]} => a.hdrs[k][1] = h[k][1]

\* the message m that was built says what was asked for
Says(a, m) ==
  LET h == HSet(SelectSeq(GivenHdrs(a), LAMBDA x : x[2] # <<>>), CL, Decimal(Len(a.data)))
      v == IF a.ver = 1 THEN 1 ELSE 2
  IN /\ m.k = "ok" /\ m.f.ver = v
     /\ IF a.fn = "resp" THEN m.f.resp = 1 /\ m.f.code = a.num /\ m.f.status = Reason(a.num)
        ELSE m.f.resp = 0 /\ m.f.method = a.num /\ Uri(m.f.uri).wf /\ SameParts(Uri(m.f.uri), GivenUri(a))
     /\ AsSet(m.hdrs) = AsSet(h)
     /\ m.body = a.data

MakeJudge(e) ==
  LET m == Msg(e.r.out) IN
  IF ~Buildable(e.a) THEN <<>>
  ELSE Chk("S02", IF e.a.fn = "resp" THEN "response" ELSE "request", Says(e.a, m))
       \o Chk("S02", "nothing-behind", m.k = "ok" => m.used = Len(e.r.out))
       \o Chk("S02", "reads-back", m.k = "ok" =>
              /\ e.r.m2.k = "ok" /\ Startline(m, e.r.m2) /\ ToSet(e.r.m2.hdrs) = AsSet(m.hdrs) /\ IsBody(m, e.r.m2))

TwiceJudge(e) ==
  LET n == Len(e.r.out) \div 2
      one == Upto(e.r.out, n)
      m == Msg(e.r.out)
  IN IF ~Buildable(e.a) THEN <<>>
     ELSE IF e.a.data = <<>> /\ Lines(one).sep = <<>>
     THEN Known("S03", "sip-no-separator") \o Chk("S03", "bodiless", Says(e.a, Msg(one)))
     ELSE Chk("S03", "built-back-to-back",
              /\ m.k = "ok" /\ m.used = n
              /\ \A x \in {e.r.m1, e.r.m2} : /\ x.k = "ok" /\ Startline(m, x) /\ ToSet(x.hdrs) = AsSet(m.hdrs)
                                             /\ (x.body = e.a.data \/ x.body = m.sep \o e.a.data)
              /\ e.r.rest = <<>>)

\* parse, encode, parse
NoCr(h) == \A x \in AsSet(h) : None(x[1], {CR}) /\ \A k \in DOMAIN x[2] : LineValue(x[2][k]) /\ Len(x[2][k]) < 2000
ReencJudge(e) ==
  LET m == Msg(e.a.data)
      o == Msg(e.r.out)
      x == e.r.m1  y == e.r.m2
      same == /\ o.k = "ok" /\ o.f.resp = m.f.resp /\ o.f.ver = m.f.ver
              /\ IF m.f.resp = 1 THEN o.f.code = m.f.code
                 ELSE o.f.method = m.f.method /\ (Uri(m.f.uri).wf /\ PartsOk(Uri(m.f.uri)) => SameParts(Uri(m.f.uri), Uri(o.f.uri)))
              /\ AsSet(HDel(o.hdrs, CL)) = AsSet(HDel(HDel(m.hdrs, CL), CompactOf[CL]))
              /\ HGet(o.hdrs, CL) = << Decimal(Len(o.body)) >>
      \* the separator before the body became part of it
      grown == m.sep # <<>> /\ x.body = m.sep \o m.body /\ o.k = "ok" /\ o.body = m.sep \o m.body
  IN ParsedAs(m, e.a.data, x)
     \o (IF m.k # "ok" \/ x.k # "ok" \/ ~NoCr(m.hdrs) \/ (m.f.resp = 0 /\ ~Uri(m.f.uri).wf) THEN <<>>
         ELSE IF m.f.resp = 0 /\ ~PartsOk(Uri(m.f.uri)) THEN <<>>
         ELSE Chk("S02", "re-encoded", same)
              \o Chk("S02", "same-body", o.k = "ok" => (o.body = m.body \/ grown))
              \o (IF grown THEN Known("S02", "sip-body-separator") ELSE <<>>)
              \o Chk("S02", "reads-back", o.k = "ok" => /\ y.k = "ok" /\ Startline(o, y) /\ ToSet(y.hdrs) = AsSet(o.hdrs) /\ IsBody(o, y)))

-----------------------------------------------------------------------------
(* Values                                                                     *)
UserJudge(e) ==
  LET a == Addr(e.a.s1) IN
  IF ~a.wf THEN <<>>
  ELSE Chk("S05", "address", IsAddr(a, e.r.u))
       \o Chk("S05", "address-to-uri", IsUri(a, e.r.conv))
       \o (IF a.typ # <<>> /\ PartsOk(a)
           THEN Chk("S05", "address-again", Addr(e.r.out).wf /\ SameAddr(Addr(e.r.out), a) /\ IsAddr(a, e.r.u2)) ELSE <<>>)
UserbJudge(e) ==
  LET a == GivenAddr(e.a) IN
  IF ~PartsOk(a) THEN <<>>
  ELSE Chk("S05", "address-encoded", Addr(e.r.out).wf /\ SameAddr(Addr(e.r.out), a)) \o Chk("S05", "address-read-back", IsAddr(a, e.r.u2))
UriJudge(e) ==
  LET a == Uri(e.a.s1) IN
  IF ~a.wf THEN <<>>
  ELSE Chk("S05", "uri", IsUri(a, e.r.u))
       \o Chk("S05", "uri-to-address", IsUri(a, e.r.conv))
       \o (IF PartsOk(a) THEN Chk("S05", "uri-again", Uri(e.r.out).wf /\ SameParts(Uri(e.r.out), a) /\ IsUri(a, e.r.u2)) ELSE <<>>)
UribJudge(e) ==
  LET a == GivenUri(e.a) IN
  IF ~PartsOk(a) \/ \E p \in a.args : ~None(p[1], White) \/ ~None(p[2], White) THEN <<>>
  ELSE Chk("S05", "uri-encoded", Uri(e.r.out).wf /\ SameParts(Uri(e.r.out), a)) \o Chk("S05", "uri-read-back", IsUri(a, e.r.u2))
ViaJudge(e) ==
  LET v == Via(e.a.s1) IN
  IF ~v.wf THEN <<>>
  ELSE Chk("S06", "via", IsVia(v, e.r.u))
       \o (IF v.trans # <<>> /\ ViaOk(v) THEN Chk("S06", "via-again", Via(e.r.out) = v /\ IsVia(v, e.r.u2)) ELSE <<>>)
ViabJudge(e) ==
  LET v == GivenVia(e.a, 2) IN
  IF ~ViaOk(v) THEN <<>>
  ELSE Chk("S06", "via-encoded", Via(e.r.out) = v) \o Chk("S06", "via-read-back", IsVia(v, e.r.u2))
CseqJudge(e) ==
  LET c == CSeqOf(e.a.s1) IN
  IF ~c.wf THEN <<>>
  ELSE Chk("S06", "cseq", IsCseq(c, e.r.u)) \o (IF e.a.s1 = <<>> THEN <<>> ELSE Chk("S06", "cseq-again", CSeqOf(e.r.out) = c /\ IsCseq(c, e.r.u2)))

ArgsOf(x) == ToSet(x)
\* blanks around the '=' may be trimmed or not
Blanky(s) == \E k \in DOMAIN List(s) : LET p == Pair(List(s)[k]) IN Trim(p[1], White) # p[1] \/ Trim(p[2], White) # p[2]
PairsJudge(e) ==
  LET j == Pos(e.a.s1, {SEMI})
      s == IF e.a.fn # "semi" THEN e.a.s1 ELSE IF j = 0 THEN <<>> ELSE From(e.a.s1, j + 1)
  IN IF ~ListPlain(Trim(s, White)) \/ Blanky(Trim(s, White)) THEN <<>> ELSE Chk("S07", "pairs", ArgsOf(e.r.args) = Pairs(s))
ListJudge(e) == IF ~ListPlain(e.a.s1) THEN <<>> ELSE Chk("S07", "list", e.r.list = List(e.a.s1))
ArgstrJudge(e) ==
  LET a == ToSet(e.a.args)  fn == e.a.fn IN
  IF fn = "comma" /\ ~Quotable(a) THEN <<>>
  ELSE IF fn # "comma" /\ ~PlainParams(a) THEN <<>>
  ELSE Chk("S07", "rendered-" \o fn,
                IF fn = "semi" THEN (e.r.out = <<>> \/ e.r.out[1] = SEMI) /\ Pairs(From(e.r.out, 2)) = a ELSE Pairs(e.r.out) = a)
       \o Chk("S07", "rendered-reads-back", ArgsOf(e.r.args) = a)
ArgopJudge(e) ==
  LET a == ToSet(e.a.args)
      old == { p \in a : p[1] = e.a.s1 }
  IN Chk("S07", "as-a-map", /\ e.r.got = (IF old = {} THEN <<>> ELSE (CHOOSE p \in old : TRUE)[2])
                            /\ ArgsOf(e.r.set) = (a \ old) \cup {<<e.a.s1, e.a.s2>>}
                            /\ ArgsOf(e.r.del) = a \ old)

Ascii(s) == \A k \in DOMAIN s : s[k] < 128
WordJudge(e, t, n) ==
  IF ~Ascii(e.a.s1) THEN <<>>
  ELSE LET w == IndexIn(t, Upper(e.a.s1)) IN
       IF w = 0 THEN Chk("S08", n \o "-refused", e.r.k = "err")
       ELSE Chk("S08", n, e.r.k = "ok" /\ e.r.num = w /\ e.r.str = t[w])
SubstrOf(s, from, to) ==
  LET f == IF from < 0 THEN 0 ELSE from  t == IF to < 0 THEN 0 ELSE to IN SubSeq(s, f + 1, IF t > Len(s) THEN Len(s) ELSE t)

-----------------------------------------------------------------------------
(* Header sets                                                                *)
HJ(p, c) == [st |-> p, c |-> c]
\* what the target of a copy holds already
Holding(e) == IF "args" \in DOMAIN e.a
              THEN FoldLeft(LAMBDA d, x : HPut(d, x[1], Append(HRaw(d, x[1]), x[2])), <<>>, e.a.args) ELSE <<>>
\* the header set after the call is h
Now(p, e, n, c) == HJ(p, IF p.any THEN <<>> ELSE Chk("S04", n, ToSet(e.r.hdrs) = AsSet(p.h)) \o c)

Split(s) ==
  FoldLeft(LAMBDA a, x : IF x = LF THEN [out |-> Append(a.out, a.cur), cur |-> <<>>] ELSE [a EXCEPT !.cur = Append(@, x)],
           [out |-> <<>>, cur |-> <<>>], s)
Listed(h, out) ==
  LET sp == Split(out)
      ls == [k \in DOMAIN sp.out |-> Trim(sp.out[k], {CR})]
      mine(n) == SelectSeq(ls, LAMBDA l : Upto(l, Len(n) + 1) = n \o <<COLON>>)
  IN /\ sp.cur = <<>>
     /\ \A x \in AsSet(h) : mine(x[1]) = [k \in DOMAIN x[2] |-> x[1] \o <<COLON, SP>> \o x[2][k]]
     /\ Len(ls) = FoldLeft(LAMBDA a, x : a + Len(x[2]), 0, h)
Encodable(h) == \A x \in AsSet(h) : LineName(x[1]) /\ \A k \in DOMAIN x[2] : LineValue(x[2][k])

NamedJudge(p, e) ==
  LET f(n) == HFirst(p.h, S(n))
      n == Number(f("content-length"))
  IN Now(p, e, "unchanged",
         Chk("S04", "content-length", CASE n[1] = "bad" -> e.r.clk = "err"
                                        [] n[1] = "ok" -> e.r.clk = "ok" /\ e.r.cl = n[2]
                                        [] OTHER -> TRUE)
         \o Chk("S04", "named", /\ e.r.callid = f("call-id") /\ e.r.expires = f("expires")
                                /\ IsAddr(Addr(f("from")), e.r.from) /\ IsAddr(Addr(f("to")), e.r.to)
                                /\ IsAddr(Addr(f("contact")), e.r.contact)
                                /\ IsVia(Via(f("via")), e.r.via) /\ IsCseq(CSeqOf(f("cseq")), e.r.cseq))
         \o (IF ListPlain(Trim(From(f("authorization"), 8), White)) /\ ~Blanky(Trim(From(f("authorization"), 8), White))
             THEN Chks(<<"S04", "S06">>, "authorization", ArgsOf(e.r.auth) = Auth(f("authorization"))) ELSE <<>>))

SetnJudge(p, e) ==
  LET fn == e.a.fn
      n == S(fn)
      v == HRaw(e.r.hdrs, n)
      one == Len(v) = 1
      set(x) == Now([p EXCEPT !.h = HSet(@, n, x)], e, "set-named", <<>>)
      enc(ok) == Now([p EXCEPT !.h = HSet(@, n, IF one THEN v[1] ELSE <<>>)], e, "set-named", Chk("S04", "set-encoded", one /\ ok))
  IN CASE fn \in {"content-length", "max-forwards"} -> set(Decimal(e.a.num))
       [] fn \in {"from", "to", "contact"} ->
            enc(LET a == GivenAddr(e.a) IN PartsOk(a) => (Addr(v[1]).wf /\ SameAddr(Addr(v[1]), a)))
       [] fn = "cseq" -> set(e.a.s1 \o <<SP>> \o e.a.s2)
       [] fn = "via" -> enc(LET a == GivenVia(e.a, 4) IN ViaOk(a) => Via(v[1]) = a)
       [] OTHER -> set(e.a.s1)

Judge(s, e) ==
  LET op == e.a.op  k == e.r.k IN
  CASE Dead(e) -> [st |-> s, c |-> Chks(AllS, "returns", FALSE)]
    [] op = "new" -> [st |-> TInit, c |-> <<>>]
    [] op = "parse" ->
         LET m == MsgOf(e, e.a.data) IN
         HJ(s, ParsedAs(m, e.a.data, e.r)
               \o (IF m.k = "ok" /\ k = "ok" THEN Chk("S03", "rest", e.r.rest = From(e.a.data, m.used + 1)) ELSE <<>>)
               \o Chk("S01", "returns", k \in {"ok", "err"}))
    [] op = "parseb" -> HJ(s, ParsedAs(Msg(e.a.data), e.a.data, e.r) \o Chk("S01", "returns", k \in {"ok", "err"}))
    [] op = "stream" -> HJ(s, Follow(e, e.a.data, e.r.msgs, e.r.rest, <<>>) \o Chk("S03", "some", Len(e.r.msgs) <= e.a.num))
    [] op = "reenc" -> HJ(s, IF e.r.m1.k = "ok" THEN ReencJudge(e) ELSE ParsedAs(Msg(e.a.data), e.a.data, e.r.m1))
    [] op = "make" -> HJ(s, MakeJudge(e))
    [] op = "twice" -> HJ(s, TwiceJudge(e))
    [] op = "user" -> HJ(s, UserJudge(e))
    [] op = "userb" -> HJ(s, UserbJudge(e))
    [] op = "uri" -> HJ(s, UriJudge(e))
    [] op = "urib" -> HJ(s, UribJudge(e))
    [] op = "via" -> HJ(s, ViaJudge(e))
    [] op = "viab" -> HJ(s, ViabJudge(e))
    [] op = "cseq" -> HJ(s, CseqJudge(e))
    [] op = "auth" -> HJ(s, LET p == Trim(From(e.a.s1, 8), White) IN
                            IF ListPlain(p) /\ ~Blanky(p) THEN Chk("S06", "authorization", ArgsOf(e.r.args) = Auth(e.a.s1)) ELSE <<>>)
    [] op = "pairs" -> HJ(s, PairsJudge(e))
    [] op = "list" -> HJ(s, ListJudge(e))
    [] op = "argstr" -> HJ(s, ArgstrJudge(e))
    [] op = "argop" -> HJ(s, ArgopJudge(e))
    [] op = "status" -> HJ(s, Chk("S08", "status", e.r.text = Reason(e.a.num) /\ e.r.str = Decimal(e.a.num) /\ e.r.int = e.a.num))
    [] op = "method" -> HJ(s, WordJudge(e, Methods, "method"))
    [] op = "version" -> HJ(s, WordJudge(e, Versions, "version"))
    [] op = "substr" -> HJ(s, Chk("S05", "substring", e.r.out = SubstrOf(e.a.s1, e.a.num, e.a.n)))
    [] op = "hset" -> Now([s EXCEPT !.h = HSet(@, e.a.s1, e.a.s2)], e, "set", <<>>)
    [] op = "hraw" -> Now([s EXCEPT !.h = HPut(@, e.a.s1, e.a.flds)], e, "map", <<>>)
    [] op = "hline" -> Now(HLine(s, e.a.data), e, "line", <<>>)
    [] op = "hcopy" -> Now(s, e, "unchanged", Chk("S04", "copied", ToSet(e.r.copy) = AsSet(HCopy(Holding(e), s.h, e.a.flds))))
    [] op = "hshare" -> Now(s, e, "unchanged", Chk("S04", "replaced", ToSet(e.r.copy) = AsSet(HSet(<<>>, XShare, e.a.s2))))
    [] op = "hget" -> Now(s, e, "unchanged", Chk("S04", "found", e.r.all = HGet(s.h, e.a.s1) /\ e.r.first = HFirst(s.h, e.a.s1)))
    [] op = "hnamed" -> NamedJudge(s, e)
    [] op = "hsetn" -> SetnJudge(s, e)
    [] op = "hbytes" -> Now(s, e, "unchanged", IF Encodable(s.h) THEN Chks(<<"S04", "S02">>, "encoded", Listed(s.h, e.r.out)) ELSE <<>>)
    [] OTHER -> [st |-> s, c |-> Chks(AllS, "known-op", FALSE)]

Init == pos = 1 /\ st = TInit /\ bad = <<>> /\ cov = <<>>

Step == /\ pos <= Len(Trace)
        /\ LET e == Trace[pos]
               j == Judge(st, e)
           IN /\ st' = j.st
              /\ bad' = AddBad(bad, e, j.c)
              /\ cov' = CountChecks(cov, j.c)
        /\ pos' = pos + 1

Done == /\ pos = Len(Trace) + 1
        /\ Report(pos - 1, bad, cov)
        /\ pos' = pos + 1
        /\ UNCHANGED <<st, bad, cov>>

Next == Step \/ Done
Spec == Init /\ [][Next]_<<pos, st, bad, cov>>
=============================================================================
