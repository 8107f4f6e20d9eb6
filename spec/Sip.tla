-------------------------------- MODULE Sip ---------------------------------
(* SIP messages (RFC 3261) as goav's sips package promises them: the split    *)
(* of a byte stream into messages, first lines, header lines and header sets, *)
(* addresses, Via, CSeq and Authorization values, parameter lists, and the    *)
(* tables of methods, versions and status codes. Byte strings are sequences   *)
(* of numbers. Inputs outside the promised domain come out as "any".          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == TLCEval([c \in { SubSeq(Printable, i, i) : i \in 1 .. 95 } |->
                   31 + (CHOOSE i \in 1 .. 95 : SubSeq(Printable, i, i) = c)])
\* the bytes of a text
S(t) == TLCEval([i \in 1 .. Len(t) |-> CodeOf[SubSeq(t, i, i)]])

\* texts used below
T_sip == S("sip")
T_tel == S("tel")
T_sips == S("sips")
T_sipC == S("sip:")
T_telC == S("tel:")
T_sipsC == S("sips:")
T_SIP == S("SIP")
T_SIP20 == S("SIP/2.0/")
T_CL == S("content-length")
T_digest == S("digest ")

LF == 10  CR == 13  SP == 32  HT == 9  QUOTE == 34  BSL == 92  COMMA == 44  COLON == 58  SEMI == 59  EQ == 61
LT == 60  GT == 62  AT == 64  LBR == 91  RBR == 93
Crlf == <<CR, LF>>
Blank == {SP, HT}
White == {SP, HT, LF, CR, 11, 12}
Digit == 48 .. 57

LowerB(b) == IF b \in 65 .. 90 THEN b + 32 ELSE b
UpperB(b) == IF b \in 97 .. 122 THEN b - 32 ELSE b
Lower(s) == TLCEval([i \in DOMAIN s |-> LowerB(s[i])])
Upper(s) == TLCEval([i \in DOMAIN s |-> UpperB(s[i])])

\* position of the first byte of a set, 0 if there is none
First(s, set) ==
  FoldLeft(LAMBDA a, x : IF a[1] THEN a ELSE IF x \in set THEN <<TRUE, a[2] + 1>> ELSE <<FALSE, a[2] + 1>>,
           <<FALSE, 0>>, s)
Pos(s, set) == LET f == First(s, set) IN IF f[1] THEN f[2] ELSE 0
Keep(s, set) == SelectSeq(s, LAMBDA x : x \in set)
Only(s, set) == \A i \in DOMAIN s : s[i] \in set
None(s, set) == \A i \in DOMAIN s : s[i] \notin set
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, IF i > Len(s) THEN Len(s) ELSE i)

\* s without the bytes of a set at both ends
Trim(s, set) ==
  LET e == FoldLeft(LAMBDA a, x : <<a[1] + 1,
                                    IF x \in set THEN a[2] ELSE IF a[2] = 0 THEN a[1] + 1 ELSE a[2],
                                    IF x \in set THEN a[3] ELSE a[1] + 1>>, <<0, 0, 0>>, s)
  IN IF e[2] = 0 THEN <<>> ELSE SubSeq(s, e[2], e[3])

\* the ends of a text are ASCII, so that what counts as white space is certain
PlainEnds(s) == s = <<>> \/ (s[1] < 128 /\ s[Len(s)] < 128)

\* a decimal number: <<"ok", n>>, "huge" (no stream has that many bytes), "bad"
\* (not a number) or "any" (signed, or beyond 64 bits)
Number(s) ==
  LET sgn == s # <<>> /\ s[1] \in {43, 45}
      d == IF sgn THEN Tail(s) ELSE s
      z == Trim(d \o <<0>>, {48})
      n == Upto(z, Len(z) - 1)
  IN IF d = <<>> \/ ~Only(d, Digit) THEN <<"bad", 0>>
     ELSE IF sgn \/ Len(n) > 18 THEN <<"any", 0>>
     ELSE IF Len(n) > 9 THEN <<"huge", 0>>
     ELSE <<"ok", FoldLeft(LAMBDA a, x : a * 10 + x - 48, 0, n)>>

RECURSIVE Decimal(_)
Decimal(n) == IF n < 0 THEN <<45>> \o Decimal(0 - n)
              ELSE IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>

-----------------------------------------------------------------------------
(* Tables                                                                     *)
Methods == << S("INVITE"), S("ACK"), S("BYE"), S("CANCEL"), S("OPTIONS"), S("REGISTER"), S("PRACK"), S("SUBSCRIBE"),
              S("NOTIFY"), S("PUBLISH"), S("INFO"), S("REFER"), S("MESSAGE"), S("UPDATE"), S("PING") >>
Versions == << S("SIP/1.0"), S("SIP/2.0") >>
IndexIn(t, w) == IF \E i \in DOMAIN t : t[i] = w THEN CHOOSE i \in DOMAIN t : t[i] = w ELSE 0
MethodNo(w) == IndexIn(Methods, Upper(w))
VersionNo(w) == IndexIn(Versions, Upper(w))

Reasons ==
  100 :> "Trying" @@ 180 :> "Ringing" @@ 181 :> "Call Is Being Forwarded" @@ 182 :> "Queued" @@ 183 :> "Session Progress"
  @@ 200 :> "OK"
  @@ 300 :> "Multiple Choices" @@ 301 :> "Moved Permanently" @@ 302 :> "Moved Temporarily" @@ 305 :> "Use Proxy"
  @@ 380 :> "Alternative Service"
  @@ 400 :> "Bad Request" @@ 401 :> "Unauthorized" @@ 402 :> "Payment Required" @@ 403 :> "Forbidden" @@ 404 :> "Not Found"
  @@ 405 :> "Method Not Allowed" @@ 406 :> "Not Acceptable" @@ 407 :> "Proxy Authentication Required"
  @@ 408 :> "Request Timeout" @@ 410 :> "Gone" @@ 413 :> "Request Entity Too Large" @@ 414 :> "Request-URI Too Long"
  @@ 415 :> "Unsupported Media Type" @@ 416 :> "Unsupported URI Scheme" @@ 420 :> "Bad Extension"
  @@ 421 :> "Extension Required" @@ 423 :> "Interval Too Brief" @@ 480 :> "No Response"
  @@ 481 :> "Call/Transaction Does Not Exist" @@ 482 :> "Loop Detected" @@ 483 :> "Too Many Hops"
  @@ 484 :> "Address Incomplete" @@ 485 :> "Ambiguous" @@ 486 :> "Busy Here" @@ 487 :> "Request Terminated"
  @@ 488 :> "Not Acceptable Here" @@ 491 :> "Request Pending" @@ 493 :> "Undecipherable"
  @@ 500 :> "Server Internal Error" @@ 501 :> "Not Implemented" @@ 502 :> "Bad Gateway" @@ 503 :> "Service Unavailable"
  @@ 504 :> "Server Timeout" @@ 505 :> "Version Not Supported" @@ 513 :> "Message Too Large"
  @@ 600 :> "Busy Everywhere" @@ 603 :> "Decline" @@ 604 :> "Does Not Exist Anywhere" @@ 606 :> "Not Acceptable"
ReasonText == TLCEval([n \in DOMAIN Reasons |-> S(Reasons[n])])
Reason(n) == IF n \in DOMAIN Reasons THEN ReasonText[n] ELSE <<>>

Compacts ==
  "accept-contact" :> "a" @@ "allow-events" :> "u" @@ "call-id" :> "i" @@ "contact" :> "m" @@ "content-encoding" :> "e"
  @@ "content-length" :> "l" @@ "content-type" :> "c" @@ "event" :> "o" @@ "from" :> "f" @@ "identity" :> "y"
  @@ "refer-to" :> "r" @@ "referred-by" :> "b" @@ "reject-contact" :> "j" @@ "request-disposition" :> "d"
  @@ "session-expires" :> "x" @@ "subject" :> "s" @@ "supported" :> "k" @@ "to" :> "t" @@ "via" :> "v"
CompactOf == TLCEval([n \in { S(t) : t \in DOMAIN Compacts } |-> S(Compacts[CHOOSE t \in DOMAIN Compacts : S(t) = n])])

-----------------------------------------------------------------------------
(* Parameter lists                                                            *)

\* elements between separators outside quotes; a backslash in quotes takes the
\* next byte as it is
List(s) ==
  LET f == FoldLeft(LAMBDA a, x :
             IF a.esc THEN [a EXCEPT !.esc = FALSE, !.cur = Append(@, x)]
             ELSE IF a.q /\ x = BSL THEN [a EXCEPT !.esc = TRUE]
             ELSE IF x = QUOTE THEN [a EXCEPT !.q = ~@, !.cur = Append(@, x)]
             ELSE IF ~a.q /\ x \in {COMMA, SEMI, LF} THEN [a EXCEPT !.out = Append(@, a.cur), !.cur = <<>>]
             ELSE [a EXCEPT !.cur = Append(@, x)],
             [q |-> FALSE, esc |-> FALSE, cur |-> <<>>, out |-> <<>>], s)
      all == IF f.cur = <<>> THEN f.out ELSE Append(f.out, f.cur)
  IN [i \in DOMAIN all |-> Trim(all[i], White)]

\* whether what counts as white space in the list is certain
ListPlain(s) == \A i \in DOMAIN List(s) : PlainEnds(List(s)[i])

Unquoted(v) == IF Len(v) >= 2 /\ v[1] = QUOTE /\ v[Len(v)] = QUOTE THEN SubSeq(v, 2, Len(v) - 1) ELSE v
Pair(e) == LET i == Pos(e, {EQ}) IN
           IF i = 0 THEN <<e, <<>>>> ELSE <<Upto(e, i - 1), Unquoted(From(e, i + 1))>>

\* a set of pairs, the last of repeated names
PairSet(ps) == { ps[i] : i \in { j \in DOMAIN ps : \A k \in DOMAIN ps : k > j => ps[k][1] # ps[j][1] } }
Pairs(s) == LET l == List(Trim(s, White)) IN PairSet([i \in DOMAIN l |-> Pair(l[i])])

\* parameters that every rendering can carry
Breaks == {COMMA, SEMI, LF, CR, QUOTE}
PlainParam(p) ==
  /\ None(p[1], Breaks \cup {EQ}) /\ None(p[2], Breaks) /\ p[1] # <<>>
  /\ \A x \in {p[1], p[2]} : Trim(x, White) = x /\ PlainEnds(x)
PlainParams(a) == (\A p \in a : PlainParam(p)) /\ Cardinality({ p[1] : p \in a }) = Cardinality(a)

\* a parameter that the quoting rendering can carry
QuotableParam(p) == /\ None(p[1], Breaks \cup {EQ}) /\ p[1] # <<>> /\ Trim(p[1], White) = p[1] /\ PlainEnds(p[1])
Quotable(a) == (\A p \in a : QuotableParam(p)) /\ Cardinality({ p[1] : p \in a }) = Cardinality(a)

Quoted(v) == <<QUOTE>> \o FlattenSeq([i \in DOMAIN v |-> IF v[i] \in {QUOTE, BSL} THEN <<BSL, v[i]>> ELSE <<v[i]>>]) \o <<QUOTE>>

-----------------------------------------------------------------------------
(* Addresses and URIs                                                         *)

NoAddr == [wf |-> FALSE]
EmptyAddr == [wf |-> TRUE, typ |-> T_sip, name |-> <<>>, user |-> <<>>, host |-> <<>>, port |-> <<>>, args |-> {}]

Visible == 33 .. 126
UserSet == Visible \ {LT, GT, QUOTE, SEMI, AT, BSL}
HostSet == UserSet \ {COLON, LBR, RBR, COMMA}
RefSet == Digit \cup (65 .. 70) \cup (97 .. 102) \cup {COLON, 46}

\* the colon that starts the port, 0 if there is none; an IPv6 reference may
\* contain colons
PortColon(s) ==
  LET ref == s # <<>> /\ s[1] = LBR
      j == IF ref THEN Pos(s, {RBR}) ELSE 0
      c == Pos(From(s, j + 1), {COLON})
  IN IF (ref /\ j = 0) \/ c = 0 THEN 0 ELSE j + c

HostOk(h) == IF h # <<>> /\ h[1] = LBR
             THEN Len(h) > 2 /\ h[Len(h)] = RBR /\ Only(SubSeq(h, 2, Len(h) - 1), RefSet)
             ELSE h # <<>> /\ Only(h, HostSet)
HostPort(s) ==
  LET i == PortColon(s)
      h == IF i = 0 THEN s ELSE Upto(s, i - 1)
      p == IF i = 0 THEN <<>> ELSE From(s, i + 1)
  IN [wf |-> HostOk(h) /\ Only(p, Digit) /\ (i # 0 => p # <<>>), host |-> h, port |-> p]

\* scheme and what follows it
Scheme(s) == CASE Lower(Upto(s, 4)) = T_sipC -> <<T_sip, From(s, 5)>>
               [] Lower(Upto(s, 4)) = T_telC -> <<T_tel, From(s, 5)>>
               [] Lower(Upto(s, 5)) = T_sipsC -> <<T_sips, From(s, 6)>>
               [] OTHER -> <<>>

\* a URI without parameters; at its end args are added
Core(s, args, name) ==
  LET c == Scheme(s) IN
  IF c = <<>> THEN NoAddr
  ELSE LET r == c[2]  i == Pos(r, {AT})
           hp == HostPort(IF i = 0 THEN r ELSE From(r, i + 1))
           usr == IF i = 0 THEN <<>> ELSE Upto(r, i - 1)
       IN IF c[1] = T_tel
          THEN IF r # <<>> /\ Only(r, UserSet \ {COLON})
               THEN [wf |-> TRUE, typ |-> c[1], name |-> name, user |-> r, host |-> <<>>, port |-> <<>>, args |-> args]
               ELSE NoAddr
          ELSE IF hp.wf /\ Only(usr, UserSet) /\ (i # 0 => usr # <<>>)
          THEN [wf |-> TRUE, typ |-> c[1], name |-> name, user |-> usr, host |-> hp.host, port |-> hp.port, args |-> args]
          ELSE NoAddr

\* a request URI
Uri(s) ==
  IF s = <<>> THEN EmptyAddr
  ELSE LET i == Pos(s, {SEMI})
           c == IF i = 0 THEN s ELSE Upto(s, i - 1)
           p == IF i = 0 THEN <<>> ELSE From(s, i + 1)
       IN IF None(s, White) /\ ListPlain(p) THEN Core(c, Pairs(p), <<>>) ELSE NoAddr

\* the closing quote of a quoted-string at the start of s, 0 if there is none;
\* and its text
QuotedName(s) ==
  FoldLeft(LAMBDA a, x : IF a.end # 0 THEN a
                         ELSE LET b == [a EXCEPT !.i = @ + 1] IN
                         IF a.i = 0 THEN b
                         ELSE IF a.esc THEN [b EXCEPT !.esc = FALSE, !.t = Append(@, x)]
                         ELSE IF x = BSL THEN [b EXCEPT !.esc = TRUE]
                         ELSE IF x = QUOTE THEN [b EXCEPT !.end = a.i + 1]
                         ELSE [b EXCEPT !.t = Append(@, x)],
           [i |-> 0, esc |-> FALSE, end |-> 0, t |-> <<>>], s)

\* an address: [display name] "<" URI ">" parameters, or a URI with parameters
\* that belong to the header
Addr(src) ==
  LET s == Trim(src, {SP})
      q == IF s # <<>> /\ s[1] = QUOTE THEN QuotedName(s) ELSE [end |-> 0, t |-> <<>>]
      t0 == Pos(s, {LT, COLON, SEMI})
      tok == q.end = 0 /\ t0 # 0 /\ s[t0] = LT
      name == IF q.end # 0 THEN Trim(q.t, White) ELSE IF tok THEN Trim(Upto(s, t0 - 1), White) ELSE <<>>
      rest == Trim(IF q.end # 0 THEN From(s, q.end + 1) ELSE IF tok THEN From(s, t0) ELSE s, {SP})
      cl == Pos(rest, {GT})
  IN IF src = <<>> THEN EmptyAddr
     ELSE IF s = <<>> \/ rest = <<>> \/ ~PlainEnds(name) \/ (s[1] = QUOTE /\ q.end = 0) \/ (tok /\ Pos(name, {QUOTE}) # 0) THEN NoAddr
     ELSE IF rest[1] = LT
     THEN IF cl = 0 THEN NoAddr
          ELSE LET in == SubSeq(rest, 2, cl - 1)  out == Trim(From(rest, cl + 1), {SP})
                   k == Pos(in, {SEMI})
                   c == IF k = 0 THEN in ELSE Upto(in, k - 1)
                   p == (IF k = 0 THEN <<>> ELSE From(in, k)) \o out
               IN IF None(in, White \cup {QUOTE, LT}) /\ (out = <<>> \/ out[1] = SEMI) /\ ListPlain(p)
                  THEN Core(c, IF p = <<>> THEN {} ELSE Pairs(Tail(p)), name)
                  ELSE NoAddr
     ELSE IF q.end # 0 THEN NoAddr
     ELSE LET k == Pos(rest, {SEMI})
              c == Trim(IF k = 0 THEN rest ELSE Upto(rest, k - 1), {SP})
              p == IF k = 0 THEN <<>> ELSE From(rest, k + 1)
          IN IF None(c, White) /\ ListPlain(p) THEN Core(c, Pairs(p), <<>>) ELSE NoAddr

\* parts that an encoder must be able to carry
PartsOk(a) ==
  /\ \/ a.typ \in {T_sip, T_sips} /\ HostOk(a.host) /\ Only(a.user, UserSet)
     \/ a.typ = T_tel /\ a.user # <<>> /\ Only(a.user, UserSet \ {COLON}) /\ a.host = <<>> /\ a.port = <<>>
  /\ Only(a.port, Digit)
  /\ None(a.name, {CR, LF}) /\ Trim(a.name, White) = a.name /\ PlainEnds(a.name)
  /\ PlainParams(a.args)

\* the same parts, whatever follows of them
SameParts(a, b) == /\ a.typ = b.typ /\ a.user = b.user /\ a.host = b.host /\ a.port = b.port /\ a.args = b.args
SameAddr(a, b) == SameParts(a, b) /\ a.name = b.name

Params(a) == LET sq == SetToSeq(a) IN
             FlattenSeq([i \in DOMAIN sq |-> <<SEMI>> \o sq[i][1] \o (IF sq[i][2] = <<>> THEN <<>> ELSE <<EQ>> \o sq[i][2])])
EncCore(a) == a.typ \o <<COLON>> \o a.user \o (IF a.user # <<>> /\ a.host # <<>> THEN <<AT>> ELSE <<>>) \o a.host
              \o (IF a.port = <<>> THEN <<>> ELSE <<COLON>> \o a.port)
EncUri(a) == EncCore(a) \o Params(a.args)
EncAddr(a) == (IF a.name = <<>> THEN <<>> ELSE Quoted(a.name) \o <<SP>>) \o <<LT>> \o EncCore(a) \o <<GT>> \o Params(a.args)

-----------------------------------------------------------------------------
(* Via, CSeq, Authorization                                                   *)
NoVia == [wf |-> FALSE]
EmptyVia == [wf |-> TRUE, trans |-> <<>>, host |-> <<>>, port |-> <<>>, args |-> {}]
TransSet == Visible \ {SEMI}
Via(src) ==
  LET s == Trim(src, {SP})
      r == From(s, 9)
      i == Pos(r, {SP, SEMI})
      tr == IF i = 0 THEN r ELSE Upto(r, i - 1)
      r2 == IF i = 0 THEN <<>> ELSE From(r, i)
      k == Pos(r2, {SEMI})
      by == Trim(IF k = 0 THEN r2 ELSE Upto(r2, k - 1), {SP})
      p == IF k = 0 THEN <<>> ELSE From(r2, k + 1)
      j == PortColon(by)
      hp == HostPort(IF j = 0 THEN by ELSE Trim(Upto(by, j - 1), {SP}) \o <<COLON>> \o Trim(From(by, j + 1), {SP}))
  IN IF src = <<>> THEN EmptyVia
     ELSE IF Upper(Upto(s, 8)) # T_SIP20 \/ tr = <<>> \/ ~Only(tr, TransSet) \/ ~hp.wf \/ ~ListPlain(p) THEN NoVia
     ELSE [wf |-> TRUE, trans |-> tr, host |-> hp.host, port |-> hp.port, args |-> Pairs(p)]
ViaOk(v) == /\ v.trans # <<>> /\ Only(v.trans, TransSet) /\ HostOk(v.host)
            /\ Only(v.port, Digit) /\ PlainParams(v.args)
EncVia(v) == T_SIP20 \o v.trans \o <<SP>> \o v.host \o (IF v.port = <<>> THEN <<>> ELSE <<COLON>> \o v.port) \o Params(v.args)

CSeqOf(s) ==
  LET i == Pos(s, {SP})
      d == IF i = 0 THEN s ELSE Upto(s, i - 1)
      m == IF i = 0 THEN <<>> ELSE Trim(From(s, i), {SP})
  IN [wf |-> Only(d, Digit) /\ Only(m, Visible) /\ (s # <<>> => d # <<>> /\ m # <<>>), id |-> d, method |-> m]

Auth(s) == IF Len(s) >= 8 /\ Lower(Upto(s, 7)) = T_digest THEN Pairs(From(s, 8)) ELSE {}

-----------------------------------------------------------------------------
(* Header sets: a sequence of <<name, values>>, each name once                *)
HName(n) == Lower(n)
HIndex(h, n) == IF \E i \in DOMAIN h : h[i][1] = n THEN CHOOSE i \in DOMAIN h : h[i][1] = n ELSE 0
HRaw(h, n) == IF HIndex(h, n) = 0 THEN <<>> ELSE h[HIndex(h, n)][2]
HGet(h, name) ==
  LET n == HName(name) IN
  IF HRaw(h, n) # <<>> THEN HRaw(h, n)
  ELSE IF n \in DOMAIN CompactOf THEN HRaw(h, CompactOf[n]) ELSE <<>>
HFirst(h, name) == LET v == HGet(h, name) IN IF v = <<>> THEN <<>> ELSE v[1]
HDel(h, n) == SelectSeq(h, LAMBDA x : x[1] # n)
HPut(h, n, vs) == IF HIndex(h, n) = 0 THEN Append(h, <<n, vs>>) ELSE [h EXCEPT ![HIndex(h, n)] = <<n, vs>>]
HSet(h, name, v) ==
  LET n == HName(name) IN
  HPut(IF n \in DOMAIN CompactOf THEN HDel(h, CompactOf[n]) ELSE h, n, <<v>>)
RECURSIVE HCopy(_, _, _)
HCopy(d, h, names) == IF names = <<>> THEN d ELSE HCopy(HSet(d, Head(names), HFirst(h, Head(names))), h, Tail(names))
AsSet(h) == { h[i] : i \in DOMAIN h }

\* a received header line; last is the name of the header it may continue
HLine(p, line) ==
  IF line = <<>> THEN p
  ELSE IF line[1] \in Blank
  THEN LET vs == HRaw(p.h, p.last)
           c == Trim(line, White)
           v == vs[Len(vs)]
           w == Trim(v \o <<SP>> \o c, White)
       IN IF vs = <<>> THEN p
          ELSE [p EXCEPT !.h = HPut(@, p.last, [vs EXCEPT ![Len(vs)] = w]),
                         !.any = @ \/ ~PlainEnds(c) \/ ~PlainEnds(w) \/ ~PlainEnds(v)]
  ELSE LET i == Pos(line, {COLON}) IN
       IF i = 0 THEN p
       ELSE LET n == Lower(Trim(Upto(line, i - 1), Blank))
                v == Trim(From(line, i + 1), Blank)
            IN [h |-> HPut(p.h, n, Append(HRaw(p.h, n), v)), last |-> n,
                any |-> p.any \/ \E j \in DOMAIN n : n[j] > 127]
HNone == [h |-> <<>>, last |-> <<>>, any |-> FALSE]

-----------------------------------------------------------------------------
(* Messages                                                                   *)
MaxLine == 4095       \* the longest line a reader takes for certain

\* the lines of the header section, up to the first empty one
Lines(s) ==
  LET f == FoldLeft(LAMBDA a, x :
             IF a.done THEN a
             ELSE IF x # LF THEN [a EXCEPT !.i = @ + 1, !.e = @ /\ x = CR]
             ELSE IF a.e THEN [a EXCEPT !.done = TRUE, !.i = @ + 1]
             ELSE [a EXCEPT !.i = @ + 1, !.b = a.i + 2, !.e = TRUE, !.ls = Append(@, <<a.b, a.i + 1>>)],
             [i |-> 0, b |-> 1, e |-> TRUE, done |-> FALSE, ls |-> <<>>], s)
      \* a last line without a line feed
      open == ~f.done /\ f.i >= f.b
      tail == <<f.b, f.i>>
      ls == IF open /\ ~f.e THEN Append(f.ls, tail) ELSE f.ls
      \* the separator: the empty line
      sep == IF f.done \/ (open /\ f.e) THEN SubSeq(s, f.b, f.i) ELSE <<>>
  IN [ls |-> ls, head |-> IF ls = <<>> THEN 0 ELSE ls[Len(ls)][2], sep |-> sep]

\* "SIP/2.0 200 OK" or "INVITE uri SIP/2.0"
FirstLine(l) ==
  LET i == Pos(l, {SP})
      r == IF i = 0 THEN <<>> ELSE From(l, i + 1)
      j == Pos(r, {SP})
      a == Upto(l, i - 1)  b == Upto(r, j - 1)  c == From(r, j + 1)
      n == Number(b)
      no == [k |-> "err"]
  IN IF i = 0 \/ j = 0 THEN no
     ELSE IF Upper(Upto(a, 3)) = T_SIP
     THEN IF VersionNo(a) = 0 \/ n[1] = "bad" THEN no
          ELSE IF n[1] # "ok" THEN [k |-> "any"]
          ELSE [k |-> "ok", resp |-> 1, ver |-> VersionNo(a), method |-> 0, code |-> n[2], status |-> c, uri |-> <<>>]
     ELSE IF \E x \in {a, c} : \E p \in DOMAIN x : x[p] > 127 THEN [k |-> "any"]
     ELSE IF MethodNo(a) = 0 \/ VersionNo(c) = 0 THEN no
     ELSE [k |-> "ok", resp |-> 0, ver |-> VersionNo(c), method |-> MethodNo(a), code |-> 0, status |-> <<>>, uri |-> b]

\* the message at the start of a stream: what it says, and how much it takes
Msg(s) ==
  LET ln == Lines(s)
      txt(k) == Trim(SubSeq(s, ln.ls[k][1], ln.ls[k][2]), {CR, LF})
      f == FirstLine(txt(1))
      p == FoldLeft(LAMBDA a, k : HLine(a, txt(k)), HNone, [k \in 1 .. Len(ln.ls) - 1 |-> k + 1])
      n == Number(HFirst(p.h, T_CL))
      h == ln.head + Len(ln.sep)
      left == Len(s) - h
      len == IF n[1] = "huge" THEN left ELSE IF n[2] > left THEN left ELSE n[2]
  IN IF ln.ls = <<>> THEN [k |-> "err"]
     ELSE IF Len(ln.sep) > MaxLine \/ \E k \in DOMAIN ln.ls : ln.ls[k][2] - ln.ls[k][1] >= MaxLine THEN [k |-> "any"]
     ELSE IF f.k # "ok" THEN f
     ELSE IF p.any \/ n[1] = "any" THEN [k |-> "any"]
     ELSE IF n[1] = "bad" THEN [k |-> "err"]
     ELSE [k |-> "ok", f |-> f, hdrs |-> p.h, head |-> ln.head, sep |-> ln.sep,
           body |-> SubSeq(s, h + 1, h + len), used |-> h + len,
           whole |-> ln.sep # <<>> /\ n[1] # "huge" /\ len = n[2]]

\* a stream of messages: those before the first that is not one
RECURSIVE Stream(_, _)
Stream(s, n) ==
  IF n = 0 THEN [ms |-> <<>>, k |-> "ok", rest |-> s]
  ELSE LET m == Msg(s) IN
       IF m.k # "ok" THEN [ms |-> <<>>, k |-> m.k, rest |-> s]
       ELSE LET t == Stream(From(s, m.used + 1), n - 1) IN [t EXCEPT !.ms = <<m>> \o @]

\* values that can stand on one line
LineValue(v) == None(v, {CR, LF}) /\ Trim(v, White) = v /\ PlainEnds(v)
LineName(n) == n # <<>> /\ Only(n, Visible \ {COLON}) 

\* an encoder, for checking the definitions above: the header set in order
EncHdrs(h) == FlattenSeq([i \in DOMAIN h |-> FlattenSeq([j \in DOMAIN h[i][2] |-> h[i][1] \o <<COLON, SP>> \o h[i][2][j] \o Crlf])])
EncMsg(first, h, body) == first \o Crlf \o EncHdrs(HSet(h, T_CL, Decimal(Len(body)))) \o Crlf \o body
EncRequest(m, uri, v) == Methods[m] \o <<SP>> \o uri \o <<SP>> \o Versions[v]
EncResponse(c, v) == Versions[v] \o <<SP>> \o Decimal(c) \o <<SP>> \o Reason(c)
=============================================================================
