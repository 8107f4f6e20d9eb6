------------------------------ MODULE SipMsg --------------------------------
(* Streams of messages: sequences of a small alphabet of messages, built      *)
(* piece by piece, are split where they were joined, and each one says what   *)
(* it was built from. Source of conformance streams.                          *)
EXTENDS Sip, Json

CONSTANTS Depth, Emit, Kinds

Lf == <<LF>>
Join(ls, nl) == FoldLeft(LAMBDA a, l : a \o l \o nl, <<>>, ls)
Req == S("INVITE sip:bob@biloxi.com:5060;user=phone SIP/2.0")
Rsp == S("SIP/2.0 486 Busy  Here")
ViaL == S("Via: SIP/2.0/UDP pc33.atlanta.com;branch=z9hG4bK776asdhds")
B1 == S("v=0") \o Crlf \o Crlf \o S("BYE sip:x@y SIP/2.0") \o Crlf
Run(b, n) == [k \in 1 .. n |-> (b + k) % 256]

\* lines, line end, separator, body, and whether it is a message
M(n) ==
  CASE n = "req" -> [ls |-> <<Req, ViaL, S("Content-Length: 0")>>, nl |-> Crlf, body |-> <<>>, ok |-> TRUE]
    [] n = "body" -> [ls |-> <<S("message sip:a@b sip/1.0"), S("l: ") \o Decimal(Len(B1)), S("From: \"A\" <sip:a@b>;tag=1")>>, nl |-> Crlf, body |-> B1, ok |-> TRUE]
    [] n = "lf" -> [ls |-> <<Rsp, S("CONTENT-LENGTH:5"), S("CSeq: 4711 INVITE")>>, nl |-> Lf, body |-> <<10, 10, 13, 10, 0>>, ok |-> TRUE]
    [] n = "fold" -> [ls |-> <<S("SIP/2.0 200 "), S("Content-Length:"), S(" 3"), S("Subject: a"), <<HT>> \o S("b"), S("Subject: c")>>, nl |-> Crlf, body |-> <<1, 2, 3>>, ok |-> TRUE]
    [] n = "big" -> [ls |-> <<S("OPTIONS sip:h SIP/2.0"), S("Content-Length: 5000"), S("garbage"), S("v: SIP/2.0/WS h")>>, nl |-> Crlf, body |-> Run(7, 5000), ok |-> TRUE]
    [] n = "dup" -> [ls |-> <<S("PING tel:1 SIP/2.0"), S("Content-Length: 2"), S("Content-Length: 9"), S("l: 1"), S("Route: b"), S("Route: a")>>, nl |-> Crlf, body |-> <<13, 10>>, ok |-> TRUE]
    [] n = "nolen" -> [ls |-> <<Req, ViaL>>, nl |-> Crlf, body |-> <<>>, ok |-> FALSE]
    [] n = "badlen" -> [ls |-> <<Req, S("Content-Length: 0x4")>>, nl |-> Crlf, body |-> <<1, 2, 3, 4>>, ok |-> FALSE]
    [] n = "nover" -> [ls |-> <<S("INVITE sip:bob@biloxi.com"), S("Content-Length: 0")>>, nl |-> Crlf, body |-> <<>>, ok |-> FALSE]
    [] n = "badver" -> [ls |-> <<S("INVITE sip:bob@biloxi.com SIP/3.0"), S("Content-Length: 0")>>, nl |-> Crlf, body |-> <<>>, ok |-> FALSE]
    [] n = "badmeth" -> [ls |-> <<S("INVITES sip:bob@biloxi.com SIP/2.0"), S("Content-Length: 0")>>, nl |-> Crlf, body |-> <<>>, ok |-> FALSE]
    [] n = "badcode" -> [ls |-> <<S("SIP/2.0 2x0 OK"), S("Content-Length: 0")>>, nl |-> Crlf, body |-> <<>>, ok |-> FALSE]
    [] n = "blank" -> [ls |-> <<>>, nl |-> Crlf, body |-> <<>>, ok |-> FALSE]
AllKinds == {"req", "body", "lf", "fold", "big", "dup", "nolen", "badlen", "nover", "badver", "badmeth", "badcode", "blank"}
Enc(n) == LET m == M(n) IN Join(m.ls, m.nl) \o m.nl \o m.body

VARIABLES h, s
vars == <<h, s>>
Init == h = <<>> /\ s = <<>>
Next == Len(h) < Depth /\ \E n \in Kinds : h' = Append(h, n) /\ s' = s \o Enc(n)
Spec == Init /\ [][Next]_vars

Firsts == "req" :> <<0, 2, 1>> @@ "body" :> <<0, 1, 13>> @@ "lf" :> <<1, 2, 486>> @@ "fold" :> <<1, 2, 200>> @@ "big" :> <<0, 2, 5>> @@ "dup" :> <<0, 2, 15>>
Headers == "req" :> { <<S("via"), <<From(ViaL, 6)>>>>, <<S("content-length"), <<S("0")>>>> }
           @@ "body" :> { <<S("l"), <<Decimal(Len(B1))>>>>, <<S("from"), <<S("\"A\" <sip:a@b>;tag=1")>>>> }
           @@ "lf" :> { <<S("content-length"), <<S("5")>>>>, <<S("cseq"), <<S("4711 INVITE")>>>> }
           @@ "fold" :> { <<S("content-length"), <<S("3")>>>>, <<S("subject"), <<S("a b"), S("c")>>>> }
           @@ "big" :> { <<S("content-length"), <<S("5000")>>>>, <<S("v"), <<S("SIP/2.0/WS h")>>>> }
           @@ "dup" :> { <<S("content-length"), <<S("2"), S("9")>>>>, <<S("l"), <<S("1")>>>>, <<S("route"), <<S("b"), S("a")>>>> }
\* the number of messages before the first that is not one
Good == LET f == SelectInSeq(h, LAMBDA n : ~M(n).ok) IN IF f = 0 THEN Len(h) ELSE f - 1
Split == LET t == Stream(s, Len(h)) IN
  /\ Len(t.ms) = Good /\ (t.k = "ok" <=> Good = Len(h)) /\ (t.k # "ok" => t.k = "err")
  /\ \A k \in 1 .. Good :
       LET m == t.ms[k]  n == h[k]  f == Firsts[n] IN
       /\ m.used = Len(Enc(n)) /\ m.body = M(n).body /\ m.sep = M(n).nl
       /\ m.f.resp = f[1] /\ m.f.ver = f[2] /\ f[3] = (IF f[1] = 1 THEN m.f.code ELSE m.f.method)
       /\ AsSet(m.hdrs) = Headers[n]
  /\ Good = Len(h) => t.rest = <<>>
\* a message built from one that was read says the same
Rebuilt == \A k \in 1 .. Good :
  LET m == Msg(Enc(h[k]))
      first == IF m.f.resp = 1 THEN EncResponse(m.f.code, m.f.ver) ELSE EncRequest(m.f.method, m.f.uri, m.f.ver)
      o == Msg(EncMsg(first, m.hdrs, m.body))
  IN /\ o.k = "ok" /\ o.body = m.body /\ o.f.resp = m.f.resp /\ o.f.code = m.f.code /\ o.f.method = m.f.method /\ o.f.uri = m.f.uri
     /\ AsSet(HDel(o.hdrs, S("content-length"))) = AsSet(HDel(HDel(m.hdrs, S("content-length")), S("l")))
     /\ HGet(o.hdrs, S("Content-Length")) = <<Decimal(Len(m.body))>>

EmitBehaviour == (Emit /\ Len(h) = Depth) => PrintT("@@" \o ToJson([stream |-> h]))
EmitMessages == (Emit /\ h = <<>>) => PrintT("@@" \o ToJson([msgs |-> [n \in AllKinds |-> Enc(n)]]))
=============================================================================
