------------------------------ MODULE SipAddr -------------------------------
(* Every combination of the parts of an address, a request URI and a Via      *)
(* value, and of the ways RFC 3261 lets them be written: all of them read     *)
(* back as the same parts. Also the source of conformance inputs.             *)
EXTENDS Sip, Json

CONSTANTS Emit, Deep

Names == { <<>>, S("Anonymous"), S("Bob"), S("A. B"), S("q\"u\\o") \o <<206, 177>> \o S(";t,e<d>:@ x"), <<120, 9, 121>> }
         \cup (IF Deep THEN {S("\\"), S("\""), S("sip:a@b"), <<97, 9, 98>>, <<120, 1, 127, 194, 160, 33>>} ELSE {})
Users == { <<>>, S("bob"), S("+1-2(3)"), S("u:p%20,=?/") }
Hosts == { S("h"), S("a-1.example.com"), S("192.0.2.1"), S("[2001:db8::1]") }
Ports == { <<>>, S("5060") }
ArgSets == { {}, { <<S("tag"), S("a48s")>> }, { <<S("lr"), <<>>>>, <<S("q"), S("0.7")>> } }
           \cup (IF Deep THEN { { <<S("x"), S("=y")>>, <<S("TAG"), S("b c")>>, <<S("n"), <<33, 206, 177, 33>>>> } } ELSE {})
Trans == { S("UDP"), S("TLS-SCTP"), S("ws") }

Parts(t, n, u, h, p, a) == [wf |-> TRUE, typ |-> t, name |-> n, user |-> u, host |-> h, port |-> p, args |-> a]
Addrs == { Parts(t, n, u, h, p, a) : t \in {S("sip"), S("sips")}, n \in Names, u \in Users, h \in Hosts, p \in Ports, a \in ArgSets }
         \cup { Parts(S("tel"), n, u, <<>>, <<>>, a) : n \in Names, u \in {S("+12125551212"), S("110")}, a \in ArgSets }
Vias == { [wf |-> TRUE, trans |-> t, host |-> h, port |-> p, args |-> a] : t \in Trans, h \in Hosts, p \in Ports, a \in ArgSets }

VARIABLE x            \* what is encoded
Init == x \in Addrs \cup Vias
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

IsA == "typ" \in DOMAIN x
HasSp(a) == \E p \in a : ~None(p[2], White)
Plain(n) == \A k \in DOMAIN n : n[k] \in Visible \cup {SP} /\ n[k] \notin {QUOTE, BSL, LT, GT, SEMI, COLON, COMMA, AT}

\* the ways an address may be written
Quot == IF x.name = <<>> THEN <<>> ELSE Quoted(x.name)
Inside == <<LT>> \o EncCore(x) \o Params(x.args) \o <<GT>>
Written ==
  { EncAddr(x), EncAddr([x EXCEPT !.typ = Upper(@)]),
    Quot \o <<LT>> \o EncCore(x) \o <<GT>> \o Params(x.args),
    <<SP>> \o Quot \o <<SP, SP, LT>> \o EncCore(x) \o <<GT, SP>> \o Params(x.args) \o <<SP>> }
  \cup (IF ~HasSp(x.args) THEN { Quot \o <<SP>> \o Inside } ELSE {})
  \cup (IF Plain(x.name) THEN { x.name \o <<SP, LT>> \o EncCore(x) \o <<GT>> \o Params(x.args) } ELSE {})
  \cup (IF x.name = <<>> THEN { EncUri(x), EncUri([x EXCEPT !.typ = Upper(@)]), <<SP>> \o EncCore(x) \o (IF x.args = {} THEN <<>> ELSE <<SP>>) \o Params(x.args) } ELSE {})
WrittenVia ==
  { EncVia(x),
    S("SIP/2.0/") \o x.trans \o <<SP, SP>> \o x.host \o (IF x.port = <<>> THEN <<>> ELSE <<SP, COLON, SP>> \o x.port) \o <<SP>> \o Params(x.args),
    <<SP>> \o EncVia(x) }

AddressesRead == IsA => (PartsOk(x) /\ \A w \in Written : Addr(w).wf /\ SameAddr(Addr(w), x))
UrisRead == (IsA /\ ~HasSp(x.args)) =>
  \A w \in {EncUri(x), EncUri([x EXCEPT !.typ = Upper(@)])} : Uri(w).wf /\ SameParts(Uri(w), x)
ViasRead == ~IsA => (ViaOk(x) /\ \A w \in WrittenVia : Via(w) = x)

EmitBehaviour ==
  Emit => PrintT("@@" \o ToJson(IF IsA THEN [a |-> x, w |-> SetToSeq(Written), u |-> IF x.name = <<>> /\ ~HasSp(x.args) THEN <<EncUri(x)>> ELSE <<>>]
                                ELSE [v |-> x, w |-> SetToSeq(WrittenVia)]))
=============================================================================
