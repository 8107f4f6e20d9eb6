------------------------------ MODULE SipHdr --------------------------------
(* A header set under every short history of received lines, sets and        *)
(* deletions by their compact forms: what lookups find, and that encoding     *)
(* it and reading the lines gives the same set. Source of behaviours.         *)
EXTENDS Sip, Json

CONSTANTS Depth, Emit, LineSet

Line(n) ==
  CASE n = "to1" -> S("To: <sip:a@b>")
    [] n = "t1" -> S("t:sip:c@d;tag=1")
    [] n = "T2" -> S("T :  sip:e@f")
    [] n = "via1" -> S("VIA: SIP/2.0/UDP h")
    [] n = "v1" -> S("v: SIP/2.0/TCP i:1")
    [] n = "len" -> S("Content-Length:") \o <<HT>> \o S(" 12 ")
    [] n = "l" -> S("L: 7")
    [] n = "x" -> S("X-Foo: a:b;c")
    [] n = "empty" -> S("Subject:")
    [] n = "noname" -> S(": v")
    [] n = "junk" -> S("no colon here")
    [] n = "fold" -> <<SP, SP>> \o S("more ;z ")
    [] n = "tab" -> <<HT>> \o S("tabbed")
Sets == { <<S("To"), S("sip:g@h")>>, <<S("t"), S("sip:i@j")>>, <<S("VIA"), S("SIP/2.0/TLS k")>>, <<S("content-length"), S("3")>>,
          <<S("subject"), <<>>>>, <<S("x-foo"), S("y")>> }
Names == { n \in { S(t) : t \in {"to", "t", "via", "v", "content-length", "l", "subject", "s", "x-foo", "cseq"} } : TRUE }

VARIABLES p, h
vars == <<p, h>>
Init == p = HNone /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \/ \E n \in LineSet : p' = HLine(p, Line(n)) /\ h' = Append(h, [k |-> "line", d |-> Line(n), n |-> <<>>, v |-> <<>>])
           \/ \E x \in Sets : p' = [p EXCEPT !.h = HSet(@, x[1], x[2])] /\ h' = Append(h, [k |-> "set", d |-> <<>>, n |-> x[1], v |-> x[2]])
Spec == Init /\ [][Next]_vars

LowerNames == \A k \in DOMAIN p.h : p.h[k][1] = Lower(p.h[k][1])
OncePerName == \A j, k \in DOMAIN p.h : p.h[j][1] = p.h[k][1] => j = k
\* any letter case, and the compact form when there is no long one
Found == \A n \in Names :
  /\ HGet(p.h, n) = HGet(p.h, Upper(n))
  /\ HGet(p.h, n) = (IF \E k \in DOMAIN p.h : p.h[k][1] = n THEN HRaw(p.h, n)
                     ELSE IF n \in DOMAIN CompactOf THEN HRaw(p.h, CompactOf[n]) ELSE <<>>)
  /\ HFirst(p.h, n) = (IF HGet(p.h, n) = <<>> THEN <<>> ELSE Head(HGet(p.h, n)))
\* what was just set is found
JustSet == \A n \in { Lower(h[k].n) : k \in DOMAIN h } :
  LET at == { k \in DOMAIN h : h[k].k = "set" /\ Lower(h[k].n) = n }
      last == CHOOSE k \in at : \A j \in at : j <= k
  IN (n # <<>> /\ at # {} /\ last = Len(h)) => HGet(p.h, n) = << h[last].v >>
\* a set leaves other headers alone and removes the compact form
SetOnly == [][ LET e == h'[Len(h')] IN
               e.k = "set" =>
                 LET n == Lower(e.n)  gone == IF n \in DOMAIN CompactOf THEN {CompactOf[n]} ELSE {} IN
                 /\ HRaw(p'.h, n) = <<e.v>>
                 /\ \A g \in gone : HIndex(p'.h, g) = 0
                 /\ \A m \in { p.h[k][1] : k \in DOMAIN p.h } \cup { p'.h[k][1] : k \in DOMAIN p'.h } :
                       m \notin gone \cup {n} => HRaw(p'.h, m) = HRaw(p.h, m) ]_vars
\* a line adds one value to one header, or extends the last one
LineOnly == [][ LET e == h'[Len(h')]
                    cnt(q) == FoldLeft(LAMBDA a, x : a + Len(x[2]), 0, q.h)
                IN e.k = "line" => cnt(p') = cnt(p) + (IF e.d[1] \in Blank \/ Pos(e.d, {COLON}) = 0 THEN 0 ELSE 1) ]_vars
\* encoded and read again
Again == LET ls == Lines(EncHdrs(p.h) \o Crlf)
             raw == EncHdrs(p.h)
             q == FoldLeft(LAMBDA a, k : HLine(a, Trim(SubSeq(raw, ls.ls[k][1], ls.ls[k][2]), {CR, LF})), HNone, [k \in DOMAIN ls.ls |-> k])
         IN AsSet(q.h) = AsSet(p.h)
Sure == ~p.any

EmitBehaviour == (Emit /\ Len(h) = Depth) => PrintT("@@" \o ToJson([hist |-> h]))
=============================================================================
