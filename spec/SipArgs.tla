------------------------------ MODULE SipArgs -------------------------------
(* Every short text over names, separators, quotes, escapes and white space:  *)
(* what splitting and parsing promise about it, without using the definition  *)
(* of the split. Also the source of conformance inputs.                       *)
EXTENDS Sip, Json

CONSTANTS Depth, Alphabet, Emit

VARIABLE s
Init == s = <<>>
Next == Len(s) < Depth /\ \E b \in Alphabet : s' = Append(s, b)
Spec == Init /\ [][Next]_s

\* inside quotes after the first n bytes: "out", "in" or "esc"
RECURSIVE Mode(_)
Mode(n) == IF n = 0 THEN "out"
           ELSE LET m == Mode(n - 1)  b == s[n] IN
                CASE m = "esc" -> "in"
                  [] m = "in" -> IF b = BSL THEN "esc" ELSE IF b = QUOTE THEN "out" ELSE "in"
                  [] OTHER -> IF b = QUOTE THEN "in" ELSE "out"
Seps == {COMMA, SEMI, LF}
Cuts == { n \in DOMAIN s : s[n] \in Seps /\ Mode(n - 1) = "out" }
Escapes == { n \in DOMAIN s : s[n] = BSL /\ Mode(n - 1) = "in" }

\* nothing is lost: the bytes of the elements are the bytes of the text but for
\* separators, escapes and white space
NothingLost ==
  LET all == FlattenSeq(List(s))
      kept == [n \in DOMAIN s |-> IF n \in Cuts \cup Escapes THEN <<>> ELSE <<s[n]>>]
      solid(x) == SelectSeq(x, LAMBDA b : b \notin White)
  IN solid(all) = solid(FlattenSeq(kept))
Elements == Len(List(s)) = Cardinality(Cuts) + (IF s = <<>> \/ Len(s) \in Cuts THEN 0 ELSE 1)
Trimmed == \A k \in DOMAIN List(s) : LET e == List(s)[k] IN e = <<>> \/ (e[1] \notin White /\ e[Len(e)] \notin White)
\* any text can be a quoted value
QuotedBack == Pairs(<<120, EQ>> \o Quoted(s) \o <<COMMA, SP, 121>>) = { <<<<120>>, s>>, <<<<121>>, <<>>>> }
OnePerName == \A p, q \in Pairs(s) : p[1] = q[1] => p = q
LastWins == LET l == List(Trim(s, White)) IN (l # <<>> => Pair(l[Len(l)]) \in Pairs(s))

EmitBehaviour == Emit => PrintT("@@" \o ToJson(s))
=============================================================================
