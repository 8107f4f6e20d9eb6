------------------------------- MODULE AmfMC --------------------------------
(* Exhaustive small-scope checks of the AMF specification itself, and the     *)
(* source of conformance inputs: token sequences that a decoder meets, and    *)
(* values an encoder is given.                                                *)
EXTENDS Amf, Json, FiniteSets

CONSTANTS Ver,            \* 0 or 3
          Depth,          \* tokens per input
          Emit

Tok0 == { <<0, 63, 240, 0, 0, 0, 0, 0, 0>>, <<1, 1>>, <<2, 0, 1, 120>>, <<5>>, <<3>>, <<0, 1, 97>>, <<0, 0, 9>>, <<0, 0>>,
          <<7, 0, 0>>, <<7, 0, 1>>, <<8, 0, 0, 0, 1>>, <<10, 0, 0, 0, 1>>, <<10, 0, 0, 0, 2>>, <<16, 0, 1, 84>>,
          <<17, 4, 1>>, <<17>>, <<4>> }
Tok3 == { <<1>>, <<4, 129, 0>>, <<6, 3, 120>>, <<6, 0>>, <<3, 97>>, <<0>>, <<9, 1>>, <<9, 5, 1>>, <<9, 3>>, <<9, 0>>,
          <<10, 11, 1>>, <<10, 19, 3, 84, 3, 97>>, <<10, 1>>, <<10, 0>>, <<10, 2>>, <<10, 7, 7, 68, 83, 65>>, <<12, 3, 7>>, <<12, 0>>,
          <<8, 1, 64, 143, 64, 0, 0, 0, 0, 0>>, <<8, 0>>, <<5, 63, 240, 0, 0, 0, 0, 0, 0>> }
Toks == IF Ver = 3 THEN Tok3 ELSE Tok0

Fresh(b, n) == Dec(b, n, Tables, <<>>)
Run(b) == D(Ver, Fresh(b, 1))

-----------------------------------------------------------------------------
(* values to encode                                                           *)
One == <<63, 240, 0, 0, 0, 0, 0, 0>>
I(k, n) == <<"int", k, <<0, 0, 0, 0, 0, 0, n \div 256, n % 256>>>>
Leaf == { <<"nil">>, <<"bool", 0>>, <<"bool", 1>>, <<"num", One>>, <<"str", <<>>>>, <<"str", <<120, 0>>>>, I("i32", 200), I("u8", 7) }
Few == { <<"nil">>, <<"str", <<120>>>>, I("i16", 130) }
KeyA == <<97>>   KeyB == <<98, 98>>
Wrap(S) == { <<"arr", <<>>>> } \cup { <<"arr", <<x>>>> : x \in S } \cup { <<"arr", <<x, y>>>> : x \in S, y \in Few }
           \cup { <<"obj", <<>>>> } \cup { <<"obj", << <<KeyA, x>> >>>> : x \in S }
           \cup { <<"obj", << <<KeyA, x>>, <<KeyB, y>> >>>> : x \in S, y \in Few }
           \cup { <<"typed", <<84>>, << <<KeyA, x>> >>>> : x \in S }
V1 == Wrap(Leaf)
V2 == Wrap(V1)
Values == Leaf \cup V1 \cup V2 \cup { <<"bin", <<1, 2>>>>, <<"strs", <<<<65>>, <<>>>>>>, <<"date", <<65, 46, 132, 128, 0, 0, 0, 0>>>>, <<"bad">> }

\* an encoder, for checking the decoder against
E16(n) == << n \div 256, n % 256 >>
ToU29(n) == IF n < 128 THEN <<n>> ELSE << 128 + n \div 128, n % 128 >>       \* up to 14 bits
RECURSIVE E0(_), E3(_)
Cat(f(_), s) == FoldLeft(LAMBDA a, x : a \o f(x), <<>>, s)
P0(p) == E16(Len(p[1])) \o p[1] \o E0(p[2])
E0(v) == CASE v[1] = "nil" -> <<5>>
           [] v[1] = "bool" -> <<1, v[2]>>
           [] v[1] = "num" -> <<0>> \o v[2]
           [] v[1] = "int" -> <<0>> \o Double(v[2], v[3])
           [] v[1] = "str" -> <<2>> \o E16(Len(v[2])) \o v[2]
           [] v[1] = "arr" -> <<10, 0, 0>> \o E16(Len(v[2])) \o Cat(E0, v[2])
           [] v[1] = "obj" -> <<3>> \o Cat(P0, v[2]) \o <<0, 0, 9>>
           [] v[1] = "typed" -> <<16>> \o E16(Len(v[2])) \o v[2] \o Cat(P0, v[3]) \o <<0, 0, 9>>
           [] v[1] = "bin" -> <<10, 0, 0>> \o E16(Len(v[2])) \o Cat(LAMBDA b : <<0>> \o Double("u8", Byte8(b)), v[2])
           [] v[1] = "strs" -> <<10, 0, 0>> \o E16(Len(v[2])) \o Cat(LAMBDA b : <<2>> \o E16(Len(b)) \o b, v[2])
           [] v[1] = "date" -> <<11>> \o v[2] \o <<0, 0>>
S3(b) == ToU29(2 * Len(b) + 1) \o b
O3(ty, ps) == <<10>> \o ToU29(16 * Len(ps) + 3) \o S3(ty) \o Cat(LAMBDA p : S3(p[1]), ps) \o Cat(LAMBDA p : E3(p[2]), ps)
E3(v) == CASE v[1] = "nil" -> <<1>>
           [] v[1] = "bool" -> <<2 + v[2]>>
           [] v[1] = "num" -> <<5>> \o v[2]
           [] v[1] = "int" -> <<4>> \o ToU29(v[3][7] * 256 + v[3][8])
           [] v[1] = "str" -> <<6>> \o S3(v[2])
           [] v[1] = "arr" -> <<9>> \o ToU29(2 * Len(v[2]) + 1) \o <<1>> \o Cat(E3, v[2])
           [] v[1] = "obj" -> O3(<<>>, v[2])
           [] v[1] = "typed" -> O3(v[2], v[3])
           [] v[1] = "bin" -> <<12>> \o S3(v[2])
           [] v[1] = "strs" -> <<9>> \o ToU29(2 * Len(v[2]) + 1) \o <<1>> \o Cat(LAMBDA b : <<6>> \o S3(b), v[2])
           [] v[1] = "date" -> <<8, 1>> \o v[2]
E(v) == IF Ver = 3 THEN E3(v) ELSE E0(v)

-----------------------------------------------------------------------------
VARIABLES b,              \* the input so far
          n,              \* its tokens
          kind,           \* "bytes" or "value"
          val
vars == <<b, n, kind, val>>

Init == \/ b = <<>> /\ n = 0 /\ kind = "bytes" /\ val = <<"nil">>
        \/ \E v \in Values : b = (IF v = <<"bad">> THEN <<>> ELSE E(v)) /\ n = 0 /\ kind = "value" /\ val = v

\* an input grows until it is a value
Incomplete == b = <<>> \/ Run(b)[2].err
Next == /\ kind = "bytes" /\ n < Depth /\ Incomplete
        /\ \E t \in Toks : b' = b \o t
        /\ n' = n + 1
        /\ UNCHANGED <<kind, val>>
Spec == Init /\ [][Next]_vars

Good == b # <<>> /\ ~Run(b)[2].err
Used == Run(b)[2].i - 1

\* A04: no strict prefix of a value is a value
Truncated == Good => \A k \in 0 .. Used - 1 : Run(SubSeq(b, 1, k))[2].err
\* A05: what follows a value changes neither it nor what it consumes
SuffixFree == Good => LET x == Run(SubSeq(b, 1, Used))  y == Run(SubSeq(b, 1, Used) \o <<5, 0, 9>>) IN
                      x[1] = y[1] /\ x[2].i = y[2].i /\ TablesOf(x[2]) = TablesOf(y[2])
\* A05: two values in a row are the values one after another
Twice == (kind = "value" /\ Good) =>
  LET x == Run(b \o b)  y == D(Ver, [x[2] EXCEPT !.refs = FALSE]) IN
  /\ x[2].i = Len(b) + 1 /\ ~y[2].err /\ y[2].i = 2 * Len(b) + 1
  /\ Wire(Ver, y[2], val, y[1])
\* A01, A02: a value's encoding is one value, and stands for it
Decodes == (kind = "value" /\ val # <<"bad">>) =>
  LET x == Run(b) IN ~x[2].err /\ ~x[2].un /\ x[2].i = Len(b) + 1 /\ Wire(Ver, x[2], val, x[1])
\* ... and for no other value (up to equal meaning)
OnlyThat == (kind = "value" /\ val \in Leaf) =>
  LET x == Run(b) IN \A w \in Leaf : Wire(Ver, x[2], w, x[1]) => w[1] = val[1] /\ (w[1] = "str" => w = val)
\* A03: every reference points at a slot that exists
SlotsExist == Good =>
  LET s == Run(b)[2]
      ok(m) == m[1] \in {"def0", "ref0"} => m[2] \in DOMAIN s.r0
      ok3(m) == m[1] \in {"def3", "ref3"} => m[2] \in DOMAIN s.obj
  IN ok(Run(b)[1]) /\ ok3(Run(b)[1]) /\ \A k \in DOMAIN s.r0 : s.r0[k][1] # "open"

EmitBehaviour ==
  Emit => (CASE kind = "value" -> PrintT("@@" \o ToJson([v |-> val]))
             [] Good \/ n = Depth -> PrintT("@@" \o ToJson([b |-> b]))
             [] OTHER -> TRUE)
=============================================================================
