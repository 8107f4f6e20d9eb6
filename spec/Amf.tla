--------------------------------- MODULE Amf --------------------------------
(* AMF0 and AMF3: what a sequence of bytes means, in the order a decoder      *)
(* meets them, with the reference tables both formats define.                 *)
(*                                                                            *)
(* A decoder state s holds the bytes, the position, the reference tables and  *)
(* what went wrong. Decoding yields a node; composite nodes live in the       *)
(* tables (def/ref nodes name a slot), so cyclic values are finite.           *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Tables == [r0 |-> <<>>,      \* AMF0: complex values
           str |-> <<>>,     \* AMF3: strings
           obj |-> <<>>,     \* AMF3: complex values
           tr |-> <<>>]      \* AMF3: traits

\* hd: registered external types, a sequence of <<name, "one" | "fail">>
Dec(b, i, t, hd) ==
  [b |-> b, i |-> i, r0 |-> t.r0, str |-> t.str, obj |-> t.obj, tr |-> t.tr, hd |-> hd,
   err |-> FALSE,      \* the bytes are not a value
   un |-> FALSE,       \* the formats leave the meaning open
   refs |-> FALSE,     \* a reference was followed
   oth |-> FALSE]      \* dynamic or externalizable traits were used

TablesOf(s) == [r0 |-> s.r0, str |-> s.str, obj |-> s.obj, tr |-> s.tr]

Nil == <<"nil">>
Bad(s) == [s EXCEPT !.err = TRUE]
No(s) == <<Nil, Bad(s)>>

Left(s) == Len(s.b) - s.i + 1
Adv(s, n) == [s EXCEPT !.i = @ + n]
At(s, k) == s.b[s.i + k]
Cut(s, n) == SubSeq(s.b, s.i, s.i + n - 1)

\* <<bytes, s>> of the next n bytes
Take(s, n) == IF n > Left(s) THEN <<<<>>, Bad(s)>> ELSE <<Cut(s, n), Adv(s, n)>>

\* a 32-bit count or length, -1 if it exceeds any input
Num32(s) == IF At(s, 0) > 0 \/ At(s, 1) > 127 THEN -1 ELSE At(s, 1) * 65536 + At(s, 2) * 256 + At(s, 3)

Str16(s) == IF Left(s) < 2 THEN <<<<>>, Bad(s)>>
            ELSE Take(Adv(s, 2), At(s, 0) * 256 + At(s, 1))

Str32(s) == IF Left(s) < 4 \/ Num32(s) < 0 THEN <<<<>>, Bad(s)>>
            ELSE Take(Adv(s, 4), Num32(s))

\* <<value, bytes used, s>>
U29(s) ==
  IF Left(s) < 1 THEN <<0, 0, Bad(s)>>
  ELSE LET a == At(s, 0) IN
  IF a < 128 THEN <<a, 1, Adv(s, 1)>>
  ELSE IF Left(s) < 2 THEN <<0, 0, Bad(s)>>
  ELSE LET b == At(s, 1) IN
  IF b < 128 THEN <<(a - 128) * 128 + b, 2, Adv(s, 2)>>
  ELSE IF Left(s) < 3 THEN <<0, 0, Bad(s)>>
  ELSE LET c == At(s, 2) IN
  IF c < 128 THEN <<(a - 128) * 16384 + (b - 128) * 128 + c, 3, Adv(s, 3)>>
  ELSE IF Left(s) < 4 THEN <<0, 0, Bad(s)>>
  ELSE <<(a - 128) * 4194304 + (b - 128) * 32768 + (c - 128) * 256 + At(s, 3), 4, Adv(s, 4)>>

ShortestU29(v, n) == n = (IF v < 128 THEN 1 ELSE IF v < 16384 THEN 2 ELSE IF v < 2097152 THEN 3 ELSE 4)

Signed29(v) == IF v >= 268435456 THEN v - 536870912 ELSE v

\* AMF3 strings: a reference, or a literal that takes a slot unless it is empty
Str3(s) ==
  LET u == U29(s)  t == u[3] IN
  IF t.err THEN <<<<>>, t>>
  ELSE IF u[1] % 2 = 0
       THEN LET k == u[1] \div 2 IN
            IF k >= Len(t.str) THEN <<<<>>, Bad(t)>> ELSE <<t.str[k + 1], [t EXCEPT !.refs = TRUE]>>
       ELSE LET r == Take(t, u[1] \div 2) IN
            IF r[2].err \/ r[1] = <<>> THEN r
            ELSE <<r[1], [r[2] EXCEPT !.str = Append(@, r[1])]>>

\* tables
Open0(s, kind) == [s EXCEPT !.r0 = Append(@, <<"open", kind>>)]
Set0(s, k, n) == [s EXCEPT !.r0[k] = n]
Open3(s, kind) == [s EXCEPT !.obj = Append(@, <<"open", kind>>)]
Set3(s, k, n) == [s EXCEPT !.obj[k] = n]

DSAFields == << << "body", "clientId", "destination", "headers", "messageId", "timeStamp", "timeToLive" >>,
                << "clientIdBytes", "messageIdBytes" >> >>
DSAOwn == << << "correlationId", "correlationIdBytes" >> >>

\* ASCII of the names used above
AscMap == << <<"body", <<98,111,100,121>>>>,
             <<"clientId", <<99,108,105,101,110,116,73,100>>>>,
             <<"destination", <<100,101,115,116,105,110,97,116,105,111,110>>>>,
             <<"headers", <<104,101,97,100,101,114,115>>>>,
             <<"messageId", <<109,101,115,115,97,103,101,73,100>>>>,
             <<"timeStamp", <<116,105,109,101,83,116,97,109,112>>>>,
             <<"timeToLive", <<116,105,109,101,84,111,76,105,118,101>>>>,
             <<"clientIdBytes", <<99,108,105,101,110,116,73,100,66,121,116,101,115>>>>,
             <<"messageIdBytes", <<109,101,115,115,97,103,101,73,100,66,121,116,101,115>>>>,
             <<"correlationId", <<99,111,114,114,101,108,97,116,105,111,110,73,100>>>>,
             <<"correlationIdBytes", <<99,111,114,114,101,108,97,116,105,111,110,73,100,66,121,116,101,115>>>> >>
Asc(x) == AscMap[CHOOSE k \in DOMAIN AscMap : AscMap[k][1] = x][2]

NameDSA == <<68, 83, 65>>
NameDSK == <<68, 83, 75>>
NameAC  == <<102,108,101,120,46,109,101,115,115,97,103,105,110,103,46,105,111,46,65,114,114,97,121,67,111,108,108,101,99,116,105,111,110>>

Digits(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>>
             ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
ExtraName(i, j) == <<101, 120, 116, 114, 97, 95>> \o Digits(i) \o <<95>> \o Digits(j)

RECURSIVE D0(_), Props0(_, _), Elems0(_, _)
RECURSIVE D3(_), Props3(_, _, _), Dyn3(_, _), Elems3(_, _), Keys3(_, _, _), Ext(_, _, _), Flags(_, _), Sets(_, _, _, _)

-----------------------------------------------------------------------------
(* AMF0                                                                       *)

\* name/value pairs up to the end marker
Props0(s, acc) ==
  LET k == Str16(s)  t == k[2] IN
  IF t.err THEN <<acc, t>>
  ELSE IF k[1] = <<>>
       THEN IF Left(t) < 1 \/ At(t, 0) # 9 THEN <<acc, Bad(t)>> ELSE <<acc, Adv(t, 1)>>
       ELSE LET v == D0(t) IN
            IF v[2].err THEN <<acc, v[2]>> ELSE Props0(v[2], Append(acc, <<k[1], v[1]>>))

\* n values, the first half before the second (the depth of recursion stays small)
Elems0(s, n) ==
  IF n = 0 THEN <<<<>>, s>>
  ELSE IF n = 1 THEN LET v == D0(s) IN <<IF v[2].err THEN <<>> ELSE <<v[1]>>, v[2]>>
  ELSE LET a == Elems0(s, n \div 2) IN
       IF a[2].err THEN a
       ELSE LET b == Elems0(a[2], n - n \div 2) IN <<a[1] \o b[1], b[2]>>

Obj0(s) ==
  LET k == Len(s.r0) + 1
      p == Props0(Open0(s, "obj"), <<>>)
  IN IF p[2].err THEN No(p[2]) ELSE << <<"def0", k>>, Set0(p[2], k, <<"obj", p[1], <<>>>>) >>

D0(s) ==
  IF Left(s) < 1 THEN No(s)
  ELSE LET m == At(s, 0)  t == Adv(s, 1) IN
  CASE m = 0 -> (IF Left(t) < 8 THEN No(t) ELSE << <<"num", Cut(t, 8)>>, Adv(t, 8) >>)
    [] m = 1 -> (IF Left(t) < 1 THEN No(t) ELSE << <<"bool", At(t, 0)>>, Adv(t, 1) >>)
    [] m = 2 -> LET r == Str16(t) IN << <<"str", r[1]>>, r[2] >>
    [] m = 3 -> Obj0(t)
    [] m = 5 -> << Nil, t >>
    [] m = 6 -> << <<"undef">>, t >>
    [] m = 13 -> << <<"unsup">>, t >>
    [] m = 7 ->
         (IF Left(t) < 2 THEN No(t)
          ELSE LET k == At(t, 0) * 256 + At(t, 1) + 1 IN
               IF k > Len(t.r0) THEN No(t)
               ELSE << <<"ref0", k>>,
                       [Adv(t, 2) EXCEPT !.refs = TRUE, !.un = @ \/ t.r0[k] = <<"open", "arr">>] >>)
    [] m = 8 ->
         (IF Left(t) < 4 THEN No(t)
          ELSE LET k == Len(t.r0) + 1
                   p == Props0(Open0(Adv(t, 4), "obj"), <<>>)
               IN IF p[2].err THEN No(p[2])
                  ELSE << <<"def0", k>>, Set0(p[2], k, <<"obj", p[1], <<>>, Cut(t, 4)>>) >>)
    [] m = 10 ->
         (IF Left(t) < 4 \/ Num32(t) < 0 \/ Num32(t) > Left(t) THEN No(t)
          ELSE LET k == Len(t.r0) + 1
                   e == Elems0(Open0(Adv(t, 4), "arr"), Num32(t))
               IN IF e[2].err THEN No(e[2]) ELSE << <<"def0", k>>, Set0(e[2], k, <<"arr", e[1]>>) >>)
    [] m = 11 -> (IF Left(t) < 10 THEN No(t) ELSE << <<"date0", Cut(t, 8), Cut(Adv(t, 8), 2)>>, Adv(t, 10) >>)
    [] m = 12 -> LET r == Str32(t) IN << <<"lstr", r[1]>>, r[2] >>
    [] m = 15 -> LET r == Str32(t) IN << <<"xml0", r[1]>>, r[2] >>
    [] m = 16 ->
         LET y == Str16(t) IN
         IF y[2].err THEN No(y[2])
         ELSE LET k == Len(y[2].r0) + 1
                  p == Props0(Open0(y[2], "obj"), <<>>)
              IN IF p[2].err THEN No(p[2]) ELSE << <<"def0", k>>, Set0(p[2], k, <<"typed", y[1], p[1]>>) >>
    [] m = 17 -> D3(t)
    [] OTHER -> No(t)

-----------------------------------------------------------------------------
(* AMF3                                                                       *)
Keys3(s, n, acc) ==
  IF n = 0 THEN <<acc, s>>
  ELSE LET k == Str3(s) IN IF k[2].err THEN <<acc, k[2]>> ELSE Keys3(k[2], n - 1, Append(acc, k[1]))

\* n values, the first half before the second (the depth of recursion stays small)
Elems3(s, n) ==
  IF n = 0 THEN <<<<>>, s>>
  ELSE IF n = 1 THEN LET v == D3(s) IN <<IF v[2].err THEN <<>> ELSE <<v[1]>>, v[2]>>
  ELSE LET a == Elems3(s, n \div 2) IN
       IF a[2].err THEN a
       ELSE LET b == Elems3(a[2], n - n \div 2) IN <<a[1] \o b[1], b[2]>>

\* values of the sealed members
Props3(s, keys, acc) ==
  IF keys = <<>> THEN <<acc, s>>
  ELSE LET v == D3(s) IN
       IF v[2].err THEN <<acc, v[2]>> ELSE Props3(v[2], Tail(keys), Append(acc, <<Head(keys), v[1]>>))

\* name/value pairs up to the empty name
Dyn3(s, acc) ==
  LET k == Str3(s) IN
  IF k[2].err THEN <<acc, k[2]>>
  ELSE IF k[1] = <<>> THEN <<acc, k[2]>>
  ELSE LET v == D3(k[2]) IN
       IF v[2].err THEN <<acc, v[2]>> ELSE Dyn3(v[2], Append(acc, <<k[1], v[1]>>))

\* flag bytes up to one without the continuation bit
Flags(s, acc) ==
  IF Left(s) < 1 THEN <<acc, Bad(s)>>
  ELSE IF At(s, 0) < 128 THEN <<Append(acc, At(s, 0)), Adv(s, 1)>>
  ELSE Flags(Adv(s, 1), Append(acc, At(s, 0)))

\* the fields announced by flag bytes: a sequence of names
Announced(fl, sets) ==
  LET names(i) == IF i <= Len(sets) THEN sets[i] ELSE <<>>
      one(i) ==
        LET ns == names(i)
            bits == [j \in 1 .. 7 |-> (fl[i] \div (2 ^ (j - 1))) % 2 = 1]
        IN FlattenSeq([j \in 1 .. 7 |->
             IF ~bits[j] THEN <<>>
             ELSE IF j <= Len(ns) THEN << Asc(ns[j]) >> ELSE << ExtraName(i - 1, j - 1) >>])
  IN FlattenSeq([i \in DOMAIN fl |-> one(i)])

\* groups of announced fields, read one after another into one object
Sets(s, groups, n, acc) ==
  IF n > Len(groups) THEN <<acc, s>>
  ELSE LET f == Flags(s, <<>>) IN
       IF f[2].err THEN <<acc, f[2]>>
       ELSE LET p == Props3(f[2], Announced(f[1], groups[n]), acc) IN
            IF p[2].err THEN p ELSE Sets(p[2], groups, n + 1, p[1])

\* the body of an externalizable object in slot k
Ext(s, ty, k) ==
  IF ty = NameDSA \/ ty = NameDSK
  THEN LET groups == IF ty = NameDSA THEN <<DSAFields, DSAOwn>> ELSE <<DSAFields, DSAOwn, <<>>>>
           p == Sets(s, groups, 1, <<>>)
       IN IF p[2].err THEN No(p[2]) ELSE << <<"def3", k>>, Set3(p[2], k, <<"obj", p[1], ty>>) >>
  ELSE IF ty = NameAC
  THEN LET v == D3(s) IN IF v[2].err THEN v ELSE << <<"def3", k>>, Set3(v[2], k, <<"alias", v[1]>>) >>
  ELSE LET h == SelectInSeq(s.hd, LAMBDA x : x[1] = ty) IN
       IF h = 0 THEN No(s)
       ELSE IF s.hd[h][2] = "fail" THEN No(s)
       ELSE LET v == D3(s) IN IF v[2].err THEN v ELSE << <<"def3", k>>, Set3(v[2], k, <<"alias", v[1]>>) >>

\* a reference to a complex value; need: the node kinds allowed there ({}: any)
RECURSIVE Base3(_, _)
Base3(s, k) == IF s.obj[k][1] = "alias" /\ s.obj[k][2][1] \in {"def3", "ref3"} THEN Base3(s, s.obj[k][2][2]) ELSE k

Ref3(s, k, need) ==
  IF k > Len(s.obj) THEN No(s)
  ELSE LET n == s.obj[Base3(s, k)]
           t == [s EXCEPT !.refs = TRUE]
       IN IF n = <<"open", "obj">> THEN (IF need = {} THEN << <<"ref3", k>>, t >> ELSE No(t))
          ELSE IF n[1] = "open" THEN << Nil, [t EXCEPT !.un = TRUE] >>
          ELSE IF need = {} \/ n[1] \in need THEN << <<"ref3", k>>, t >>
          ELSE IF n[1] = "alias" THEN << Nil, [t EXCEPT !.un = TRUE] >>
          ELSE No(t)

Obj3(s, u) ==
  IF u % 2 = 0 THEN Ref3(s, u \div 2 + 1, {})
  ELSE LET r == u \div 2
           lit == r % 2 = 1
           ty == IF lit THEN Str3(s) ELSE <<<<>>, s>>
           cnt == r \div 8
           keys == IF ~lit \/ ty[2].err THEN <<<<>>, ty[2]>>
                   ELSE IF cnt > Left(ty[2]) THEN <<<<>>, Bad(ty[2])>>
                   ELSE Keys3(ty[2], cnt, <<>>)
           trait == [ext |-> (r \div 2) % 2 = 1, dyn |-> (r \div 4) % 2 = 1, ty |-> ty[1], keys |-> keys[1]]
           s1 == IF lit THEN [keys[2] EXCEPT !.tr = Append(@, trait)] ELSE s
           idx == r \div 2 + 1
       IN IF s1.err THEN No(s1)
          ELSE IF ~lit /\ idx > Len(s.tr) THEN No(s)
          ELSE LET t == IF lit THEN trait ELSE s.tr[idx]
                   k == Len(s1.obj) + 1
                   s2 == [s1 EXCEPT !.oth = @ \/ t.ext \/ t.dyn \/ ~lit,
                                    !.refs = @ \/ ~lit,
                                    !.un = @ \/ (t.ext /\ t.keys # <<>>)]
               IN IF t.ext THEN Ext(Open3(s2, "ext"), t.ty, k)
                  ELSE LET p == Props3(Open3(s2, "obj"), t.keys, <<>>)
                           q == IF p[2].err \/ ~t.dyn THEN p ELSE Dyn3(p[2], p[1])
                       IN IF q[2].err THEN No(q[2])
                          ELSE << <<"def3", k>>, Set3(q[2], k, <<"obj", q[1], t.ty>>) >>

Arr3(s, u) ==
  IF u % 2 = 0 THEN Ref3(s, u \div 2 + 1, {"ecma"})
  ELSE LET n == u \div 2
           \* the slot is taken before the members, after the first (reference-free) name
           k == Len(s.obj) + 1
           a == Dyn3(Open3(s, "arr"), <<>>)
           e == IF a[2].err THEN <<<<>>, a[2]>>
                ELSE IF n > Left(a[2]) THEN <<<<>>, Bad(a[2])>> ELSE Elems3(a[2], n)
       IN IF e[2].err THEN No(e[2]) ELSE << <<"def3", k>>, Set3(e[2], k, <<"ecma", e[1], a[1]>>) >>

\* xml, byte array: u / 2 bytes
Blob3(s, u, kind) ==
  IF u % 2 = 0 THEN Ref3(s, u \div 2 + 1, {kind})
  ELSE LET r == Take(s, u \div 2) IN
       IF r[2].err THEN No(r[2])
       ELSE << <<"def3", Len(s.obj) + 1>>, [r[2] EXCEPT !.obj = Append(@, <<kind, r[1]>>)] >>

Date3(s, u) ==
  IF u % 2 = 0 THEN Ref3(s, u \div 2 + 1, {"date3"})
  ELSE LET r == Take(s, 8) IN
       IF r[2].err THEN No(r[2])
       ELSE << <<"def3", Len(s.obj) + 1>>, [r[2] EXCEPT !.obj = Append(@, <<"date3", r[1]>>)] >>

D3(s) ==
  IF Left(s) < 1 THEN No(s)
  ELSE LET m == At(s, 0)  t == Adv(s, 1) IN
  CASE m = 0 -> << <<"undef">>, t >>
    [] m = 1 -> << Nil, t >>
    [] m = 2 -> << <<"bool", 0>>, t >>
    [] m = 3 -> << <<"bool", 1>>, t >>
    [] m = 4 -> LET u == U29(t) IN << <<"i29", Signed29(u[1]), ShortestU29(u[1], u[2])>>, u[3] >>
    [] m = 5 -> (IF Left(t) < 8 THEN No(t) ELSE << <<"num", Cut(t, 8)>>, Adv(t, 8) >>)
    [] m = 6 -> LET r == Str3(t) IN << <<"str", r[1]>>, r[2] >>
    [] m \in {7, 8, 9, 10, 11, 12} ->
         LET u == U29(t) IN
         IF u[3].err THEN No(u[3])
         ELSE CASE m = 8 -> Date3(u[3], u[1])
                [] m = 9 -> Arr3(u[3], u[1])
                [] m = 10 -> Obj3(u[3], u[1])
                [] m = 12 -> Blob3(u[3], u[1], "bin")
                [] OTHER -> Blob3(u[3], u[1], "xml")
    [] OTHER -> No(t)

D(ver, s) == IF ver = 3 THEN D3(s) ELSE D0(s)

-----------------------------------------------------------------------------
(* Doubles                                                                    *)
Bits8(b) == [j \in 1 .. 8 |-> (b \div (2 ^ (8 - j))) % 2]
BitsOf(bs) == FlattenSeq([k \in DOMAIN bs |-> Bits8(bs[k])])

ExpOf(d) == (d[1] % 128) * 16 + d[2] \div 16
MantBits(d) == SubSeq(BitsOf(d), 13, 64)
IsNaN(d) == ExpOf(d) = 2047 /\ \E k \in 1 .. 52 : MantBits(d)[k] = 1

\* d is a whole number of milliseconds (and not -0) that time stamps can tell apart
WholeMillis(d) ==
  LET e == ExpOf(d) - 1023 IN
  IF \A k \in DOMAIN d : d[k] = 0 THEN TRUE
  ELSE e \in 0 .. 51 /\ LET m == MantBits(d) IN \A k \in e + 1 .. 52 : m[k] = 0

\* the double of a 64-bit integer given in two's complement; <<>> if it is not exact
FromBits(bits) == [k \in 1 .. (Len(bits) \div 8) |->
                    FoldLeft(LAMBDA a, x : a * 2 + x, 0, SubSeq(bits, 8 * k - 7, 8 * k))]

RECURSIVE AddOne(_, _)
AddOne(bits, k) == IF k = 0 THEN bits
                   ELSE IF bits[k] = 0 THEN [bits EXCEPT ![k] = 1]
                   ELSE AddOne([bits EXCEPT ![k] = 0], k - 1)

Unsigned == {"u8", "u16", "u32", "u64", "uint"}

Double(kind, b8) ==
  LET bits == BitsOf(b8)
      neg  == kind \notin Unsigned /\ bits[1] = 1
      mag  == IF neg THEN AddOne([k \in 1 .. 64 |-> 1 - bits[k]], 64) ELSE bits
      top  == SelectInSeq(mag, LAMBDA x : x = 1)
  IN IF top = 0 THEN <<0, 0, 0, 0, 0, 0, 0, 0>>
     ELSE LET p    == 64 - top                  \* 2^p <= |n|
              frac == SubSeq(mag, top + 1, 64)
              lost == IF Len(frac) > 52 THEN SubSeq(frac, 53, Len(frac)) ELSE <<>>
              m52  == SubSeq(frac \o [k \in 1 .. 52 |-> 0], 1, 52)
              e    == 1023 + p
              ebits == [k \in 1 .. 11 |-> (e \div (2 ^ (11 - k))) % 2]
          IN IF \E k \in DOMAIN lost : lost[k] = 1 THEN <<>>
             ELSE FromBits(<<IF neg THEN 1 ELSE 0>> \o ebits \o m52)

\* the value of an integer of up to 32 bits that fits TLC's integers, if it is in the 29-bit range
In29(kind, b8) ==
  LET neg == kind \notin Unsigned /\ b8[1] >= 128 IN
  IF neg THEN /\ \A k \in 1 .. 4 : b8[k] = 255
              /\ b8[5] >= 240
  ELSE /\ \A k \in 1 .. 4 : b8[k] = 0
       /\ b8[5] < 16
Val29(kind, b8) ==
  LET low == (b8[5] % 16) * 16777216 + b8[6] * 65536 + b8[7] * 256 + b8[8] IN
  IF kind \notin Unsigned /\ b8[1] >= 128 THEN low - 268435456 ELSE low

-----------------------------------------------------------------------------
(* What the decoder hands out for a node                                      *)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, k) == IF k > Len(b) THEN FALSE
                    ELSE IF k > Len(a) THEN TRUE
                    ELSE IF a[k] = b[k] THEN LexLess(a, b, k + 1) ELSE a[k] < b[k]

\* the last of the pairs with the same name, sorted by name
Canon(ps) ==
  LET keep == SelectSeq([k \in DOMAIN ps |-> <<ps[k][1], ps[k][2],
                           \A j \in DOMAIN ps : j > k => ps[j][1] # ps[k][1]>>],
                        LAMBDA x : x[3])
  IN SortSeq(keep, LAMBDA x, y : LexLess(x[1], y[1], 1))

RECURSIVE Match(_, _, _, _)
MatchPairs(s, ps, got, path) ==
  LET c == Canon(ps) IN
  /\ Len(c) = Len(got)
  /\ \A k \in DOMAIN c : c[k][1] = got[k][1] /\ Match(s, c[k][2], got[k][2], path)
MatchSeq(s, ns, got, path) ==
  Len(ns) = Len(got) /\ \A k \in DOMAIN ns : Match(s, ns[k], got[k], path)

CycUp(path, id) == LET k == SelectInSeq(path, LAMBDA x : x = id) IN Len(path) - k + 1

\* slot k of table ver
MatchSlot(s, ver, k, got, path) ==
  LET n  == IF ver = 0 THEN s.r0[k] ELSE s.obj[k]
      id == <<ver, k>>
  IN CASE n[1] = "alias" -> Match(s, n[2], got, path)
       [] n[1] \in {"obj", "typed", "ecma"} ->
            IF \E j \in DOMAIN path : path[j] = id THEN got = <<"cyc", CycUp(path, id)>>
            ELSE CASE n[1] = "obj" -> got[1] = "obj" /\ MatchPairs(s, n[2], got[2], Append(path, id))
                   [] n[1] = "typed" -> got[1] = "typed" /\ got[2] = n[2] /\ MatchPairs(s, n[3], got[3], Append(path, id))
                   [] OTHER -> got[1] = "ecma" /\ MatchSeq(s, n[2], got[2], Append(path, id))
                               /\ MatchPairs(s, n[3], got[3], Append(path, id))
       [] n[1] = "arr" -> got[1] = "arr" /\ MatchSeq(s, n[2], got[2], path)
       [] n[1] = "xml" -> got = <<"str", n[2]>>
       [] n[1] = "bin" -> got = <<"bin", n[2]>>
       [] n[1] = "date3" -> got[1] = "date" /\ (WholeMillis(n[2]) => got[2] = n[2])
       [] OTHER -> FALSE

Match(s, n, got, path) ==
  CASE got[1] = "big" -> TRUE
    [] n[1] \in {"nil", "undef", "unsup"} -> got = Nil
    [] n[1] = "bool" -> got[1] = "bool" /\ (n[2] < 2 => got[2] = n[2])
    [] n[1] \in {"num", "date0"} -> got[1] = "num" /\ (got[2] = n[2] \/ (IsNaN(n[2]) /\ IsNaN(got[2])))
    [] n[1] \in {"str", "lstr", "xml0"} -> got[1] = "str" /\ got[2] = n[2]
    [] n[1] = "i29" -> got[1] = "i29" /\ got[2] = n[2]
    [] n[1] \in {"def0", "ref0"} -> MatchSlot(s, 0, n[2], got, path)
    [] n[1] \in {"def3", "ref3"} -> MatchSlot(s, 3, n[2], got, path)
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* What an encoder is asked to write: values v (see driver/amf.go)            *)
StrOf(v) == IF v[1] = "fill" THEN [k \in 1 .. v[2] |-> v[3]] ELSE v[2]
StrLen(v) == IF v[1] = "fill" THEN v[2] ELSE Len(v[2])

RECURSIVE Encodable(_, _)
Encodable(ver, v) ==
  CASE v[1] = "bad" -> FALSE
    [] v[1] = "arr" -> \A k \in DOMAIN v[2] : Encodable(ver, v[2][k])
    [] v[1] = "obj" -> \A k \in DOMAIN v[2] :
                         /\ ver = 0 => Len(v[2][k][1]) \in 1 .. 65535
                         /\ Encodable(ver, v[2][k][2])
    [] v[1] = "typed" -> /\ ver = 0 => Len(v[2]) <= 65535
                         /\ \A k \in DOMAIN v[3] :
                              /\ ver = 0 => Len(v[3][k][1]) \in 1 .. 65535
                              /\ Encodable(ver, v[3][k][2])
    [] OTHER -> TRUE

RECURSIVE Fixed(_)      \* its encoding does not depend on the order of names
Fixed(v) == CASE v[1] = "arr" -> \A k \in DOMAIN v[2] : Fixed(v[2][k])
              [] v[1] = "obj" -> Len(v[2]) < 2 /\ \A k \in DOMAIN v[2] : Fixed(v[2][k][2])
              [] v[1] = "typed" -> Len(v[3]) < 2 /\ \A k \in DOMAIN v[3] : Fixed(v[3][k][2])
              [] OTHER -> TRUE

NumOk(v, n) == n[1] = "num" /\ LET d == Double(v[2], v[3]) IN d # <<>> => n[2] = d

Byte8(x) == <<0, 0, 0, 0, 0, 0, 0, x>>

RECURSIVE Wire0(_, _, _)
PairsWire(ps, got, W(_, _)) ==
  /\ Len(ps) = Len(got)
  /\ \A k \in DOMAIN ps : \E j \in DOMAIN got :
       /\ got[j][1] = ps[k][1]
       /\ W(ps[k][2], got[j][2])

\* node n is the AMF0 form of v
Wire0(s, v, n) ==
  CASE v[1] = "nil" -> n = Nil
    [] v[1] = "bool" -> n[1] = "bool" /\ n[2] = v[2]
    [] v[1] \in {"num", "f32"} -> n[1] = "num" /\ n[2] = v[2]
    [] v[1] = "int" -> NumOk(v, n)
    [] v[1] \in {"str", "fill"} -> n[1] = (IF StrLen(v) > 65535 THEN "lstr" ELSE "str") /\ n[2] = StrOf(v)
    [] v[1] = "date" -> n[1] = "date0" /\ n[2] = v[2] /\ n[3] = <<0, 0>>
    [] n[1] # "def0" -> FALSE
    [] v[1] = "obj" -> LET m == s.r0[n[2]] IN
         m[1] = "obj" /\ Len(m) = 3 /\ PairsWire(v[2], m[2], LAMBDA a, b : Wire0(s, a, b))
    [] v[1] = "typed" -> LET m == s.r0[n[2]] IN
         m[1] = "typed" /\ m[2] = v[2] /\ PairsWire(v[3], m[3], LAMBDA a, b : Wire0(s, a, b))
    [] v[1] = "arr" -> LET m == s.r0[n[2]] IN
         m[1] = "arr" /\ Len(m[2]) = Len(v[2]) /\ \A k \in DOMAIN v[2] : Wire0(s, v[2][k], m[2][k])
    [] v[1] = "strs" -> LET m == s.r0[n[2]] IN
         m[1] = "arr" /\ Len(m[2]) = Len(v[2]) /\ \A k \in DOMAIN v[2] : m[2][k] = <<"str", v[2][k]>>
    [] v[1] = "bin" -> LET m == s.r0[n[2]] IN
         m[1] = "arr" /\ Len(m[2]) = Len(v[2])
         /\ \A k \in DOMAIN v[2] : m[2][k] = <<"num", Double("u8", Byte8(v[2][k]))>>
    [] OTHER -> FALSE

\* an ECMA array of pairs ps, with its count
WireEcma(s, ps, n) ==
  /\ n[1] = "def0"
  /\ LET m == s.r0[n[2]] IN
     /\ m[1] = "obj" /\ Len(m) = 4
     /\ m[4] = <<0, 0, Len(ps) \div 256, Len(ps) % 256>>
     /\ PairsWire(ps, m[2], LAMBDA a, b : Wire0(s, a, b))

RECURSIVE Wire3(_, _, _)
\* node n is an AMF3 form of v
Wire3(s, v, n) ==
  CASE v[1] = "nil" -> n = Nil
    [] v[1] = "bool" -> n = <<"bool", v[2]>>
    [] v[1] \in {"num", "f32"} -> n[1] = "num" /\ n[2] = v[2]
    [] v[1] = "int" ->
         IF In29(v[2], v[3]) THEN \/ n = <<"i29", Val29(v[2], v[3]), TRUE>>
                                  \/ v[2] \in {"i64", "u64"} /\ NumOk(v, n)
         ELSE NumOk(v, n)
    [] v[1] \in {"str", "fill"} -> n[1] = "str" /\ n[2] = StrOf(v)
    [] n[1] \notin {"def3", "ref3"} -> FALSE
    [] v[1] = "date" -> s.obj[n[2]] = <<"date3", v[2]>>
    [] v[1] = "bin" -> s.obj[n[2]] = <<"bin", v[2]>>
    [] v[1] = "obj" -> LET m == s.obj[n[2]] IN
         m[1] = "obj" /\ m[3] = <<>> /\ PairsWire(v[2], m[2], LAMBDA a, b : Wire3(s, a, b))
    [] v[1] = "typed" -> LET m == s.obj[n[2]] IN
         m[1] = "obj" /\ m[3] = v[2] /\ PairsWire(v[3], m[2], LAMBDA a, b : Wire3(s, a, b))
    [] v[1] = "arr" -> LET m == s.obj[n[2]] IN
         /\ m[1] = "ecma" /\ m[3] = <<>> /\ Len(m[2]) = Len(v[2])
         /\ \A k \in DOMAIN v[2] : Wire3(s, v[2][k], m[2][k])
    [] v[1] = "strs" -> LET m == s.obj[n[2]] IN
         /\ m[1] = "ecma" /\ m[3] = <<>> /\ Len(m[2]) = Len(v[2])
         /\ \A k \in DOMAIN v[2] : m[2][k] = <<"str", v[2][k]>>
    [] OTHER -> FALSE

Wire(ver, s, v, n) == IF ver = 3 THEN Wire3(s, v, n) ELSE Wire0(s, v, n)

\* what decoding the encoding of v hands out
RECURSIVE Back(_, _, _)
BackPairs(ver, ps, got) ==
  LET c == Canon(ps) IN
  Len(c) = Len(got) /\ \A k \in DOMAIN c : got[k][1] = c[k][1] /\ Back(ver, c[k][2], got[k][2])
BackInt(v, got) == LET d == Double(v[2], v[3]) IN got[1] = "num" /\ (d # <<>> => got[2] = d)
Back(ver, v, got) ==
  CASE got[1] = "big" -> TRUE
    [] v[1] = "nil" -> got = Nil
    [] v[1] = "bool" -> got = <<"bool", v[2]>>
    [] v[1] \in {"num", "f32"} -> got[1] = "num" /\ (got[2] = v[2] \/ (IsNaN(v[2]) /\ IsNaN(got[2])))
    [] v[1] = "int" ->
         IF ver = 3 /\ In29(v[2], v[3])
         THEN got = <<"i29", Val29(v[2], v[3])>> \/ (v[2] \in {"i64", "u64"} /\ BackInt(v, got))
         ELSE BackInt(v, got)
    [] v[1] \in {"str", "fill"} -> got[1] = "str" /\ got[2] = StrOf(v)
    [] v[1] = "date" -> got[1] = (IF ver = 3 THEN "date" ELSE "num") /\ got[2] = v[2]
    [] v[1] = "bin" -> IF ver = 3 THEN got = <<"bin", v[2]>>
                       ELSE got[1] = "arr" /\ Len(got[2]) = Len(v[2])
                            /\ \A k \in DOMAIN v[2] : got[2][k] = <<"num", Double("u8", Byte8(v[2][k]))>>
    [] v[1] = "obj" -> got[1] = "obj" /\ BackPairs(ver, v[2], got[2])
    [] v[1] = "typed" -> IF ver = 3 THEN got[1] = "obj" /\ BackPairs(ver, v[3], got[2])
                         ELSE got[1] = "typed" /\ got[2] = v[2] /\ BackPairs(ver, v[3], got[3])
    [] v[1] = "arr" -> IF ver = 3
                       THEN got[1] = "ecma" /\ got[3] = <<>> /\ Len(got[2]) = Len(v[2])
                            /\ \A k \in DOMAIN v[2] : Back(ver, v[2][k], got[2][k])
                       ELSE got[1] = "arr" /\ Len(got[2]) = Len(v[2])
                            /\ \A k \in DOMAIN v[2] : Back(ver, v[2][k], got[2][k])
    [] v[1] = "strs" -> /\ got[1] = (IF ver = 3 THEN "ecma" ELSE "arr")
                        /\ Len(got[2]) = Len(v[2])
                        /\ \A k \in DOMAIN v[2] : got[2][k] = <<"str", v[2][k]>>
    [] OTHER -> FALSE
=============================================================================
