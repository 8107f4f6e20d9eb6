-------------------------------- MODULE Flv ---------------------------------
(* FLV tags: classification of payloads by their header bytes, and framing.   *)
EXTENDS Integers, Sequences, SequencesExt

Video == 0   Audio == 1   Meta == 2          \* packet kinds

Rest(d, n) == SubSeq(d, n + 1, Len(d))        \* all but the first n bytes
Bit(b, n) == (b \div (2 ^ n)) % 2
B2I(b) == IF b THEN 1 ELSE 0

Signed24(a, b, c) == LET u == a * 65536 + b * 256 + c
                     IN IF u >= 8388608 THEN u - 16777216 ELSE u

KeyFrame == 1   InterFrame == 2
Rejected == [ok |-> FALSE]

VideoTag(d) ==
  IF Len(d) < 5 THEN Rejected
  ELSE LET ft  == d[1] \div 16
           avc == ft \in {KeyFrame, InterFrame}      \* a full AVC header follows
           typ == IF avc THEN d[2] ELSE 0
       IN [ok |-> TRUE,
           ft |-> ft, codec |-> d[1] % 16, typ |-> typ,
           key   |-> ft = KeyFrame,
           inter |-> ft = InterFrame,
           seq   |-> ft = KeyFrame /\ typ = 0,
           eos   |-> ft = KeyFrame /\ typ = 2,
           avc   |-> d[1] % 16 = 7,
           cts   |-> IF avc /\ typ = 1 THEN Signed24(d[3], d[4], d[5]) ELSE 0,
           n     |-> IF avc THEN 5 ELSE 1,
           media |-> Rest(d, IF avc THEN 5 ELSE 1)]

AudioTag(d) ==
  IF Len(d) < 2 \/ d[1] \div 16 \notin {2, 10} THEN Rejected
  ELSE LET aac == d[1] \div 16 = 10
       IN [ok |-> TRUE,
           fmt |-> d[1] \div 16, aac |-> aac, mp3 |-> ~aac,
           typ |-> IF aac THEN d[2] ELSE 0,
           seq |-> aac /\ d[2] = 0,
           n   |-> IF aac THEN 2 ELSE 1,
           media |-> Rest(d, IF aac THEN 2 ELSE 1)]

MetaTag(d) == [ok |-> TRUE, n |-> 0, media |-> d]

Demux(t, d) == CASE t = Video -> VideoTag(d)
                 [] t = Audio -> AudioTag(d)
                 [] t = Meta  -> MetaTag(d)
                 [] OTHER     -> Rejected

-----------------------------------------------------------------------------
(* Tag framing. A 32-bit timestamp is given as limbs <<2, 15, 15>> bits.       *)
TagType(t) == CASE t = Video -> 9 [] t = Audio -> 8 [] OTHER -> 18

U24(n) == << n \div 65536, (n \div 256) % 256, n % 256 >>
U32(n) == << n \div 16777216 >> \o U24(n % 16777216)       \* n < 2^31

TsBytes(ts) ==        \* lower 24 bits big endian, then the upper 8
  LET lo24 == (ts[2] % 512) * 32768 + ts[3]
      hi8  == (ts[1] % 4) * 64 + ts[2] \div 512
  IN << lo24 \div 65536, (lo24 \div 256) % 256, lo24 % 256, hi8 >>

TagHeader(t, len, ts) == <<TagType(t)>> \o U24(len) \o TsBytes(ts) \o <<0, 0, 0>>

Tag(t, data, ts) == TagHeader(t, Len(data), ts) \o data \o U32(11 + Len(data))

Zero == <<0, 0, 0>>

FileHeader(hasV, hasA) ==
  <<70, 76, 86, 1, (IF hasA THEN 4 ELSE 0) + (IF hasV THEN 1 ELSE 0), 0, 0, 0, 9, 0, 0, 0, 0>>

\* --- reading a file back
\* All tags of b from byte i on; ok is FALSE if b is not a sequence of whole tags.
RECURSIVE ReadTags(_, _, _)
ReadTags(b, i, acc) ==
  IF i = Len(b) + 1 THEN [ok |-> TRUE, tags |-> acc]
  ELSE IF Len(b) - i + 1 < 15 THEN [ok |-> FALSE, tags |-> acc]
  ELSE LET n == b[i + 1] * 65536 + b[i + 2] * 256 + b[i + 3] IN
       IF Len(b) - i + 1 < 15 + n THEN [ok |-> FALSE, tags |-> acc]
       ELSE LET prev == SubSeq(b, i + 11 + n, i + 14 + n)
                lo   == b[i + 4] * 65536 + b[i + 5] * 256 + b[i + 6]
                tag  == [typ |-> b[i], ts |-> << b[i + 7], lo >>, sid |-> SubSeq(b, i + 8, i + 10),
                         data |-> SubSeq(b, i + 11, i + 10 + n)]
            IN IF prev # U32(11 + n) THEN [ok |-> FALSE, tags |-> acc]
               ELSE ReadTags(b, i + 15 + n, Append(acc, tag))
=============================================================================
