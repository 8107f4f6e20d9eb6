------------------------------ MODULE TraceAmf ------------------------------
(* Recorded AMF encoder and decoder calls, checked against module Amf.        *)
EXTENDS Amf, TraceLib

VARIABLES pos, st, bad, cov

AllA == <<"A01", "A02", "A03", "A04", "A05", "A06", "A07">>
PV(ver) == IF ver = 3 THEN "A02" ELSE "A01"

\* two decoders: their tables, and whether a refusal left them unspecified;
\* last is the latest complete encoding of a value; memo: what fresh decoders made of bytes
NoLast == <<>>
TInit == [t0 |-> Tables, t3 |-> Tables, dead0 |-> FALSE, dead3 |-> FALSE, hd |-> <<>>, last |-> NoLast, memo |-> <<>>]

Tab(s, ver) == IF ver = 3 THEN s.t3 ELSE s.t0
IsDead(s, ver) == IF ver = 3 THEN s.dead3 ELSE s.dead0
SetTab(s, ver, t) == IF ver = 3 THEN [s EXCEPT !.t3 = t] ELSE [s EXCEPT !.t0 = t]
Kill(s, ver) == IF ver = 3 THEN [s EXCEPT !.dead3 = TRUE] ELSE [s EXCEPT !.dead0 = TRUE]

Big == 6000        \* longer inputs are only checked for survival

\* the source breaks where its data ends
BreaksOff(e) == e.a.chunk \in {-3, -4}

Modest(e) == e.r.kib <= 2048 + 4 * Len(e.a.data)

-----------------------------------------------------------------------------
(* Decoding                                                                   *)

\* the properties a decoded value speaks for
Speaks(ver, s) == <<PV(ver), "A05">> \o (IF s.refs THEN <<"A03">> ELSE <<>>) \o (IF s.oth THEN <<"A07">> ELSE <<>>)

\* values one after another; s is the specification's decoder at the next byte
RECURSIVE Follow(_, _, _, _, _)
Follow(e, ver, s, got, acc) ==
  IF got = <<>> THEN [s |-> s, live |-> TRUE, c |-> acc, free |-> TRUE]
  ELSE LET g == Head(got)
           v == D(ver, [s EXCEPT !.refs = FALSE, !.oth = FALSE])
           t == v[2]
       IN IF Left(s) = 0
          THEN [s |-> s, live |-> TRUE, free |-> TRUE, c |-> acc \o Chks(<<"A04", "A05">>, "end-of-input", g[1] = IF BreaksOff(e) THEN "err" ELSE "eof")]
          ELSE IF t.un THEN [s |-> s, live |-> FALSE, free |-> FALSE, c |-> acc]
          ELSE IF t.err
          THEN [s |-> s, live |-> FALSE, free |-> FALSE,
                c |-> acc \o Chks(<<"A04">> \o (IF t.refs THEN <<"A03">> ELSE <<>>) \o (IF t.oth THEN <<"A07">> ELSE <<>>),
                                  "bad-input-refused", g[1] # "ok")]
          ELSE IF g[1] # "ok"
          THEN [s |-> s, live |-> FALSE, free |-> FALSE, c |-> acc \o Chks(Speaks(ver, t), "value-decoded", FALSE)]
          ELSE LET f == Follow(e, ver, t, Tail(got),
                               acc \o Chks(Speaks(ver, t), "value", Match(t, v[1], g[2], <<>>))
                                   \o Chk("A05", "consumed", g[3] = t.i - 1))
               IN [f EXCEPT !.free = @ /\ ~t.refs]

-----------------------------------------------------------------------------
(* The same bytes decode to the same values: always by fresh decoders, and    *)
(* if they contain no references by any                                       *)
Key(s, e) == <<e.a.ver, e.a.data, e.a.num, s.hd>>
Outcome(vals) == [k \in DOMAIN vals |-> IF vals[k][1] = "ok" THEN <<vals[k][2], vals[k][3]>> ELSE <<"bad">>]
MaxMemo == 6
Recall(s, e, fresh, free) ==
  IF ~Want("A05") \/ Len(e.a.data) > 400 \/ ~(fresh \/ free) THEN [st |-> s, c |-> <<>>]
  ELSE LET hit == SelectSeq(s.memo, LAMBDA m : m[1] = Key(s, e))
       IN IF hit # <<>> THEN [st |-> s, c |-> Chk("A05", "same-again", Outcome(e.r.vals) = hit[1][2])]
          ELSE IF fresh THEN [st |-> [s EXCEPT !.memo = (IF Len(@) >= MaxMemo THEN Tail(@) ELSE @) \o << <<Key(s, e), Outcome(e.r.vals)>> >>], c |-> <<>>]
          ELSE [st |-> s, c |-> <<>>]

\* all values of a batch: nodes in order, and how it ended
RECURSIVE All(_, _, _)
All(ver, s, acc) ==
  IF Left(s) = 0 THEN [s |-> s, nodes |-> acc, k |-> "ok"]
  ELSE LET v == D(ver, s) IN
       IF v[2].un THEN [s |-> v[2], nodes |-> acc, k |-> "un"]
       ELSE IF v[2].err THEN [s |-> v[2], nodes |-> acc, k |-> "err"]
       ELSE All(ver, v[2], Append(acc, v[1]))

DecJudge(s, e) ==
  LET ver == e.a.ver
      alloc == Chk("A04", "modest-allocation", Modest(e))
  IN IF Len(e.a.data) > Big THEN [st |-> Kill(s, ver), c |-> alloc \o Chk("A04", "survives", TRUE)]
     ELSE IF IsDead(s, ver) THEN [st |-> s, c |-> alloc]
     ELSE LET f == Follow(e, ver, Dec(e.a.data, 1, Tab(s, ver), s.hd), e.r.vals, <<>>)
              m == Recall(s, e, Tab(s, ver) = Tables, f.live /\ f.free)
              t == SetTab(m.st, ver, TablesOf(f.s))
          IN [st |-> IF f.live THEN t ELSE Kill(m.st, ver), c |-> alloc \o f.c \o m.c]

BatchJudge(s, e) ==
  LET ver == e.a.ver
      alloc == Chk("A04", "modest-allocation", Modest(e))
  IN IF Len(e.a.data) > Big \/ IsDead(s, ver) THEN [st |-> Kill(s, ver), c |-> alloc]
     ELSE LET f == All(ver, Dec(e.a.data, 1, Tab(s, ver), s.hd), <<>>) IN
          IF f.k = "un" THEN [st |-> Kill(s, ver), c |-> alloc]
          ELSE IF f.k = "err" THEN [st |-> Kill(s, ver), c |-> alloc \o Chk("A04", "batch-error", e.r.k = "err")]
          ELSE IF BreaksOff(e) THEN [st |-> Kill(s, ver), c |-> alloc \o Chks(<<"A04", "A05">>, "batch-broken", e.r.k = "err")]
          ELSE [st |-> SetTab(s, ver, TablesOf(f.s)),
                c |-> alloc \o Chks(<<"A04", "A05">>, "batch",
                                    /\ e.r.k = "ok" /\ Len(e.r.vals) = Len(f.nodes)
                                    /\ \A k \in DOMAIN f.nodes : Match(f.s, f.nodes[k], e.r.vals[k], <<>>))]

\* a long run of values of one kind, the j-th of which is named after j
Named(j) == <<j \div 65536, (j \div 256) % 256, j % 256>>
Run(n, F(_)) == TLCEval([j \in 1 .. n |-> F(j)])
Names(n) == Run(n, Named)
Bins(n) == Run(n, LAMBDA j : <<"bin", Named(j)>>)
Objs(n) == Run(n, LAMBDA j : <<"obj", << <<Named(j), <<"i29", 5, TRUE>>>> >>, <<>>>>)
Traits(n) == Run(n, LAMBDA j : [ext |-> FALSE, dyn |-> FALSE, ty |-> <<>>, keys |-> <<Named(j)>>])
Objs0(n) == Run(n, LAMBDA j : <<"obj", << <<Named(j), Nil>> >>, <<>>>>)

FillJudge(s, e) ==
  LET n == e.a.num  t == Tab(s, e.a.ver)
      u == CASE e.a.fn = "str" -> [t EXCEPT !.str = @ \o Names(n)]
             [] e.a.fn = "bin" -> [t EXCEPT !.obj = @ \o Bins(n)]
             [] e.a.fn = "obj" -> [t EXCEPT !.str = @ \o Names(n), !.tr = @ \o Traits(n), !.obj = @ \o Objs(n)]
             [] e.a.fn = "obj0" -> [t EXCEPT !.r0 = @ \o Objs0(n)]
  IN [st |-> IF IsDead(s, e.a.ver) THEN s ELSE SetTab(s, e.a.ver, u), c |-> Chks(<<PV(e.a.ver), "A03">>, "long-run", e.r.k = "ok")]

-----------------------------------------------------------------------------
(* Encoding                                                                   *)

\* out is exactly one encoding of v from byte n on
Whole(ver, out, n, v) ==
  LET x == D(ver, Dec(out, n, Tables, <<>>)) IN
  ~x[2].err /\ ~x[2].un /\ x[2].i = Len(out) + 1 /\ Wire(ver, x[2], v, x[1])

\* consecutive encodings of vs
RECURSIVE Wholes(_, _, _)
Wholes(ver, s, vs) ==
  IF vs = <<>> THEN Left(s) = 0
  ELSE IF Left(s) = 0 THEN FALSE
  ELSE LET x == D(ver, s) IN
       ~x[2].err /\ ~x[2].un /\ Wire(ver, x[2], Head(vs), x[1]) /\ Wholes(ver, x[2], Tail(vs))

EncJudge(s, e) ==
  LET ver == e.a.ver  v == e.a.val  out == e.r.out  f == e.a.fail  k == e.r.k
      can == Encodable(ver, v)
  IN IF ~can THEN [st |-> s, c |-> Chks(<<PV(ver), "A06">>, "unencodable-refused", k = "err")]
     ELSE IF k = "ok"
     THEN [st |-> [s EXCEPT !.last = <<ver, v, out>>],
           c |-> Chk(PV(ver), "wire", Whole(ver, out, 1, v)) \o Chk("A06", "count", e.r.n = Len(out))
                 \o (IF f >= 0 THEN Chk("A06", "complete-within-limit",
                                        Len(out) <= f /\ Whole(ver, out, 1, v)) ELSE <<>>)]
     ELSE [st |-> s,
           c |-> Chks(IF f < 0 THEN <<PV(ver), "A06">> ELSE <<"A06">>, "only-failed-writes-fail", f >= 0 /\ Len(out) = f)
                 \o (IF s.last # NoLast /\ s.last[1] = ver /\ s.last[2] = v /\ Fixed(v)
                     THEN Chk("A06", "prefix-on-failure", IsPrefix(out, s.last[3]) /\ f < Len(s.last[3])) ELSE <<>>)]

EncbJudge(s, e) ==
  LET ver == e.a.ver  vs == e.a.vals
      can == \A k \in DOMAIN vs : Encodable(ver, vs[k])
  IN IF ~can THEN Chk("A06", "batch-unencodable-refused", e.r.k = "err")
     ELSE IF e.r.k = "ok"
     THEN Chk("A06", "batch-concatenates", Wholes(ver, Dec(e.r.out, 1, Tables, <<>>), vs))
     ELSE Chk("A06", "only-failed-writes-fail", e.a.fail >= 0 /\ Len(e.r.out) = e.a.fail)

BE4(n) == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>

EncxJudge(s, e) ==
  LET fn == e.a.fn  v == e.a.val  out == e.r.out  f == e.a.fail
      fixed == CASE fn = "undef" -> <<6>>
                 [] fn = "unsup" -> <<13>>
                 [] fn = "ref"   -> <<7, e.a.num \div 256, e.a.num % 256>>
                 [] fn = "xml"   -> <<15>> \o BE4(StrLen(v)) \o StrOf(v)
                 [] OTHER -> <<>>
      can == CASE fn = "amf3" -> Encodable(3, v)
               [] fn = "ecma" -> Encodable(0, v)
               [] OTHER -> TRUE
      right == CASE fn = "amf3" -> Len(out) > 1 /\ out[1] = 17 /\ Whole(3, out, 2, v)
                 [] fn = "ecma" -> LET x == D0(Dec(out, 1, Tables, <<>>)) IN
                                   ~x[2].err /\ x[2].i = Len(out) + 1 /\ WireEcma(x[2], v[2], x[1])
                 [] OTHER -> out = fixed
  IN IF ~can THEN Chks(<<"A01", "A06">>, "unencodable-refused", e.r.k = "err")
     ELSE IF e.r.k = "ok"
     THEN Chks(<<"A01">> \o (IF fn = "amf3" THEN <<"A02">> ELSE <<>>), "wire-" \o fn, right)
          \o Chk("A06", "count", e.r.n = Len(out))
          \o (IF f >= 0 THEN Chk("A06", "complete-within-limit", Len(out) <= f /\ right) ELSE <<>>)
     ELSE Chk("A06", "only-failed-writes-fail", f >= 0 /\ Len(out) = f)
          \o (IF f < 0 THEN Chk("A01", "wire-" \o fn, FALSE) ELSE <<>>)
          \o (IF fixed # <<>> THEN Chk("A06", "prefix-on-failure", IsPrefix(out, fixed) /\ f < Len(fixed)) ELSE <<>>)

RtJudge(e) ==
  LET ver == e.a.ver  v == e.a.val  r == e.r IN
  IF ~Encodable(ver, v) THEN Chk(PV(ver), "unencodable-refused", r.k = "err")
  ELSE Chk(PV(ver), "round-trip", r.k = "ok" /\ Back(ver, v, r.v))
       \o Chk("A05", "round-trip-consumes", r.k = "ok" /\ r.used = r.len)
       \o Chk("A06", "round-trip-count", r.k = "ok" /\ r.n = r.len)

Judge(s, e) ==
  LET op == e.a.op IN
  IF Dead(e) THEN [st |-> s, c |-> Chks(CASE op \in {"dec", "batch"} -> <<"A04">>
                                          [] op \in {"enc", "encb", "encx"} -> <<"A01", "A02", "A06">>
                                          [] OTHER -> AllA, "returns", FALSE)]
  ELSE CASE op = "new" -> [st |-> IF e.i = 0 THEN TInit ELSE [TInit EXCEPT !.memo = s.memo], c |-> <<>>]
         [] op = "reg" -> [st |-> [s EXCEPT !.hd = <<<<e.a.s1, e.a.fn>>>> \o SelectSeq(@, LAMBDA x : x[1] # e.a.s1)],
                           c |-> Chk("A07", "registered", e.r.k = "ok")]
         [] op = "dec" -> DecJudge(s, e)
         [] op = "batch" -> BatchJudge(s, e)
         [] op = "fill" -> FillJudge(s, e)
         [] op = "enc" -> EncJudge(s, e)
         [] op = "encb" -> [st |-> s, c |-> EncbJudge(s, e)]
         [] op = "encx" -> [st |-> s, c |-> EncxJudge(s, e)]
         [] op = "rt" -> [st |-> s, c |-> RtJudge(e)]
         [] OTHER -> [st |-> s, c |-> Chks(AllA, "known-op", FALSE)]

Init == pos = 1 /\ st = TInit /\ bad = <<>> /\ cov = <<>>

Step == /\ pos <= Len(Trace)
        /\ LET e == Trace[pos]
               j == Judge(st, e)
           IN /\ st' = j.st
              /\ bad' = AddBad(bad, e, j.c)
              /\ cov' = CountChecks(cov, j.c)
        /\ pos' = pos + 1

Done == /\ pos = Len(Trace) + 1
        /\ Report(pos - 1, bad, cov)
        /\ pos' = pos + 1
        /\ UNCHANGED <<st, bad, cov>>

Next == Step \/ Done
Spec == Init /\ [][Next]_<<pos, st, bad, cov>>
=============================================================================
