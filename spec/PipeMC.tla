------------------------------- MODULE PipeMC -------------------------------
(* The server with an FLV and a TS viewer, as a state machine: packets are     *)
(* published, viewers join, and each takes the packets queued for it at its   *)
(* own pace. Whatever the schedule, what a viewer has been sent is a prefix   *)
(* of what the log of publications and its join position call for.            *)
EXTENDS Pipe, TLC, Json

CONSTANTS Depth, Cap, Starts, Names, Emit

Nal(n) == U32(Len(n)) \o n
Avcc(ns) == FlattenSeq([k \in DOMAIN ns |-> Nal(ns[k])])
V(ft, typ, cts, media) == <<ft * 16 + 7, typ>> \o cts \o media
A(typ, media) == <<175, typ>> \o media
Rec(sps, pps) == <<1, 100, 0, 31, 255, 225, 0, Len(sps)>> \o sps \o <<1, 0, Len(pps)>> \o pps
MdBytes(n) == <<2, 0, 10, 111, 110, 77, 101, 116, 97, 68, 97, 116, 97, 3, 0, 1, 119, 0, 63, 240, 0, 0, 0, 0, 0, n, 0, 0, 9>>

\* what is published
Pkt(n) ==
  CASE n = "vs"  -> [t |-> Video, d |-> V(1, 0, <<0, 0, 0>>, Rec(<<103, 1, 2>>, <<104, 3>>))]
    [] n = "vs2" -> [t |-> Video, d |-> V(1, 0, <<0, 0, 0>>, Rec(<<103, 9>>, <<104, 8, 7>>))]
    [] n = "vsX" -> [t |-> Video, d |-> V(1, 0, <<0, 0, 0>>, <<1, 100, 0, 31, 255, 225, 0, 9, 103>>)]
    [] n = "as"  -> [t |-> Audio, d |-> A(0, <<18, 16>>)]
    [] n = "as2" -> [t |-> Audio, d |-> A(0, <<17, 136>>)]
    [] n = "key" -> [t |-> Video, d |-> V(1, 1, <<0, 0, 0>>, Avcc(<< <<101, 1, 2>> >>))]
    [] n = "p"   -> [t |-> Video, d |-> V(2, 1, <<0, 0, 40>>, Avcc(<< <<65, 3>> >>))]
    [] n = "bad" -> [t |-> Video, d |-> V(2, 1, <<0, 0, 0>>, <<0, 0, 0, 9, 65>>)]
    [] n = "a"   -> [t |-> Audio, d |-> A(1, <<7, 8, 9>>)]
    [] n = "md"  -> [t |-> Meta, d |-> SetDataFrame \o MdBytes(1)]
    [] n = "md2" -> [t |-> Meta, d |-> MdBytes(2)]
AllPkts == {"vs", "vs2", "vsX", "as", "as2", "key", "p", "bad", "a", "md", "md2"}

\* histories the server starts from
Start(n) == CASE n = 0 -> <<>>
              [] n = 1 -> <<"md", "vs", "as", "key", "a", "p">>
              [] n = 2 -> <<"vs", "key", "p", "vs2", "p", "key", "md2", "as">>
Time(k) == Small(40 * k)

VARIABLES server, wf, wt, hist, played
vars == <<server, wf, wt, hist, played>>

Away == [in |-> FALSE, at |-> 0, queue |-> <<>>, got |-> <<>>, w |-> TsNew]
AddTo(s, n) == Publish(s, Pub(Pkt(n).t, Pkt(n).d, Time(Len(s.log) + 1)))

Init == \E n \in Starts :
          /\ server = FoldLeft(AddTo, PipeInit(Cap), Start(n))
          /\ hist = Start(n)
          /\ wf = Away /\ wt = Away /\ played = 0

Pubs(n) ==
  LET s == AddTo(server, n)
      put(w) == IF w.in THEN [w EXCEPT !.queue = Append(@, Last(s.log))] ELSE w
  IN server' = s /\ wf' = put(wf) /\ wt' = put(wt)
JoinF == /\ ~wf.in /\ UNCHANGED <<server, wt>>
         /\ wf' = [Away EXCEPT !.in = TRUE, !.at = Len(server.log), !.got = FlvJoin(server)]
JoinT == /\ ~wt.in /\ UNCHANGED <<server, wf>>
         /\ LET r == TsJoin(server) IN
            wt' = [Away EXCEPT !.in = TRUE, !.at = Len(server.log), !.got = r[2], !.w = r[1]]
StepF == /\ wf.queue # <<>> /\ UNCHANGED <<server, wt>>
         /\ wf' = [wf EXCEPT !.queue = Tail(@), !.got = @ \o FlvLive(Head(wf.queue))]
StepT == /\ wt.queue # <<>> /\ UNCHANGED <<server, wf>>
         /\ LET r == TsLive(wt.w, Head(wt.queue)) IN
            wt' = [wt EXCEPT !.queue = Tail(@), !.got = @ \o r[2], !.w = r[1]]

Act(n) == CASE n = "joinF" -> JoinF [] n = "joinT" -> JoinT [] n = "stepF" -> StepF [] n = "stepT" -> StepT [] OTHER -> Pubs(n)

Next == /\ played < Depth /\ played' = played + 1
        /\ \E n \in Names : Act(n) /\ hist' = Append(hist, n)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the log calls for, without the cache or any viewer state               *)
Log == server.log
Is(n, k) == Kind(Log[k]) = n
LastOf(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A k \in S : k <= m
LastBefore(n, j) == LastOf({ k \in 1 .. j : Is(n, k) })

\* the packets of the last Cap groups before position j
Groups(j) ==
  LET keys == { k \in 1 .. j : Is("key", k) }
      from == { k \in keys : Cardinality({ m \in keys : m >= k }) = Cap }
      f == IF from # {} THEN CHOOSE k \in from : TRUE
           ELSE IF keys = {} \/ Cap = 0 THEN j + 1 ELSE CHOOSE k \in keys : \A m \in keys : k <= m
  IN SelectSeq([k \in 1 .. j |-> k], LAMBDA k : k >= f /\ (Is("key", k) \/ Is("inter", k)))
After(j) == SelectSeq([k \in DOMAIN Log |-> k], LAMBDA k : k > j)

\* P01
TagBytes(k, ts) ==
  LET d == IF Log[k].t = Meta /\ IsPrefix(SetDataFrame, Log[k].d) THEN Rest(Log[k].d, 16) ELSE Log[k].d
      n == Len(d)
      u24(x) == <<x \div 65536, (x \div 256) % 256, x % 256>>
      typ == CASE Log[k].t = Video -> 9 [] Log[k].t = Audio -> 8 [] OTHER -> 18
  IN <<typ>> \o u24(n) \o u24(ts) \o <<0, 0, 0, 0>> \o d \o <<0>> \o u24(n + 11)
FlvDue(j) ==
  LET hd(k) == IF k = 0 THEN <<>> ELSE TagBytes(k, 0)
      ks == Groups(j) \o After(j)
  IN << <<"head", hd(LastBefore("vseq", j)), hd(LastBefore("aseq", j)), LastBefore("md", j)>> >>
     \o [k \in DOMAIN ks |-> <<"tag", TagBytes(ks[k], 40 * ks[k])>>]
FlvRight == wf.in => IsPrefix(wf.got, FlvDue(wf.at)) /\ (wf.queue = <<>> => wf.got = FlvDue(wf.at))

\* P02: the header that converts packet k for a viewer that joined at j: the
\* newest that a converter accepts among those it has been given
Accepts(k) == Convert(CodecInit, Log[k].t, Log[k].d).k = "none"
Given(n, j, k) ==
  { m \in 1 .. Len(Log) : Is(n, m) /\ Accepts(m) /\ (m = LastBefore(n, j) \/ (m > j /\ m < k)) }
FormOf(j, k) ==
  LET n == IF Log[k].t = Video THEN "vseq" ELSE "aseq"
      m == LastOf(Given(n, j, k))
      c == IF m = 0 THEN CodecInit ELSE Convert(CodecInit, Log[m].t, Log[m].d).c
  IN Convert(c, Log[k].t, Log[k].d)
IsFrame(k) == Log[k].t # Meta /\ ~Is("vseq", k) /\ ~Is("aseq", k)
\* the frames due to a TS viewer that joined at j
FramesDue(j) ==
  LET ks == SelectSeq(Groups(j) \o After(j), LAMBDA k : IsFrame(k) /\ FormOf(j, k).k \in {"exact", "adts"}) IN
  [k \in DOMAIN ks |-> <<ks[k], FormOf(j, ks[k])>>]
Frames(got) == SelectSeq(got, LAMBDA it : it[1] = "frame")
\* an item is for packet k: its form, its time (audio: within 10 ms), and whether it is a key frame
Ten == 900
For(it, due) ==
  LET k == due[1]
      dts == 90 * 40 * k
      cts == IF Log[k].t = Video /\ ~Is("key", k) /\ Log[k].d[5] = 40 THEN 3600 ELSE 0
  IN /\ it[2] = (Log[k].t = Video)
     /\ it[3].k = due[2].k /\ it[3].es = due[2].es /\ it[3].n = due[2].n
     /\ it[4] = Is("key", k)
     /\ IF it[2] THEN it[5] = Small(dts) /\ it[6] = Small(dts + cts)
        ELSE it[6] = it[5] /\ \E d \in 0 .. Ten : it[5] \in {Small(dts + d), Small(dts - d)}
TsRight ==
  wt.in =>
    LET fs == Frames(wt.got)
        due == FramesDue(wt.at)
    IN /\ Len(fs) <= Len(due)
       /\ wt.queue = <<>> => Len(fs) = Len(due)
       /\ \A k \in DOMAIN fs : For(fs[k], due[k])
       /\ wt.got[1] = <<"tables", Given("vseq", wt.at, wt.at) # {}, Given("aseq", wt.at, wt.at) # {}, TRUE>>
       /\ \A k \in DOMAIN wt.got : wt.got[k][1] # "loose"

\* a viewer that joins when a group is cached starts at a key frame
StartsAtKey ==
  /\ wt.in /\ Groups(wt.at) # <<>> =>
       LET fs == SelectSeq(Frames(wt.got), LAMBDA it : it[2]) IN
       (fs # <<>> /\ FormOf(wt.at, Groups(wt.at)[1]).k = "exact") => fs[1][4]
  /\ Groups(wt.at) # <<>> => Is("key", Groups(wt.at)[1])

EmitBehaviour == (Emit /\ played = Depth /\ (wf.in \/ wt.in)) => PrintT("@@" \o ToJson([cap |-> Cap, h |-> hist]))
EmitPackets == (Emit /\ hist = Start(CHOOSE n \in Starts : TRUE) /\ played = 0) => PrintT("@@" \o ToJson([n \in AllPkts |-> Pkt(n)]))
=============================================================================
