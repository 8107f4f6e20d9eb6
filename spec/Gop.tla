-------------------------------- MODULE Gop ---------------------------------
(* The GOP cache a late-joining player is served from.                        *)
(*                                                                            *)
(* Abstract state: the latest metadata, video and audio sequence headers, and *)
(* the last `cap` groups of pictures, oldest first; a group is the sequence   *)
(* of video packets from a key frame up to the next one.                      *)
EXTENDS Naturals, Sequences, SequencesExt

CONSTANT MaxGop           \* packets per group of pictures

NoPkt == 0                \* packet ids start at 1

GopInit(cap) == [cap |-> cap, md |-> NoPkt, vs |-> NoPkt, as |-> NoPkt, gops |-> <<>>]

\* what a packet is to the cache
Kinds == {"key", "inter", "vseq", "aseq", "md", "other"}

\* A packet that starts a group evicts the oldest group when cap are held.
StartGop(s, id) ==
  IF s.cap = 0 THEN s
  ELSE LET g == Append(s.gops, <<id>>)
       IN [s EXCEPT !.gops = IF Len(g) > s.cap THEN Tail(g) ELSE g]

\* A frame that follows joins the newest group, unless there is none or it is full.
CanJoin(s) == s.cap = 0 \/ (s.gops # <<>> /\ Len(Last(s.gops)) < MaxGop)

JoinGop(s, id) ==
  IF s.cap = 0 \/ ~CanJoin(s) THEN s
  ELSE [s EXCEPT !.gops[Len(s.gops)] = Append(@, id)]

WriteOk(s, kind) == IF kind = "inter" THEN CanJoin(s) ELSE TRUE

GopWrite(s, kind, id) ==
  CASE kind = "key"   -> StartGop(s, id)
    [] kind = "inter" -> JoinGop(s, id)
    [] kind = "vseq"  -> [s EXCEPT !.vs = id]
    [] kind = "aseq"  -> [s EXCEPT !.as = id]
    [] kind = "md"    -> [s EXCEPT !.md = id]
    [] OTHER          -> s

One(id) == IF id = NoPkt THEN <<>> ELSE <<id>>

\* What a player that joins now is sent.
Replay(s) == One(s.md) \o One(s.vs) \o One(s.as) \o FlattenSeq(s.gops)

\* ... through a writer whose n-th write fails (0: none does)
ReplayTo(s, n) ==
  LET all == Replay(s) IN
  IF n = 0 \/ n > Len(all) THEN [ok |-> TRUE, ids |-> all]
  ELSE [ok |-> FALSE, ids |-> SubSeq(all, 1, n - 1)]
=============================================================================
