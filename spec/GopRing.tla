------------------------------ MODULE GopRing -------------------------------
(* The ring buffer the implementation keeps the groups in, checked to refine  *)
(* the abstract cache of module Gop, and to satisfy the listed properties.    *)
(* It is also where conformance behaviours are enumerated.                    *)
EXTENDS Gop, TLC, Json, FiniteSets

CONSTANTS Caps,           \* capacities
          Depth,          \* writes per behaviour
          Emit            \* TRUE: print every behaviour of Depth writes

VARIABLES abs,            \* the abstract cache (module Gop)
          ring, len, idx, \* the ring: slots, slots in use, current slot (-1: none)
          ok,             \* result of the last write
          h,              \* the writes so far, as packet kinds
          evict           \* how many groups were dropped

vars == <<abs, ring, len, idx, ok, h, evict>>

Slots(c) == 0 .. (c - 1)
NoIdx == 99               \* before the first key frame

Init == \E c \in Caps :
  /\ abs = GopInit(c)
  /\ ring = [s \in Slots(c) |-> <<>>]
  /\ len = 0
  /\ idx = NoIdx
  /\ ok = TRUE
  /\ h = <<>>
  /\ evict = 0

Id == Len(h) + 1

\* A key frame moves to the next slot and resets it.
Key ==
  /\ abs' = GopWrite(abs, "key", Id)
  /\ IF abs.cap = 0 THEN UNCHANGED <<ring, len, idx, evict>>
     ELSE LET i == IF idx = NoIdx THEN 0 ELSE (idx + 1) % abs.cap IN
          /\ idx' = i
          /\ evict' = IF ring[i] = <<>> THEN evict ELSE evict + 1
          /\ len' = IF ring[i] = <<>> THEN len + 1 ELSE len
          /\ ring' = [ring EXCEPT ![i] = <<Id>>]
  /\ ok' = TRUE
  /\ h' = Append(h, "key")

\* An inter frame is added to the current slot.
Inter ==
  /\ abs' = GopWrite(abs, "inter", Id)
  /\ IF abs.cap = 0 THEN ok' = TRUE /\ UNCHANGED ring
     ELSE IF idx = NoIdx THEN ok' = FALSE /\ UNCHANGED ring
     ELSE IF Len(ring[idx]) >= MaxGop THEN ok' = FALSE /\ UNCHANGED ring
     ELSE ok' = TRUE /\ ring' = [ring EXCEPT ![idx] = Append(@, Id)]
  /\ h' = Append(h, "inter")
  /\ UNCHANGED <<len, idx, evict>>

Header(k) ==
  /\ abs' = GopWrite(abs, k, Id)
  /\ ok' = TRUE
  /\ h' = Append(h, k)
  /\ UNCHANGED <<ring, len, idx, evict>>

Next == /\ Len(h) < Depth
        /\ Key \/ Inter \/ \E k \in {"vseq", "aseq", "md", "other"} : Header(k)

Spec == Init /\ [][Next]_vars

\* Reading the ring from the slot after the current one, round to it.
RingGops ==
  IF len = 0 THEN <<>>
  ELSE LET base == (idx + 1) % len IN
       [n \in 1 .. len |-> ring[(base + n - 1) % len]]

Refines == RingGops = abs.gops

ResultAgrees == [][ok' = WriteOk(abs, Last(h'))]_vars

TypeOK == /\ abs.cap \in Caps
          /\ len \in 0 .. abs.cap

\* G01: what is replayed is a suffix of the key/inter history, group by group
KeyIds == {n \in 1 .. Len(h) : h[n] = "key"}
StartsAtKey == \A g \in DOMAIN abs.gops : abs.gops[g][1] \in KeyIds
InOrder == LET f == FlattenSeq(abs.gops) IN \A a, b \in DOMAIN f : a < b => f[a] < f[b]
LastGops == Len(abs.gops) = (IF Cardinality(KeyIds) < abs.cap THEN Cardinality(KeyIds) ELSE abs.cap)
NewestKept == (abs.cap > 0 /\ KeyIds # {}) =>
              Last(abs.gops)[1] = CHOOSE k \in KeyIds : \A j \in KeyIds : j <= k
LatestHeaders ==
  LET latest(k) == LET S == {n \in 1 .. Len(h) : h[n] = k}
                   IN IF S = {} THEN NoPkt ELSE CHOOSE n \in S : \A m \in S : m <= n
  IN abs.md = latest("md") /\ abs.vs = latest("vseq") /\ abs.as = latest("aseq")

\* G02
Bounded == /\ Len(abs.gops) <= abs.cap
           /\ \A g \in DOMAIN abs.gops : Len(abs.gops[g]) <= MaxGop

\* G03: a failing reader gets a prefix
PrefixOnFailure == \A n \in 0 .. Depth + 3 : IsPrefix(ReplayTo(abs, n).ids, Replay(abs))

EmitBehaviour == (Emit /\ Len(h) = Depth) => PrintT("@@" \o ToJson([cap |-> abs.cap, h |-> h]))
=============================================================================
