-------------------------------- MODULE Keep --------------------------------
(* Memory that crosses a call: what the caller hands in and what it gets.     *)
(*                                                                            *)
(* The caller of an object keeps every argument (which lies in front of other *)
(* memory of its own) and every result. An object that builds results in      *)
(* memory of its own and only reads its arguments leaves all of them as they  *)
(* were, whatever is called later; one that builds results in a work area it  *)
(* uses again (Reuse), writes into its argument (Scratch) or behind it (Spill)*)
(* is told apart by some history, which TLC finds. The histories drive the    *)
(* real objects.                                                              *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Kinds, Calls, Reuse, Scratch, Spill, Emit

VARIABLES mem,   \* cells of memory
          held,  \* what the caller holds: cells, with the contents they had
          work,  \* the object's work area: a cell, 0 before there is one
          hist   \* the kinds of calls made so far

vars == <<mem, held, work, hist>>

Init == mem = <<>> /\ held = <<>> /\ work = 0 /\ hist = <<>>

Result(k, n) == <<"result", k, n>>

Call(k) ==
  /\ Len(hist) < Calls
  /\ LET n   == Len(hist) + 1
         arg == Len(mem) + 1          \* the argument, and what lies behind it
         m1  == mem \o << <<"argument", k, n>>, <<"behind", k, n>> >>
         m2  == [m1 EXCEPT ![arg] = IF Scratch THEN <<"scratch", k, n>> ELSE @,
                           ![arg + 1] = IF Spill THEN <<"spilled", k, n>> ELSE @]
         res == IF Reuse /\ work # 0 THEN work ELSE arg + 2
         m3  == IF res = arg + 2 THEN Append(m2, Result(k, n)) ELSE [m2 EXCEPT ![res] = Result(k, n)]
     IN /\ mem' = m3
        /\ work' = res
        /\ held' = held \o << [at |-> arg, was |-> m1[arg]], [at |-> arg + 1, was |-> m1[arg + 1]], [at |-> res, was |-> m3[res]] >>
  /\ hist' = Append(hist, k)

Next == \E k \in Kinds : Call(k)
Spec == Init /\ [][Next]_vars

Undisturbed == \A h \in 1..Len(held) : mem[held[h].at] = held[h].was

EmitHistory == (Emit /\ Len(hist) = Calls) => PrintT("@@" \o ToJson([kinds |-> hist]))
=============================================================================
