-------------------------------- MODULE Iso ---------------------------------
(* Independent objects used alternately.                                      *)
(*                                                                            *)
(* Each object has its own history of calls. A call goes through Points       *)
(* places where it calls back (its writer or reader), and other objects' calls*)
(* may run there and between calls. An object builds its reply in some work   *)
(* area: its own one, or (if Shared) one that all objects use. With work      *)
(* areas of their own, every reply is the one the object gives alone,         *)
(* whatever the schedule; TLC finds the schedules that tell the two apart.    *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json

CONSTANTS Objects, Calls, Points, Shared, Emit

VARIABLES area,    \* work areas
          mine,    \* what an object remembers from its earlier calls
          at,      \* <<call, point>> of each object
          replies, \* what each object's calls returned
          sched    \* who ran, so far

vars == <<area, mine, at, replies, sched>>

Slot(o) == IF Shared THEN 0 ELSE o

Init == /\ area = [s \in {0} \cup Objects |-> <<>>]
        /\ mine = [o \in Objects |-> 0]
        /\ at = [o \in Objects |-> <<1, 0>>]
        /\ replies = [o \in Objects |-> <<>>]
        /\ sched = <<>>

Done(o) == at[o][1] > Calls

\* o runs up to its next pause: it clears its work area when a call starts,
\* adds to it, and returns what is there at the end
Run(o) ==
  /\ ~Done(o)
  /\ LET c == at[o][1]  p == at[o][2]
         w == IF p = 0 THEN <<>> ELSE area[Slot(o)]
         w2 == Append(w, <<o, c, p, mine[o]>>)
     IN /\ area' = [area EXCEPT ![Slot(o)] = w2]
        /\ IF p = Points
           THEN /\ replies' = [replies EXCEPT ![o] = Append(@, w2)]
                /\ mine' = [mine EXCEPT ![o] = @ + 1]
                /\ at' = [at EXCEPT ![o] = <<c + 1, 0>>]
           ELSE /\ at' = [at EXCEPT ![o] = <<c, p + 1>>]
                /\ UNCHANGED <<replies, mine>>
  /\ sched' = Append(sched, o)

Next == \E o \in Objects : Run(o)
Spec == Init /\ [][Next]_vars

\* what object o alone returns from its c-th call
Alone(o, c) == [p \in 1..(Points + 1) |-> <<o, c, p - 1, c - 1>>]

NonInterference == \A o \in Objects : \A c \in DOMAIN replies[o] : replies[o][c] = Alone(o, c)

Finished == \A o \in Objects : Done(o)
EmitSchedule == (Emit /\ Finished) => PrintT("@@" \o ToJson([sched |-> sched]))
=============================================================================
