------------------------------ MODULE TsClock -------------------------------
(* The audio clock under any sequence of published timestamps: stated again   *)
(* in plain milliseconds and ticks, without the limbs of module Ts (T06).     *)
EXTENDS Ts, TLC, Json

CONSTANTS Depth, Emit, Rates, Steps

VARIABLES clk, ts, rate, out, anchor, since, h
vars == <<clk, ts, rate, out, anchor, since, h>>

Init == /\ rate \in Rates
        /\ clk = NoClock /\ ts = 0 /\ out = 0 /\ anchor = 0 /\ since = 0 /\ h = <<>>

Value(t) == (t[1] * B15 + t[2]) * B15 + t[3]          \* small ones only

Abs(x) == IF x < 0 THEN -x ELSE x

Publish(d) ==
  LET t == ts + d
      j == AudioTime(clk, Ms(Small(t)), rate)
      run == anchor + since * ((90000 * 1024) \div rate)
  IN /\ t >= 0 /\ ts' = t
     /\ clk' = j.c /\ out' = Value(j.t)
     /\ IF Abs(run - 90 * t) <= 900 THEN since' = since + 1 /\ UNCHANGED anchor
        ELSE anchor' = 90 * t /\ since' = 1
     /\ h' = Append(h, d) /\ UNCHANGED rate

\* steps of 1000 and more go back
Next == Len(h) < Depth /\ \E d \in Steps : Publish(IF d >= 1000 THEN 1000 - d ELSE d)
Spec == Init /\ [][Next]_vars

\* never more than 10 ms from the published timestamp
NoDrift == h # <<>> => Abs(out - 90 * ts) <= 900
\* the running clock, counted independently
Counted == h # <<>> => out = anchor + (since - 1) * ((90000 * 1024) \div rate)
Agrees == Value(clk.anchor) = anchor /\ clk.n = since
EmitBehaviour == (Emit /\ Len(h) = Depth) => PrintT("@@" \o ToJson([rate |-> rate, h |-> h]))
=============================================================================
