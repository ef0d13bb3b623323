------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* What every trace specification shares: the recorded events, a position  *)
(* in them, and acceptance. A trace is a behaviour of the specification if *)
(* some behaviour consumes all of its events, one per step.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TR)
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1

Accepted ==
  LET d == TLCGet("stats").diameter
  IN  IF d = Len(Trace) + 1 THEN PrintT("ACCEPTED " \o ToString(Len(Trace)))
      ELSE PrintT("REJECTED_AT " \o ToString(d)) /\ PrintT("EVENT " \o ToJson(Trace[d]))
=============================================================================
