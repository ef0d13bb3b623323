----------------------------- MODULE Trace_Listing -----------------------------
EXTENDS TraceKit
VARIABLES file, phase, listed, comma, snag
\* A file is where it is in the trace; 0 is the empty one.
TheContent(f) == IF f = 0 THEN <<>> ELSE Trace[f].b
INSTANCE Listing WITH Content <- TheContent
vars == <<lvars, l>>
TInit == ListInit(0) /\ l = 1
TNext ==
  \/ Is("S") /\ Begin(0, "none")
  \/ Is("in") /\ Begin(l, CASE Ev.op = "bytes" -> "none" [] Ev.op = "room" -> (IF Ample(l, Ev.room) THEN "none" ELSE "room") [] OTHER -> Ev.op)
  \/ Is("line") /\ Line(Ev.c)
  \/ Is("end") /\ End(Ev.rc)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
