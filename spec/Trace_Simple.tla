----------------------------- MODULE Trace_Simple -----------------------------
(* Recorded histories of real SimpleSounds as behaviours of SimpleSound.tla. *)
EXTENDS SimpleSound, TraceKit
vars == <<svars, l>>
TInit == SInit /\ l = 1
Blk(r) == [k |-> IF r[3] = 1 THEN "gen" ELSE "raw", a |-> r[1], b |-> r[2]]
\* Everything the sound reports after the call.
Reported == Ev.rig = ig' /\ Ev.rog = og' /\ Ev.p = paused' /\ Ev.m = muted' /\ Ev.id = id'
TNext ==
  \/ Is("S") /\ UNCHANGED svars
  \/ Is("new") /\ Create(Ev.ig, Ev.og, [k |-> Ev.k, a |-> Ev.a, b |-> Ev.b]) /\ Reported
  \/ (Is("add") \/ Is("ext")) /\ Extend([i \in 1..Len(Ev.l) |-> Blk(Ev.l[i])]) /\ Reported
  \/ Is("ig") /\ SetIn(Ev.v) /\ Reported
  \/ Is("og") /\ SetOut(Ev.v) /\ Reported
  \/ Is("pause") /\ TogglePause /\ Reported
  \/ Is("mute") /\ ToggleMute /\ Reported
  \/ Is("reg") /\ Register(Ev.v) /\ Reported
  \/ Is("unreg") /\ Register(NoId) /\ Reported
  \/ Is("proc") /\ Process(Ev.x) /\ Ev.y = out' /\ Ev.calls = calls' /\ Reported
  \/ Is("copy") /\ UNCHANGED svars /\ Reported
  \/ Is("twin") /\ Ev.ok /\ UNCHANGED svars /\ Reported
  \/ /\ Is("run") /\ ProcessMany(Ev.n) /\ Reported
     /\ (paused \/ muted) => Ev.silent
     /\ Ev.runs = IF paused THEN <<>> ELSE [i \in DOMAIN chain |-> <<i - 1, Ev.n>>]
TSpec == TInit /\ [][TNext]_vars
=============================================================================
