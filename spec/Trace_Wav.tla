------------------------------ MODULE Trace_Wav ------------------------------
(* Recorded writing and reading of real files as behaviours of Wav.tla.      *)
EXTENDS Wav, TraceKit
vars == <<wvars, l>>
TInit == WavInit /\ l = 1
TNext ==
  \/ Is("S") /\ tracks' = <<>> /\ file' = <<>> /\ sched' = <<1048576>> /\ full' = <<>> /\ at' = 0
  \/ Is("track") /\ AddTrack(Ev.s)
  \/ Is("clear") /\ ClearTracks
  \/ Is("sched") /\ Schedule(Ev.s)
  \/ Is("write") /\ Write(Ev.bits, Ev.clip, Ev.ok, Ev.failed, Ev.zero, Ev.b)
  \/ Is("file") /\ SetFile(Ev.b)
  \/ Is("read") /\ Read(Ev.n, Ev.failed, Ev)
  \/ Is("vr") /\ Take(Ev.size, Ev.n, Ev.b, Ev.rest)
  \/ Is("long") /\ LongTrip(Ev)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
