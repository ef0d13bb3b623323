------------------------------ MODULE Trace_Misc ------------------------------
(* Recorded results of the utilities, judged by Units.tla.                    *)
EXTENDS Units, TraceKit
VARIABLE long   \* what is known of the long track
vars == <<l, long>>
Judged ==
  \/ Is("S")
  \/ Is("norm") /\ Normalised(Ev.db, Ev.t, Ev.y, Ev.z)
  \/ Is("s2s") /\ ToSeconds(Ev.n, Ev.sec, Ev.ns, Ev.back)
  \/ Is("big") /\ FromHours(Ev.n, Ev)
  \/ Is("dur") /\ ToSamples(Ev.sec, Ev.ns, Ev.n)
  \/ Is("db") /\ Gains(Ev.db, Ev.g24, Ev.g10, Ev.back)
  \/ Is("lin") /\ Decibels(Ev.g, Ev.db, Ev.back)
  \/ Is("near") /\ Ev.r = Alike(Ev.a[1], Ev.a[2], Ev.a[3])
  \/ Is("lerp") /\ Interpolates(Ev.pr, Ev.a, Ev.l, Ev.c)
TInit == l = 1 /\ long = LongStart(0, 0)
TNext ==
  \/ Is("nlong") /\ Ev.ny = Ev.n /\ Ev.nz = Ev.n /\ long' = LongStart(Ev.db, Ev.n)
  \/ Is("nin") /\ long' = LongIn(long, Ev.t)
  \/ Is("nout") /\ LongOut(long, Ev.t, Ev.y, Ev.z)
                 /\ long' = [long EXCEPT !.out = long.out + Len(Ev.t), !.loudest = Largest(Ev.y, 0, 1, long.loudest)]
  \/ Is("nend") /\ LongEnd(long) /\ UNCHANGED long
  \/ UNCHANGED long /\ Judged
TSpec == TInit /\ [][TNext]_vars
=============================================================================
