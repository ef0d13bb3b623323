------------------------------ MODULE Trace_Dev ------------------------------
(* Recorded histories of real generators, modifiers and sample players as    *)
(* behaviours of Devices.tla.                                                *)
EXTENDS Devices, TraceKit
vars == <<objs, l>>
TInit == objs = <<>> /\ l = 1
TNext ==
  \/ Is("S") /\ objs' = <<>>
  \/ Is("new") /\ New(Ev.i, Ev.k, Ev.p, Ev.d)
  \/ Is("clone") /\ Clone(Ev.i, Ev.n)
  \/ Is("drop") /\ Drop(Ev.i)
  \/ Is("p") /\ Process(Ev.i, Ev.x, Ev.y)
  \/ Is("form") /\ AddFormula(Ev.i, Ev.seed)
  \/ Is("skip") /\ Skip(Ev.i, Ev)
  \/ Is("set") /\ Set(Ev.i, Ev.w, Ev.v)
  \/ Is("get") /\ Reads(objs[Ev.i], Ev.w, Ev.v) /\ UNCHANGED objs
TSpec == TInit /\ [][TNext]_vars
=============================================================================
