----------------------------- MODULE Trace_Block -----------------------------
(* Recorded histories of real StandardBlocks as behaviours of Block.tla.     *)
EXTENDS Block, TraceKit
vars == <<bvars, l>>
TInit == BInit /\ l = 1
Gen == [on |-> TRUE, b |-> Ev.gb, n |-> 0]
Mod == [on |-> TRUE, a |-> Ev.a, b |-> Ev.b, n |-> 0]
TNext ==
  \/ Is("S") /\ UNCHANGED bvars
  \/ Is("new") /\ Make(Gen, Mod, Ev.k)
  \/ Is("gen") /\ Make(Gen, [on |-> FALSE, a |-> 0, b |-> 0, n |-> 0], "gp")
  \/ Is("mod") /\ Make([on |-> FALSE, b |-> 0, n |-> 0], Mod, "mp")
  \/ Is("prime") /\ Prime(Ev.x)
  \/ Is("proc") /\ Run /\ Ev.y = out' /\ Ev.g = ran'.g /\ Ev.m = ran'.m /\ Ev.i = ran'.i
  \/ Is("run") /\ RunMany(Ev.n, Ev.x) /\ Ev.y = out' /\ Ev.g = ran'.g /\ Ev.m = ran'.m /\ Ev.i = ran'.i /\ Ev.odd = 0
     /\ Ev.ran = <<IF gen.on THEN Ev.n ELSE 0, IF mod.on THEN Ev.n ELSE 0, IF inter.k = "own" THEN Ev.n ELSE 0>>
  \/ Is("callg") /\ CallGen /\ Ev.y = out'
  \/ Is("callm") /\ CallMod(Ev.x) /\ Ev.y = out'
  \/ Is("swapg") /\ SwapGen(Ev.gb)
  \/ Is("swapm") /\ SwapMod(Ev.a, Ev.b)
  \/ Is("same") /\ Ev.ok /\ UNCHANGED bvars
TSpec == TInit /\ [][TNext]_vars
=============================================================================
