----------------------------- MODULE Trace_Graph -----------------------------
(***************************************************************************)
(* Recorded histories of real ComplexSounds as behaviours of Graph.tla.    *)
(* CHECK = "order" decides the order blocks run in (C01), "flow" what they *)
(* are fed and return, and the states of the sound (C02, C03). Orders are  *)
(* taken from the trace, whichever of the allowed ones it is.              *)
(***************************************************************************)
EXTENDS Graph, TraceKit

vars == <<gvars, l>>
CheckOrder == IOEnv.CHECK = "order"
CheckFlow  == IOEnv.CHECK # "order"

TInit == GInit(4, 4) /\ l = 1

\* The order in force after the call, as reported.
Ordered == order' = Ev.ord /\ (CheckOrder => ValidOrder(order', Len(blocks'), edges'))
\* The states the sound reports after the call.
Reported == CheckFlow => Ev.p = paused' /\ Ev.m = muted' /\ Ev.id = id'
Same == order' = order /\ (CheckOrder => Ev.ord = order)

New == /\ Is("new")
       /\ blocks' = <<[k |-> "gain", a |-> Ev.ig, b |-> 0], [k |-> "gain", a |-> Ev.og, b |-> 0]>>
       /\ edges' = {} /\ pend' = <<0, 0>> /\ cnt' = <<0, 0>>
       /\ paused' = FALSE /\ muted' = FALSE /\ id' = NoId /\ out' = 0 /\ calls' = <<>>
       /\ Ordered /\ Reported
Blk == Is("blk") /\ AddBlock(Ev.k, Ev.a, Ev.b) /\ Ordered /\ Reported
Con == Is("con") /\ Connect(Ev.a, Ev.b) /\ Ordered /\ Reported
Dis == Is("dis") /\ Disconnect(Ev.a, Ev.b) /\ Ordered /\ Reported
Pau == Is("pause") /\ TogglePause /\ Same /\ Reported
Mut == Is("mute") /\ ToggleMute /\ Same /\ Reported
Reg == Is("reg") /\ Register(Ev.v) /\ Same /\ Reported
Unr == Is("unreg") /\ Unregister /\ Same /\ Reported

\* The gains aren't the harness's own and don't record their runs.
Visible(c) == SelectSeq(c, LAMBDA r : r[1] \notin {IG, OG})
Set(c) == {c[i] : i \in 1..Len(c)}
Pro == /\ Is("proc") /\ Same
       /\ IF CheckOrder
          THEN \* the blocks that ran are those of the order, in that order
               /\ LET ran == [i \in 1..Len(Ev.calls) |-> Ev.calls[i][1]]
                  IN  IF paused THEN TRUE ELSE ran = SelectSeq(order, LAMBDA n : n \notin {IG, OG})
               /\ UNCHANGED <<blocks, edges, pend, cnt, paused, muted, id, out, calls>>
          ELSE /\ Process(Ev.x)
               /\ Ev.y = out'
               /\ LET v == Visible(calls') IN Len(v) = Len(Ev.calls) /\ Set(v) = Set(Ev.calls)
               /\ Reported
Mny == /\ Is("run") /\ Same /\ ProcessMany(Ev.n) /\ Reported
       /\ CheckFlow /\ (paused \/ muted) => Ev.silent
       /\ Ev.runs = IF paused THEN <<>> ELSE [i \in 1 .. Len(blocks) - 2 |-> <<i + 1, Ev.n>>]
\* A copy in the sound's place carries on as it did, and one of its own has its own connections and states.
Cpy == Is("copy") /\ UNCHANGED gvars /\ Same /\ Reported
Twn == Is("twin") /\ Ev.ok /\ UNCHANGED gvars /\ Same /\ Reported
Start == Is("S") /\ UNCHANGED gvars

TNext == New \/ Blk \/ Con \/ Dis \/ Pau \/ Mut \/ Reg \/ Unr \/ Pro \/ Mny \/ Cpy \/ Twn \/ Start
TSpec == TInit /\ [][TNext]_vars
=============================================================================
