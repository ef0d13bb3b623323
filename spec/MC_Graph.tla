------------------------------ MODULE MC_Graph ------------------------------
(* Graph.tla with small constants, and the tests its transitions make.      *)
EXTENDS Graph, Json

CONSTANTS MaxNodes, MaxPasses, Kinds, Emit, Seconds
VARIABLES hist, passes
vars == <<gvars, hist, passes>>
AnyOrder == {<<IG>> \o p \o <<OG>> : p \in UNION {[1..k -> 2..(k + 1)] : k \in 0..(MaxNodes - 2)}}

Init == GInit(4, 4) /\ hist = <<>> /\ passes = 0
Do(op) == hist' = Append(hist, op)

Edit == \/ /\ Len(blocks) < MaxNodes
           /\ \E k \in Kinds : AddBlock(k, 2, Len(blocks)) /\ Do(<<"blk", k, 2, Len(blocks)>>)
        \/ \E a, b \in Nodes : <<a, b>> \notin edges /\ Connect(a, b) /\ Do(<<"con", a, b>>)
        \/ \E a, b \in Nodes : <<a, b>> \in edges /\ Disconnect(a, b) /\ Do(<<"dis", a, b>>)
Next ==
  \/ Edit /\ order' \in AnyOrder /\ Reorder /\ UNCHANGED passes
  \/ /\ passes < MaxPasses /\ passes' = passes + 1
     /\ \E x \in {0, 1} : Process(4 * x) /\ Do(<<"proc", x>>)
     /\ UNCHANGED order
  \/ TogglePause /\ Do(<<"pause">>) /\ UNCHANGED <<order, passes>>
  \/ ToggleMute /\ Do(<<"mute">>) /\ UNCHANGED <<order, passes>>

\* Breadth first, as far as that many seconds take it.
Budget == TLCGet("duration") >= Seconds => TLCSet("exit", TRUE)

Spec == Init /\ [][Next]_vars

\* What distinguishes situations worth a test of their own: the history is not part of it.
View == <<blocks, edges, order, paused, muted, passes, pend, cnt>>
TestView == <<Len(blocks), edges, paused, muted, passes, {n \in Nodes : pend[n + 1] # 0}>>
EmitTest == Emit => PrintT("TEST " \o ToJson(hist'))
=============================================================================
