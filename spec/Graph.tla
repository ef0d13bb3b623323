-------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* A complex sound: blocks connected as a directed graph, run in an order  *)
(* that respects the connections, each run's sample going to the blocks    *)
(* connected downstream, where it waits until they run.                    *)
(*                                                                         *)
(* One action per public call. The order is not a function of the graph:   *)
(* any order allowed by ValidOrder may be in force, and every edit may     *)
(* bring a different one.                                                  *)
(***************************************************************************)
EXTENDS Blocks, FiniteSets, TLC

VARIABLES blocks,   \* sequence; node n is blocks[n+1]; 0 input gain, 1 output gain
          edges,    \* set of <<from, to>>
          order,    \* sequence of nodes, the order of a pass
          pend,     \* sequence: what waits at the node's input
          cnt,      \* sequence: how often the node has run
          paused, muted, id,
          out,      \* what the last pass returned
          calls     \* <<node, input, output>> of the last pass, in its order

gvars == <<blocks, edges, order, pend, cnt, paused, muted, id, out, calls>>

IG == 0
OG == 1
NoId == -1
Nodes == 0..(Len(blocks) - 1)

(***************************************************************************)
(* Orders                                                                  *)
(***************************************************************************)
\* Connections into the input gain and out of the output gain are feedback.
Forward(E) == {e \in E : e[2] # IG /\ e[1] # OG}

RECURSIVE Closure(_, _, _)
Closure(F, done, todo) ==
  IF todo = {} THEN done
  ELSE LET next == {e[2] : e \in {f \in F : f[1] \in todo}}
       IN  Closure(F, done \cup todo, next \ (done \cup todo))
\* The nodes that a's samples get to, a itself included.
ReachedFrom(F, a) == Closure(F, {}, {a})

Position(o) == [n \in {o[i] : i \in 1..Len(o)} |-> CHOOSE i \in 1..Len(o) : o[i] = n]

ValidOrder(o, n, E) ==
  /\ Len(o) = n
  /\ {o[i] : i \in 1..n} = 0..(n - 1)
  /\ o[1] = IG
  /\ o[n] = OG
  /\ LET pos == Position(o)
         F   == Forward(E)
     IN  \A e \in F : pos[e[1]] < pos[e[2]] \/ e[1] \in ReachedFrom(F, e[2])

Acyclic(E) == LET F == Forward(E) IN \A e \in F : e[1] \notin ReachedFrom(F, e[2])

(***************************************************************************)
(* One pass                                                                *)
(***************************************************************************)
RECURSIVE Run(_, _, _)
Run(o, i, st) ==
  IF i > Len(o) THEN st
  ELSE LET n  == o[i]
           in == st.pend[n + 1]
           y  == BlockOut(blocks[n + 1], st.cnt[n + 1], in)
           taken == [st.pend EXCEPT ![n + 1] = 0]
           to == {e[2] : e \in {f \in edges : f[1] = n}}
       IN  Run(o, i + 1,
             [pend  |-> [m \in 1..Len(taken) |-> IF (m - 1) \in to THEN taken[m] + y ELSE taken[m]],
              cnt   |-> [st.cnt EXCEPT ![n + 1] = @ + 1],
              calls |-> Append(st.calls, <<n, Seen(blocks[n + 1], in), y>>),
              out   |-> y])
Pass(o, x) == Run(o, 1, [pend |-> [pend EXCEPT ![IG + 1] = @ + x], cnt |-> cnt, calls |-> <<>>, out |-> 0])

(***************************************************************************)
(* Actions                                                                 *)
(***************************************************************************)
GInit(ig, og) ==
  /\ blocks = <<[k |-> "gain", a |-> ig, b |-> 0], [k |-> "gain", a |-> og, b |-> 0]>>
  /\ edges = {} /\ order = <<IG, OG>>
  /\ pend = <<0, 0>> /\ cnt = <<0, 0>>
  /\ paused = FALSE /\ muted = FALSE /\ id = NoId
  /\ out = 0 /\ calls = <<>>

AddBlock(k, a, b) ==
  /\ blocks' = Append(blocks, [k |-> k, a |-> a, b |-> b])
  /\ pend' = Append(pend, 0) /\ cnt' = Append(cnt, 0)
  /\ UNCHANGED <<edges, paused, muted, id, out, calls>>

Connect(a, b) ==
  /\ a \in Nodes /\ b \in Nodes
  /\ edges' = edges \cup {<<a, b>>}
  /\ UNCHANGED <<blocks, pend, cnt, paused, muted, id, out, calls>>

Disconnect(a, b) ==
  /\ a \in Nodes /\ b \in Nodes
  /\ edges' = edges \ {<<a, b>>}
  /\ UNCHANGED <<blocks, pend, cnt, paused, muted, id, out, calls>>

\* What an edit does to the order.
Reorder == ValidOrder(order', Len(blocks'), edges')

Process(x) ==
  /\ IF paused
     THEN out' = 0 /\ calls' = <<>> /\ UNCHANGED <<pend, cnt>>
     ELSE LET r == Pass(order, x) IN
          /\ pend' = r.pend /\ cnt' = r.cnt /\ calls' = r.calls
          /\ out' = IF muted THEN 0 ELSE r.out
  /\ UNCHANGED <<blocks, edges, paused, muted, id>>

\* Many passes at once, of a sound without feedback, in which nothing is left waiting after a pass (NothingLeft).
ProcessMany(n) ==
  /\ paused \/ (edges = Forward(edges) /\ Acyclic(edges))
  /\ IF paused THEN UNCHANGED <<pend, cnt>>
     ELSE pend' = [m \in DOMAIN pend |-> 0] /\ cnt' = [m \in DOMAIN cnt |-> cnt[m] + n]
  /\ UNCHANGED <<blocks, edges, paused, muted, id, out, calls>>

TogglePause == paused' = ~paused /\ UNCHANGED <<blocks, edges, pend, cnt, muted, id, out, calls>>
ToggleMute  == muted' = ~muted /\ UNCHANGED <<blocks, edges, pend, cnt, paused, id, out, calls>>
Register(i) == id' = i /\ UNCHANGED <<blocks, edges, pend, cnt, paused, muted, out, calls>>
Unregister  == Register(NoId)

(***************************************************************************)
(* Properties of the design                                                *)
(***************************************************************************)
OrderOK == ValidOrder(order, Len(blocks), edges)

\* In a pass every block ran exactly once, in the order of the pass.
EachOnce == [][calls' # calls /\ calls' # <<>> => [i \in DOMAIN calls' |-> calls'[i][1]] = order]_gvars

\* Without cycles the order makes no difference to what is computed.
Orders(n, E) == {o \in {<<IG>> \o p \o <<OG>> : p \in [1..(n - 2) -> 2..(n - 1)]} : ValidOrder(o, n, E)}
Confluent ==
  Acyclic(edges) =>
    \A x \in {0, 4} : \A o \in Orders(Len(blocks), edges) :
      LET r == Pass(o, x) q == Pass(order, x)
      IN  r.out = q.out /\ r.pend = q.pend /\ r.cnt = q.cnt

\* Without feedback nothing is left waiting at a block that had something feeding it.
NothingLeft ==
  (Acyclic(edges) /\ edges = Forward(edges)) =>
      LET r == Pass(order, 4) IN \A n \in Nodes : r.pend[n + 1] = 0

Frozen == [][paused => \A n \in DOMAIN cnt : cnt'[n] = cnt[n] /\ pend'[n] = pend[n]]_gvars
MutedSilent == [][(muted /\ calls' # calls) => out' = 0]_gvars
OneToggle == [][~(paused' # paused /\ muted' # muted)]_gvars
KeptWaiting == [][edges' # edges => UNCHANGED <<pend, cnt>>]_gvars
RunsTogether == [][\A n \in DOMAIN cnt : cnt'[n] = cnt[n] + (IF cnt'[1] > cnt[1] THEN 1 ELSE 0)]_gvars
=============================================================================
