-------------------------------- MODULE Block --------------------------------
(***************************************************************************)
(* A standard block: input accumulates until the block runs; then the      *)
(* generator and the modifier each run once, the modifier on what has      *)
(* accumulated, and the interactor combines the two. Units of 1/4.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
VARIABLES gen,      \* [on, b, n]: whether it's one of ours, its step, how often it ran
          mod,      \* [on, a, b, n]
          inter,    \* [k, n]
          waiting,  \* what has accumulated
          out,
          ran       \* [g, m, i]: the recorded runs of the last pass
bvars == <<gen, mod, inter, waiting, out, ran>>

GenOf(g) == IF g.on THEN 4 * ((g.b * (g.n % 101)) % 101) ELSE 0
ModOf(m, x) == IF m.on THEN (m.a * x + 4 * ((m.b * (m.n % 101)) % 101)) % 404 ELSE x
Combine(i, g, m) ==
  CASE i.k = "def" -> (g \div 4) * m
    [] i.k = "gp"  -> g
    [] i.k = "mp"  -> m
    [] OTHER       -> g + 128 * m + 4 * 65536 * i.n

BInit == /\ gen = [on |-> FALSE, b |-> 0, n |-> 0] /\ mod = [on |-> FALSE, a |-> 0, b |-> 0, n |-> 0]
         /\ inter = [k |-> "mp", n |-> 0] /\ waiting = 0 /\ out = 0 /\ ran = [g |-> <<>>, m |-> <<>>, i |-> <<>>]
Make(g, m, k) ==
  /\ gen' = g /\ mod' = m /\ inter' = [k |-> k, n |-> 0] /\ waiting' = 0 /\ out' = 0
  /\ ran' = [g |-> <<>>, m |-> <<>>, i |-> <<>>]
Prime(x) == waiting' = waiting + x /\ UNCHANGED <<gen, mod, inter, out, ran>>
RunIn(before, x) ==
  LET g == GenOf(before.gen)
      m == ModOf(before.mod, x)
      y == Combine(before.inter, g, m)
  IN  /\ out' = y
      /\ ran' = [g |-> IF gen.on THEN <<<<0, g>>>> ELSE <<>>,
                 m |-> IF mod.on THEN <<<<x, m>>>> ELSE <<>>,
                 i |-> IF inter.k = "own" THEN <<<<g, m, y>>>> ELSE <<>>]
      /\ gen' = [before.gen EXCEPT !.n = @ + 1] /\ mod' = [before.mod EXCEPT !.n = @ + 1]
      /\ inter' = [before.inter EXCEPT !.n = (@ + 1) % 8]
      /\ waiting' = 0
Later(n) == [gen |-> [gen EXCEPT !.n = @ + n], mod |-> [mod EXCEPT !.n = @ + n], inter |-> [inter EXCEPT !.n = (@ + n) % 8]]
Run == RunIn(Later(0), waiting)
\* n > 1 runs, one after the other, each with x primed before it. What comes out repeats itself after Period of them.
Period == 8 * 101
RunMany(n, x) == n > 1 /\ RunIn(Later(n - 1), x)
\* The generator and modifier can be got at, run and replaced from outside.
CallGen    == out' = GenOf(gen) /\ gen' = [gen EXCEPT !.n = @ + 1] /\ UNCHANGED <<mod, inter, waiting, ran>>
CallMod(x) == out' = ModOf(mod, x) /\ mod' = [mod EXCEPT !.n = @ + 1] /\ UNCHANGED <<gen, inter, waiting, ran>>
SwapGen(b) == gen' = [on |-> TRUE, b |-> b, n |-> 0] /\ UNCHANGED <<mod, inter, waiting, out, ran>>
SwapMod(a, b) == mod' = [on |-> TRUE, a |-> a, b |-> b, n |-> 0] /\ UNCHANGED <<gen, inter, waiting, out, ran>>

\* Properties of the design.
Consumed == [][gen'.n > gen.n /\ mod'.n > mod.n => waiting' = 0]_bvars
Untouched == [][waiting' # waiting => ((gen' = gen /\ mod' = mod) \/ waiting' = 0)]_bvars
=============================================================================
