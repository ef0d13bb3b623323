------------------------------ MODULE MC_Block ------------------------------
EXTENDS Block, Json
CONSTANTS MaxSteps, Emit
VARIABLE hist
vars == <<bvars, hist>>
Do(op) == hist' = Append(hist, op)
G(b) == [on |-> TRUE, b |-> b, n |-> 0]
M(a, b) == [on |-> TRUE, a |-> a, b |-> b, n |-> 0]
NoG == [on |-> FALSE, b |-> 0, n |-> 0]
NoM == [on |-> FALSE, a |-> 0, b |-> 0, n |-> 0]
Init == BInit /\ hist = <<>>
Next == /\ Len(hist) < MaxSteps
        /\ IF hist = <<>>
           THEN \/ \E k \in {"def", "gp", "mp", "own"} : Make(G(5), M(2, 3), k) /\ Do(<<"new", 2, 3, 5, k>>)
                \/ Make(G(5), NoM, "gp") /\ Do(<<"gen", 5>>)
                \/ Make(NoG, M(2, 3), "mp") /\ Do(<<"mod", 2, 3>>)
           ELSE \/ \E x \in {1, 2} : Prime(4 * x) /\ Do(<<"prime", x>>)
                \/ Run /\ Do(<<"proc">>)
                \/ gen.on /\ CallGen /\ Do(<<"callg">>)
                \/ mod.on /\ CallMod(12) /\ Do(<<"callm", 3>>)
                \/ gen.on /\ SwapGen(7) /\ Do(<<"swapg", 7>>)
                \/ mod.on /\ SwapMod(4, 9) /\ Do(<<"swapm", 4, 9>>)
\* Many runs are as many of one each, and they repeat themselves.
RECURSIVE Outs(_, _, _)
Outs(b, x, n) == IF n = 0 THEN <<>> ELSE Append(Outs(b, x, n - 1), Combine([b.inter EXCEPT !.n = (@ + n - 1) % 8], GenOf([b.gen EXCEPT !.n = @ + n - 1]), ModOf([b.mod EXCEPT !.n = @ + n - 1], x)))
ASSUME \A k \in {"def", "gp", "mp", "own"}, on \in BOOLEAN :
  LET o == Outs([gen |-> [on |-> on, b |-> 5, n |-> 0], mod |-> [on |-> on, a |-> 2, b |-> 3, n |-> 0], inter |-> [k |-> k, n |-> 0]], 12, Period + 90)
  IN  \A i \in 1..90 : o[i] = o[i + Period]
Spec == Init /\ [][Next]_vars
View == <<bvars, Len(hist)>>
EmitTest == Emit => PrintT("TEST " \o ToJson(hist'))
=============================================================================
