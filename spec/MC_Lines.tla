------------------------------- MODULE MC_Lines -------------------------------
(* Delay, echo and generic filter of small lengths, on all short inputs, with *)
(* everything that went in and came out on the side.                          *)
EXTENDS Lines, Json
CONSTANTS MaxSteps, Inputs, Emit
VARIABLES d, del, echo, gen, p, ins, des, ees, ges
vars == <<d, del, echo, gen, p, ins, des, ees, ges>>
One == S
Half == S \div 2
\* Filters: terms in and out of order, repeated, missing, none.
Filters == {<<0>>, <<1, 0, One>>, <<2, 1, Half, 0, One>>, <<0, 0, Half>>, <<1, 0, One, 0, Half>>,
            <<2, 2, One, 0, -One, 1, Half>>, <<1, 0, One, 0, Half, 0, -Half>>, <<2, 1, One, 1, One>>}
Init == /\ d \in 0 .. 3 /\ p \in Filters /\ del = LineStart /\ echo = LineStart /\ gen = GenericStart
        /\ ins = <<>> /\ des = <<>> /\ ees = <<>> /\ ges = <<>>
E == Max2(d, 1)
Values == {k * Half : k \in -24 .. 24}
\* The output a step allows: there's to be exactly one, up to its tolerance.
Next == Len(ins) < MaxSteps /\ \E v \in Inputs :
  LET x == v * One
      dy == CHOOSE y \in {x, Held(del, del.n - d)} : DelayStep(d, del, x, y) # {}
      ey == SatAdd(FMul(Half, Held(echo, echo.n - E)), x)
      gy == TermSum(p, Pushed(gen.xs, x, Max2(1, Reach(p, 1, p[1]))), gen.ys, 1, 0)
  IN  /\ del' \in DelayStep(d, del, x, dy) /\ echo' \in EchoStep(E, Half, echo, x, ey) /\ gen' \in GenericStep(p, gen, x, gy)
      /\ ins' = Append(ins, x) /\ des' = Append(des, dy) /\ ees' = Append(ees, ey) /\ ges' = Append(ges, gy)
      /\ UNCHANGED <<d, p>>
Spec == Init /\ [][Next]_vars
At(q, i) == IF i \in DOMAIN q THEN q[i] ELSE 0
Delayed == \A i \in DOMAIN ins : des[i] = At(ins, i - d)
Echoed  == \A i \in DOMAIN ins : ees[i] = ins[i] + FMul(Half, At(ees, i - E))
Filtered == LET RECURSIVE Sum(_, _)
                Sum(i, k) == IF k > Terms(p) THEN 0
                             ELSE FMul(Coeff(p, k), IF k <= p[1] THEN At(ins, i - Index(p, k)) ELSE At(ges, (i - 1) - Index(p, k))) + Sum(i, k + 1)
            IN  \A i \in DOMAIN ins : ges[i] = Sum(i, 1)
\* Nothing is remembered for longer than it takes.
Forgets == /\ \A i \in DOMAIN del.h : i >= del.n - d
           /\ \A i \in DOMAIN echo.h : i >= echo.n - E
           /\ Len(gen.xs) <= Max2(1, Reach(p, 1, p[1])) /\ Len(gen.ys) <= Reach(p, p[1] + 1, Terms(p))
\* Skipping zeros comes to the same as taking them one at a time.
RECURSIVE Zeros(_, _, _, _)
Zeros(s, len, e, n) == IF n = 0 THEN s
  ELSE LET y == IF e THEN FMul(Half, Held(s, s.n - len)) ELSE IF len = 0 THEN 0 ELSE Held(s, s.n - len)
       IN  Zeros(Hold(s, len, IF e THEN y ELSE 0), len, e, n - 1)
RECURSIVE Outs(_, _, _, _)
Outs(s, len, e, n) == IF n = 0 THEN <<>>
  ELSE LET y == IF e THEN FMul(Half, Held(s, s.n - len)) ELSE IF len = 0 THEN 0 ELSE Held(s, s.n - len)
       IN  <<y>> \o Outs(Hold(s, len, IF e THEN y ELSE 0), len, e, n - 1)
Range(q) == {q[i] : i \in DOMAIN q}
Skippable == /\ \A n \in 1 .. 4 : LET o == Outs(del, d, FALSE, n) IN
                 LineSkip(d, 0, FALSE, del, n, Least(Range(o)), Greatest(Range(o)), o[n]) = {Zeros(del, d, FALSE, n)}
             /\ \A n \in 1 .. E : LET o == Outs(echo, E, TRUE, n) IN
                 LineSkip(E, Half, TRUE, echo, n, Least(Range(o)), Greatest(Range(o)), o[n]) = {Zeros(echo, E, TRUE, n)}
\* A filter that is given the same for long comes to what a skip says, and not to something else.
RECURSIVE Fed(_, _, _, _)
Fed(f, s, x, n) == IF n = 0 THEN s ELSE
  LET y == TermSum(f, Pushed(s.xs, x, Max2(1, Reach(f, 1, f[1]))), s.ys, 1, 0)
  IN  Fed(f, [xs |-> Pushed(s.xs, x, Max2(1, Reach(f, 1, f[1]))), ys |-> Pushed(s.ys, y, Max2(1, Reach(f, f[1] + 1, Terms(f))))], x, n - 1)
ASSUME \A f \in Filters \ {<<1, 0, One, 0, Half, 0, -Half>>} : \A x \in {0, One, -3 * One} :
  LET y == TermSum(f, [i \in 1 .. 8 |-> x], Fed(f, [xs |-> <<One>>, ys |-> <<Half>>], x, 60).ys, 1, 0)
      skip(v) == GenericSkip(f, GenericStart, 5000, x, -50 * One, 50 * One, v)
  IN  skip(y) = {Settled(f, x, y)} /\ skip(y + 1000) = {} /\ skip(y - 1000) = {}
EmitTest == Emit /\ Len(ins') = MaxSteps => PrintT("TEST " \o ToJson(<<d, p, ins'>>))
=============================================================================
