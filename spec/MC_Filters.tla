------------------------------ MODULE MC_Filters ------------------------------
(* Filters over a grid of settings, on every start of three samples and then  *)
(* a constant, their settings changed once or not at all: the recurrence and  *)
(* the design run along agree, outputs stay bounded and settle.               *)
EXTENDS Filters, TLC, FiniteSets
CONSTANTS MaxSteps, Dense, Starts
VARIABLES k, c, s, x, y, n, changed
AllStarts == {-S, 0, S}
OneStart == {S}
vars == <<k, c, s, x, y, n, changed>>
Cuts == IF Dense THEN {20000, 100000, 440000, 1000000, 4000000, 8000000, 12000000, 20000000, 24000000} ELSE {100000, 4000000, 24000000}
Res == IF Dense THEN {0, S \div 4, S \div 2, S} ELSE {0, S}
Corners2 == IF Dense THEN {20000, 100000, 1000000, 8000000, 23000000} ELSE {100000, 1000000, 8000000}
Lh == {"lp", "hp"}
Configs(q) == CASE q \in Lh   -> {<<f, r>> : f \in Cuts, r \in Res}
                [] q = "bp"   -> {FromCorners(Fine(f[1]), Fine(f[2])) : f \in {g \in Corners2 \X Corners2 : g[1] # g[2]}}
                [] OTHER      -> {<<f, g>> : f \in Corners2, g \in Corners2}
Init == /\ k \in {"lp", "hp", "bp", "env"} /\ c \in Configs(k)
        /\ s = (CASE k \in Lh -> LhStart [] k = "bp" -> BpStart [] OTHER -> EnvStart)
        /\ x = 0 /\ y = 0 /\ n = 0 /\ changed = FALSE
\* The design's output: what runs along, and while that's unknown what the recurrence makes of the input.
Out(v) == CASE k \in Lh ->
                 LET q == K28(c[2]) t == T28(c[1]) a == Along(q, t, v, s.u) IN
                 IF s.free THEN MulDivR(IF k = "lp" THEN a[1] ELSE a[4], 1, 4)
                 ELSE IF k = "lp" THEN LowPassNext(q, t, v, s.xs, s.ys) ELSE HighPassNext(q, t, v, s.xs, s.ys)
            [] k = "bp" ->
                 LET l == Corner(MilliHz(c[3])) h == Corner(MilliHz(c[4]))
                     hp == SatAdd(M28(l[1], 16 * (v - s.xs[1])), M28(l[3], s.h)) IN
                 IF s.free THEN MulDivR(SatAdd(M28(h[2], SatAdd(hp, s.h)), M28(h[3], s.z)), 1, 16)
                 ELSE SatAdd(M28(M28(h[2], l[1]), v - s.xs[2]), SatAdd(M28(l[3] + h[3], s.ys[1]), -M28(M28(l[3], h[3]), s.ys[2])))
            [] OTHER -> IF Abs(v) > s.y THEN EnvNext(c[2], v, s) ELSE EnvNext(c[1], v, s)
After(v, w) == CASE k = "lp" -> LhStep(TRUE, c[1], c[2], s, v, w)
                 [] k = "hp" -> LhStep(FALSE, c[1], c[2], s, v, w)
                 [] k = "bp" -> BpStep(c, s, v, w)
                 [] OTHER    -> EnvStep(c[1], c[2], s, v, w)
Step(v) == /\ x' = v /\ y' = Out(v) /\ s' \in After(v, y') /\ n' = n + 1 /\ UNCHANGED <<k, c, changed>>
Change == /\ k # "env" /\ n = 3 /\ ~changed /\ changed' = TRUE
          /\ c' \in Configs(k) \ {c} /\ s' = LhChanged(s) /\ UNCHANGED <<k, x, y, n>>
Next == \/ n < 3 /\ \E v \in Starts : Step(v)
        \/ n >= 3 /\ n < MaxSteps /\ Step(x)
        \/ Dense = FALSE /\ Change
Spec == Init /\ [][Next]_vars

\* There's always a next sample: both descriptions agree on it.
Agrees == n < MaxSteps => \A v \in (IF n < 3 THEN Starts ELSE {x}) : After(v, Out(v)) # {}
\* A change of settings keeps what's there; the transient it may cause is bounded too.
Bound == Abs(y) <= IF k = "env" THEN (IF Max2(c[1], c[2]) <= Nyquist \div 2 THEN S + 16 ELSE 4 * S) ELSE IF changed THEN 100 * S ELSE 16 * S
NotNegative == k = "env" /\ Max2(c[1], c[2]) <= Nyquist \div 2 => y >= 0
\* Settled after long enough.
Settled == /\ k \in Lh /\ ~changed /\ n > 0 /\ Settles(K28(c[2]), T28(c[1]), n - 3) =>
                Near(y, IF k = "lp" THEN x ELSE 0, AlongTol(T28(c[1])))
           /\ k = "bp" /\ ~changed /\ n > 0 /\ BpSettles(c, n - 3) => Near(y, 0, 16)
           /\ k = "env" /\ n > 1003 /\ n \div 20 >= S28 \div (S28 - Corner(Min2(c[1], c[2]))[3]) =>
                Near(y, Abs(x), 16 + MulDiv(8, S28, S28 - Corner(Min2(c[1], c[2]))[3]))
\* Centre and quality, and corners, say the same.
Consistent == k = "bp" =>
  LET d == FromCentre(c[1], c[2]) IN
  /\ c[3] < c[1] /\ c[1] < c[4]
  /\ Abs(d[3] - c[3]) <= 2 + c[3] \div 100000 /\ Abs(d[4] - c[4]) <= 2 + c[4] \div 100000
  /\ FromCorners(c[4], c[3]) = c
View == <<k, c, s, x, n, changed>>
=============================================================================
