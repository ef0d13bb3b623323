-------------------------------- MODULE Adsr --------------------------------
(***************************************************************************)
(* An attack-decay-sustain-release envelope. Times are in units of         *)
(* 1/48000000 s (a sample is 1000 of them), gains in 1/S.                  *)
(*                                                                         *)
(* Which sample ends a stage is left open to within a sample or one        *)
(* percent, so a step may have two outcomes.                               *)
(***************************************************************************)
EXTENDS FixedPoint

Unseen == -1
NoSlope == Big
Slack == 4     \* what rounding may do to a gain

\* g: the gain last seen, to within w; from: the one the release began at, to within fw.
AdsrStart == [st |-> "attack", n |-> 0, g |-> 0, w |-> 0, from |-> 0, fw |-> 0, sl |-> NoSlope]
Level(mdb) == Lin(Min2(mdb, 0))

Latest(T)   == Max2(T + T \div 100, T + 1000)
Earliest(T) == Min2(T - T \div 100, T - 1000)
\* How far through a stage of length T its n-th sample is, at least and at most.
AtLeast(n, T) == IF 1000 * n >= Latest(T) THEN S ELSE MulDiv(1000 * n, S, Latest(T))
AtMost(n, T)  == IF 1000 * n >= Earliest(T) THEN S ELSE MulDivR(1000 * n, S, Earliest(T))

\* A straight line from a to b, in T, seen at sample n as g.
OnLine(g, a, b, n, T, w) ==
  g = Unseen \/ a = Unseen \/
  LET p == a + FMul(b - a, AtLeast(n, T))
      q == a + FMul(b - a, AtMost(n, T))
  IN  Min2(p, q) - Slack - w <= g /\ g <= Max2(p, q) + Slack + w
\* The slope is the last one of gains seen as well as they can be.
Straight(s, g, w) == g = Unseen \/ s.g = Unseen \/ s.sl = NoSlope \/ w + s.w > 2 \/ Abs((g - s.g) - s.sl) <= 8 + Abs(s.sl) \div 100
Slope(s, g, w) == IF g = Unseen \/ s.g = Unseen \/ w + s.w > 2 THEN NoSlope ELSE g - s.g
Reached(g, v, w) == g = Unseen \/ Abs(g - v) <= Slack + w

\* The states after one sample at which the gain is seen to be g, to within w (or isn't seen, when the input is 0).
AdsrStep(p, s, g, w) ==
  LET A == 48 * p[1] D == 48 * p[2] L == Level(p[3]) R == 48 * p[4]
      n == s.n + 1
      on(st) == [s EXCEPT !.st = st, !.n = n, !.g = g, !.w = w, !.sl = Slope(s, g, w)]
      to(st) == [s EXCEPT !.st = st, !.n = 0, !.g = g, !.w = w, !.sl = NoSlope]
  IN
  CASE s.st = "attack" ->
         (IF AtLeast(n, A) < S /\ OnLine(g, 0, S, n, A, w) /\ Straight(s, g, w) THEN {on("attack")} ELSE {})
         \cup (IF AtMost(n, A) = S /\ Reached(g, S, w) THEN {to("decay")} ELSE {})
    [] s.st = "decay" ->
         (IF AtLeast(n, D) < S /\ OnLine(g, S, L, n, D, w) /\ Straight(s, g, w) THEN {on("decay")} ELSE {})
         \cup (IF (AtMost(n, D) = S \/ L = S) /\ Reached(g, L, w) THEN {to("sustain")} ELSE {})
    [] s.st = "sustain" -> IF Reached(g, L, w) THEN {to("sustain")} ELSE {}
    [] s.st = "release" ->
         (IF AtLeast(n, R) < S /\ OnLine(g, s.from, 0, n, R, w + s.fw) /\ Straight(s, g, w) THEN {on("release")} ELSE {})
         \cup (IF (AtMost(n, R) = S \/ s.from = 0) /\ g \in {Unseen, 0} THEN {to("stopped")} ELSE {})
    [] OTHER -> IF g \in {Unseen, 0} THEN {to("stopped")} ELSE {}

AdsrRelease(s) == IF s.st \in {"release", "stopped"} THEN s
                  ELSE [s EXCEPT !.st = "release", !.n = 0, !.from = s.g, !.fw = s.w, !.sl = NoSlope]

\* The gain an input x and an output y show; the output is a number between 0 and the input.
Between0(x, y) == IF x >= 0 THEN 0 <= y /\ y <= x ELSE x <= y /\ y <= 0
Gain(x, y) == IF x = 0 THEN Unseen ELSE MulDivR(Abs(y), S, Abs(x))
\* How well it shows it: a unit of the output is several of the gain when the input is small.
Within(x) == IF x = 0 THEN 0 ELSE (S - 1) \div Abs(x)

\* A long time of the input 1, of which the range [lo, hi] and the last gain are known.
AdsrSkip(p, s, n, lo, hi, g) ==
  LET A == 48 * p[1] D == 48 * p[2] L == Level(p[3]) R == 48 * p[4]
      m == s.n + n
      \* Not yet at the end of a stage of length T from a to b.
      within(a, b, T) == IF a # Unseen /\ OnLine(g, a, b, m, T, s.fw + s.w) /\ (IF a <= b THEN hi = g /\ lo >= s.g - s.w ELSE lo = g /\ hi <= (IF s.g = Unseen THEN a ELSE Max2(s.g, a)) + s.w + s.fw)
                         THEN {[s EXCEPT !.n = m, !.g = g, !.w = 0, !.sl = NoSlope]} ELSE {}
  IN
  CASE s.st = "sustain" -> IF Reached(lo, L, 0) /\ Reached(hi, L, 0) THEN {[s EXCEPT !.g = g, !.w = 0]} ELSE {}
    [] s.st = "stopped" -> IF lo = 0 /\ hi = 0 THEN {s} ELSE {}
    [] s.st = "attack" /\ AtMost(m, A) < S -> within(0, S, A)
    [] s.st = "decay" /\ AtMost(m, D) < S /\ L < S -> within(S, L, D)
    [] s.st = "release" /\ AtMost(m, R) < S /\ s.from > 0 -> within(s.from, 0, R)
    [] s.st = "release" -> IF n >= Latest(R) \div 1000 + 1 /\ g = 0 /\ lo = 0 /\ (s.from = Unseen \/ hi <= s.from + s.fw + Slack)
                           THEN {[s EXCEPT !.st = "stopped", !.n = 0, !.g = 0, !.w = 0, !.sl = NoSlope]} ELSE {}
    [] OTHER -> IF n >= (Latest(A) + Latest(D)) \div 1000 + 2 /\ Reached(g, L, 0) /\ lo >= 0 /\ hi <= S
                THEN {[s EXCEPT !.st = "sustain", !.n = 0, !.g = g, !.w = 0, !.sl = NoSlope]} ELSE {}
=============================================================================
