------------------------------ MODULE Resampler ------------------------------
(***************************************************************************)
(* A sample player: a position in a track, in samples and a fraction in    *)
(* units of 1/D, so that every advance of a rate in 1/4 Hz times a speed   *)
(* in 1/3780 is exact. Tracks are given by len and an operator at(i).         *)
(***************************************************************************)
EXTENDS FixedPoint

Unit == 3780          \* of speeds: 2^2 * 3^3 * 5 * 7
D == 725760000        \* 48000 * 4 * Unit
\* x: whether every position so far is exact as a floating point number.
ResamStart == [w |-> 0, f |-> 0, n |-> 0, x |-> TRUE]

\* The loop in force, <<0, 0>> being none.
LoopOf(s, e, len) ==
  LET lo == Min2(s, e)
      hi == Min2(Max2(s, e), len)
  IN  IF lo >= hi THEN <<0, 0>> ELSE <<lo, hi>>
Looping(lp) == lp[2] > 0
Finished(s, lp, len) == ~Looping(lp) /\ s.w >= len

\* What's interpolated towards from the current position.
Following(s, lp, len) ==
  IF Looping(lp) /\ s.w + 1 >= lp[2] THEN lp[1] ELSE IF s.w + 1 >= len THEN s.w ELSE s.w + 1
Interpolated(s, lp, len, at(_)) ==
  IF Finished(s, lp, len) THEN 0
  ELSE LET a == at(s.w)
           b == at(Following(s, lp, len))
       IN  a + MulDivR(b - a, s.f, D)

Wrapped(w, lp) == IF Looping(lp) /\ w >= lp[2] THEN lp[1] + ((w - lp[1]) % (lp[2] - lp[1])) ELSE w
\* Rates and speeds of which every multiple is exact.
Exact(rate, speed) == rate \in {24000, 48000, 96000, 192000, 384000, 768000} /\ speed % 945 = 0
\* n samples on.
Ahead(s, lp, len, rate, speed, n) ==
  LET iw == MulDiv(rate, speed, D)
      if == MulMod(rate, speed, D)
      f  == s.f + MulMod(n, if, D)
      c  == MulDiv(n, if, D) + f \div D
      w  == SatAdd(SatAdd(s.w, MulDiv(n, iw, 1)), c)
  IN  [w |-> IF Looping(lp) THEN Wrapped(w, lp) ELSE Min2(w, len), f |-> IF ~Looping(lp) /\ w >= len + 1 THEN 0 ELSE f % D,
       n |-> SatAdd(s.n, 1 + MulDiv(n, SatAdd(IF Looping(lp) THEN Max2(w, lp[2]) ELSE Min2(w, len), iw + 2), 524288)), x |-> s.x /\ Exact(rate, speed)]

\* How far off rounding may have taken a position, in 1/S: half a unit of a 53 bit mantissa with every advance.
Drift(s) == 1 + s.n \div 1024

ResamOutput(s, lp, len, rate, at(_), y) ==
  LET v == Interpolated(s, lp, len, at)
      tol == SatAdd(6, MulDiv(Drift(s), 4, 1))
      edge == SatAdd(750, MulDiv(Drift(s), 120, 1))
  IN  /\ IsNum(y)
      /\ \/ Abs(SatSub(y, v)) <= tol + Abs(v) \div 4194304
         \* The end of the track, but for rounding.
         \/ /\ ~s.x /\ ~Looping(lp) /\ len > 0
            /\ \/ s.w = len /\ s.f <= edge /\ Abs(SatSub(y, at(len - 1))) <= tol
               \/ s.w = len - 1 /\ s.f >= D - edge /\ y = 0
=============================================================================
