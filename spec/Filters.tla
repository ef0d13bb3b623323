------------------------------- MODULE Filters -------------------------------
(***************************************************************************)
(* Low pass, high pass, band pass and envelope follower. Frequencies in    *)
(* mHz, samples and resonance in 1/S, coefficients in 1/S28.               *)
(*                                                                         *)
(* Each output is checked twice. Against the recurrence applied to what    *)
(* came out before: that holds through any change of parameters. And       *)
(* against the design run along from rest, from inputs alone, which a      *)
(* small error of a coefficient can't hide from.                           *)
(***************************************************************************)
EXTENDS FixedPoint

TwoPi28 == 1686629714
Engine == 48000000
Nyquist == 24000000
Unknown == NaN

Clamped01(r) == Clamp(r, 0, S)
K28(r) == S28 + 2 * Sin28(MulDivR(140552476, S - r, S))      \* 1 - 2 cos(pi/6 (4 - r))
T28(fc) == MulDivR(fc, TwoPi28, Engine)                      \* the cutoff, in radians per sample
\* t^3 + k t^2 + k t + 1 in units of 1/S.
Norm(k, t) == LET t1 == MulDivR(t, 1, 16)
                  t2 == M28(t, t1)
              IN  M28(t, t2) + M28(k, t2) + M28(k, t1) + S
Over(n, g) == MulDivR(n, S28, g)     \* n/g in units of 1/S28, n and g in 1/S

Sum3(a, b, c) == SatAdd(a, SatAdd(b, c))
Feedback(k, t, g, ys) ==
  LET t1 == MulDivR(t, 1, 16)
      t2 == M28(t, t1)
  IN  Sum3(M28(Over(M28(k, t2) + 2 * M28(k, t1) + 3 * S, g), ys[1]),
           M28(Over(-M28(k, t1) - 3 * S, g), ys[2]),
           M28(Over(S, g), ys[3]))
LowPassNext(k, t, x, xs, ys) ==
  LET g == Norm(k, t) t2 == M28(t, MulDivR(t, 1, 16))
  IN  SatAdd(M28(Over(M28(t, t2), g), x), Feedback(k, t, g, ys))
HighPassNext(k, t, x, xs, ys) ==
  LET g == Norm(k, t)
  IN  SatAdd(M28(Over(S, g), (x - xs[3]) - 3 * (xs[1] - xs[2])), Feedback(k, t, g, ys))

(***************************************************************************)
(* The same run along: with D the difference per cutoff period, both are   *)
(* y''' + k y'' + k y' + y = x, of which y is the low pass and y''' the    *)
(* high pass. Units of 1/(4 S).                                            *)
(***************************************************************************)
At26(v) == 4 * v
Along(k, t, x, u) ==
  LET g  == Norm(k, t)
      tv == M28(t, u[2]) tw == M28(t, u[3])
      s1 == Sum3(At26(x), -u[1], -tv)
      s2 == Sum3(-M28(t, tw), -M28(k, u[2]), -M28(k, tw))
      d3 == MulDivR(Sum3(s1, s2, -M28(k, u[3])), S, g)
      w  == SatAdd(u[3], M28(t, d3))
      v  == SatAdd(u[2], M28(t, w))
  IN  <<SatAdd(u[1], M28(t, v)), v, w, d3>>
AlongTol(t) == 16 + MulDiv(8, S28, t)

LhStart == [xs |-> <<0, 0, 0>>, ys |-> <<0, 0, 0>>, free |-> TRUE, u |-> <<0, 0, 0>>]
\* Outputs which are known, and small enough for the recurrence to be within reach of the integers here.
Known(ys) == \A i \in DOMAIN ys : ys[i] # Unknown /\ Abs(ys[i]) < 16 * S
Shift(q, v) == <<v>> \o SubSeq(q, 1, Len(q) - 1)
SizeOf(q) == IF Len(q) = 2 THEN SatAdd(Abs(q[1]), Abs(q[2])) ELSE Sum3(Abs(q[1]), Abs(q[2]), Abs(q[3]))

LhStep(low, fc, r, s, x, y) ==
  LET k == K28(r) t == T28(fc)
      want == IF low THEN LowPassNext(k, t, x, s.xs, s.ys) ELSE HighPassNext(k, t, x, s.xs, s.ys)
      a == Along(k, t, x, s.u)
      run == IF low THEN a[1] ELSE a[4]
  IN  IF /\ y # NaN
         /\ Known(s.ys) /\ Abs(want) < 48 * S => Near(y, want, 12 + SizeOf(s.ys) \div 2097152)
         /\ s.free => Abs(SatSub(SatAdd(y, 0), MulDivR(run, 1, 4))) <= AlongTol(t) + Abs(y) \div 1048576
      THEN {[xs |-> Shift(s.xs, x), ys |-> Shift(s.ys, y), free |-> s.free,
             u |-> IF s.free THEN <<a[1], a[2], a[3]>> ELSE s.u]}
      ELSE {}
LhChanged(s) == [s EXCEPT !.free = FALSE]

\* Whether n samples are enough for all that went before to have died away.
Settles(k, t, n) ==
  LET rate == MulDivR(t, (k - S28) \div 2, S28) + MulDivR(t, t, S28) \div 4   \* per sample, in 1/S28
  IN  n >= 1000 /\ rate > 0 /\ n \div 32 >= S28 \div rate
LhSkip(low, fc, r, s, n, x, lo, hi, nan, y) ==
  LET k == K28(r) t == T28(fc) IN
  IF nan # 0 \/ n < 4 THEN {}
  ELSE IF Settles(k, t, n)
       THEN IF Near(y, IF low THEN x ELSE 0, AlongTol(t))
            THEN {[xs |-> <<x, x, x>>, ys |-> IF fc > 500000 THEN <<y, y, y>> ELSE <<Unknown, Unknown, Unknown>>, free |-> TRUE, u |-> <<At26(x), 0, 0>>]}
            ELSE {}
       ELSE {[xs |-> <<x, x, x>>, ys |-> <<y, Unknown, Unknown>>, free |-> FALSE, u |-> <<0, 0, 0>>]}

(***************************************************************************)
(* Band pass: the settings are centre, quality, lower and upper corner,    *)
(* the frequencies of which in 1/64 mHz; a quality is a fraction, so that  *)
(* one that follows from corners is known as well as they are.             *)
(***************************************************************************)
RECURSIVE Newton(_, _, _, _)
\* The square root of a*b + c*d, from an estimate above it.
Newton(ab, cd, r, i) ==
  IF i = 0 THEN r
  ELSE LET q == SatAdd(MulDiv(ab[1], ab[2], r), MulDiv(cd[1], cd[2], r))
           m == q \div 2 + r \div 2 + ((q % 2) + (r % 2)) \div 2
       IN  IF m >= r THEN r ELSE Newton(ab, cd, m, i - 1)
Root(ab, cd) == Newton(ab, cd, SatAdd(Max2(ab[1], ab[2]), Max2(cd[1], cd[2])) + 1, 60)
Fine(f) == 64 * f
MilliHz(f) == MulDivR(f, 1, 64)
\* As many doublings of m as leave it below 2^30.
RECURSIVE Doubled(_)
Doubled(m) == IF m >= 536870912 THEN 1 ELSE 2 * Doubled(2 * m)
FromCentre(f, q) ==
  LET h == MulDivR(f, q[2], q[1]) \div 2
      r == Root(<<f, f>>, <<h, h>>)
  IN  <<f, q, MulDivR(f, f, r + h), r + h>>
FromCorners(a, b) ==
  LET k == Doubled(Max2(a, b))
      f == Root(<<k * a, k * b>>, <<0, 0>>)
  IN  <<MulDivR(f, 1, k), <<f, k * Abs(a - b)>>, Min2(a, b), Max2(a, b)>>

\* [one over one plus theta, theta over one plus theta, (1 - theta)/(1 + theta)] of a first-order corner.
Corner(f) ==
  LET a == MulDivR(f, Pi28, Engine)
      s == Sin28(a) c == Cos28(a)
  IN  <<MulDivR(c, S28, c + s), MulDivR(s, S28, c + s), MulDivR(c - s, S28, c + s)>>
BpStart == [xs |-> <<0, 0>>, ys |-> <<0, 0>>, free |-> TRUE, h |-> 0, z |-> 0]
BpStep(c, s, x, y) ==
  LET l == Corner(MilliHz(c[3])) h == Corner(MilliHz(c[4]))
      want == SatAdd(M28(M28(h[2], l[1]), x - s.xs[2]),
                     SatAdd(M28(l[3] + h[3], s.ys[1]), -M28(M28(l[3], h[3]), s.ys[2])))
      \* A high pass at the lower corner, then a low pass at the upper one, in 1/S28 .
      hp == SatAdd(M28(l[1], 16 * (x - s.xs[1])), M28(l[3], s.h))
      z  == SatAdd(M28(h[2], SatAdd(hp, s.h)), M28(h[3], s.z))
  IN  IF /\ y # NaN
         /\ Known(s.ys) /\ Abs(want) < 48 * S => Near(y, want, 8 + SizeOf(s.ys) \div 2097152)
         /\ s.free => Abs(SatSub(y, MulDivR(z, 1, 16))) <= 24 + MulDiv(2, S28, S28 - l[3])
      THEN {[xs |-> Shift(s.xs, x), ys |-> Shift(s.ys, y), free |-> s.free,
             h |-> IF s.free THEN hp ELSE 0, z |-> IF s.free THEN z ELSE 0]}
      ELSE {}
BpSettles(c, n) == n >= 1000 /\ n \div 20 >= S28 \div (S28 - Corner(MilliHz(c[3]))[3])
BpSkip(c, s, n, x, lo, hi, nan, y) ==
  IF nan # 0 \/ n < 3 THEN {}
  ELSE IF BpSettles(c, n)
       THEN IF Near(y, 0, 16) THEN {[xs |-> <<x, x>>, ys |-> <<Unknown, Unknown>>, free |-> TRUE, h |-> 0, z |-> 0]} ELSE {}
       ELSE {[xs |-> <<x, x>>, ys |-> <<y, Unknown>>, free |-> FALSE, h |-> 0, z |-> 0]}

(***************************************************************************)
(* Envelope follower                                                       *)
(***************************************************************************)
EnvStart == [x |-> 0, y |-> 0, top |-> 0]
EnvNext(f, x, s) ==
  LET c == Corner(f) IN SatAdd(M28(c[2], Abs(x) + Abs(s.x)), M28(c[3], s.y))
EnvStep(lo, hi, s, x, y) ==
  LET t == 4 + (Abs(x) + Abs(s.x) + Abs(s.y)) \div 4194304
      top == Max2(s.top, Abs(x))
  IN  IF /\ IsNum(y)
         /\ \/ Abs(x) >= s.y - 2 /\ Near(y, EnvNext(hi, x, s), t)
            \/ Abs(x) <= s.y + 2 /\ Near(y, EnvNext(lo, x, s), t)
         /\ lo <= Nyquist \div 2 /\ hi <= Nyquist \div 2 => 0 <= y /\ y <= top + 4 + top \div 1048576
      THEN {[x |-> x, y |-> y, top |-> top]}
      ELSE {}
\* A constant is settled on at the rate of the slower of the two.
EnvSkip(lo, hi, s, n, x, l, h, nan, y) ==
  LET m == Abs(x)
      d == S28 - Corner(Min2(lo, hi))[3]
  IN  IF /\ nan = 0 /\ IsNum(l) /\ IsNum(h)
         /\ n >= 1000 /\ n \div 20 >= S28 \div d => Near(y, m, 6 + m \div 4194304)
         /\ lo <= Nyquist \div 2 /\ hi <= Nyquist \div 2 => 0 <= l /\ h <= Max2(s.top, m) + 4 + Max2(s.top, m) \div 65536
      THEN {[x |-> x, y |-> y, top |-> Max2(s.top, m)]}
      ELSE {}
=============================================================================
