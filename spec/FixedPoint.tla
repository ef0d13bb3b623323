----------------------------- MODULE FixedPoint -----------------------------
(***************************************************************************)
(* Real numbers as integers in units of 1/S. TLC's integers have 32 bits,  *)
(* so the four operators whose intermediate results need more are          *)
(* evaluated by java/FPOverrides.java; everything else, including the      *)
(* elementary functions, is computed from their definitions below.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Big == 2147483647
Sat(n) == IF n > Big THEN Big ELSE IF n < -Big THEN -Big ELSE n

MulDiv(a, b, c)  == Sat((a * b) \div c)                  \* floor(ab/c), c > 0
MulDivR(a, b, c) == Sat((2 * a * b + c) \div (2 * c))    \* ab/c to the nearest
MulMod(a, b, m)  == (a * b) % m
SatAdd(a, b)     == Sat(a + b)
SatSub(a, b)     == SatAdd(a, -b)

Abs(n)    == IF n < 0 THEN -n ELSE n
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(n, lo, hi) == IF n < lo THEN lo ELSE IF n > hi THEN hi ELSE n

S   == 16777216       \* 2^24, the unit of samples, gains and coefficients
S28 == 268435456      \* 2^28, the unit inside the elementary functions

(***************************************************************************)
(* Numbers recorded from the implementation: NaN is a number of its own,   *)
(* and magnitudes are cut off at Max.                                      *)
(***************************************************************************)
NaN == 2000000000
Max == 1073741824
IsNum(v)      == v > -Max /\ v < Max
Near(v, w, t) == v # NaN /\ Abs(v - Clamp(w, -Max, Max)) <= t
Between(v, lo, hi) == IsNum(v) /\ lo <= v /\ v <= hi

FMul(a, b) == MulDivR(a, b, S)
FDiv(a, b) == MulDivR(a, S, b)     \* b > 0

(***************************************************************************)
(* Sine and cosine of x/S28 for 0 <= x <= pi/2, in units of 1/S28.         *)
(***************************************************************************)
Pi28 == 843314857
M28(a, b) == MulDivR(a, b, S28)

Sin28(x) == LET z == M28(x, x) IN
  M28(x, S28 - M28(z, S28 - M28(z, S28 - M28(z, S28 - M28(z, S28 - M28(z, S28 - z \div 156)
      \div 110) \div 72) \div 42) \div 20) \div 6)
Cos28(x) == LET z == M28(x, x) IN
  S28 - M28(z, S28 - M28(z, S28 - M28(z, S28 - M28(z, S28 - M28(z, S28 - M28(z, S28 - z \div 182)
      \div 132) \div 90) \div 56) \div 30) \div 12) \div 2

\* Sine and cosine of p/n of a full turn, 0 <= p < n, in units of 1/S28.
SinTurn(p, n) ==
  LET h == IF 2 * p >= n THEN 2 * p - n ELSE 2 * p        \* p mod half turn, in n/2
      r == IF 2 * h > n THEN n - h ELSE h                 \* mirrored into a quarter
      v == Sin28(MulDivR(r, Pi28, n))
  IN  IF 2 * p >= n THEN -v ELSE v

(***************************************************************************)
(* 10^(m/20000), i.e. the linear gain of m thousandths of a decibel: in    *)
(* units of 1/S as Lin(m), for |m| <= 200000.                              *)
(***************************************************************************)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Ln2At26 == 46516320
RECURSIVE ExpTail(_, _)
ExpTail(r, k) == IF k > 11 THEN S28 ELSE S28 + M28(r, ExpTail(r, k + 1)) \div k
Exp28(r) == ExpTail(r, 1)  \* e^(r/S28), 0 <= r/S28 < 0.7
\* ln(10)/20000 * 2^26 * 2^18

LinX(x, bits) ==  \* e^(x/2^26) in units of 2^-bits, bits <= 28
  LET k == x \div Ln2At26
      v == Exp28(4 * (x % Ln2At26))
      s == k - (28 - bits)
  IN  IF s >= 0 THEN (IF s > 28 THEN Big ELSE MulDivR(v, Pow2(s), 1))
      ELSE (IF s < -30 THEN 0 ELSE MulDivR(v, 1, Pow2(-s)))
LinTo(m, bits) == LinX(MulDivR(m, 2025375267, 262144), bits)
Lin(m) == LinTo(m, 24)
=============================================================================
