--------------------------------- MODULE Units ---------------------------------
(***************************************************************************)
(* Units of time and loudness, interpolation, and normalising. Numbers are *)
(* in units of 2^-24 unless said otherwise.                                *)
(***************************************************************************)
EXTENDS FixedPoint, FiniteSets

(***************************************************************************)
(* Samples and seconds at 48 kHz; a sample lasts 62500/3 ns.               *)
(***************************************************************************)
Rate48 == 48000
NsOf(k) == MulDivR(k, 62500, 3)
ToSeconds(n, sec, ns, back) == sec = n \div Rate48 /\ Abs(ns - NsOf(n % Rate48)) <= 2 /\ back = n
FromHours(n, e) == /\ e.d = 0
                   /\ e.h <= 1000 => e.ok /\ ToSeconds(n, e.sec, e.ns, n)
ToSamples(sec, ns, n) == LET k == n - sec * Rate48 IN k >= 0 /\ k <= Rate48 /\ Abs(ns - NsOf(k)) <= 10418

(***************************************************************************)
(* Loudness: mdb is in thousandths of a decibel, udb in millionths.        *)
(***************************************************************************)
Rel(v, w) == Near(v, w, 3 + Abs(Clamp(w, -Max, Max)) \div 1048576)
Gains(mdb, g24, g10, back) == /\ Rel(g24, Lin(mdb)) /\ Rel(g10, LinTo(mdb, 10))
                              /\ Near(back, 1000 * mdb, 2)
                              /\ mdb = 0 => g24 = S
                              /\ mdb = 20000 => g10 = 10240
Decibels(g, udb, back) == Rel(LinX(MulDivR(udb, 2025375267, 262144000), 24), g) /\ Rel(back, g)

(***************************************************************************)
(* The line through (x1, y1) and (x2, y2), x1 # x2, in units of 2^-20.     *)
(***************************************************************************)
Within(x, a, b) == Clamp(x, Min2(a, b), Max2(a, b))
Rise(x, x1, x2, y1, y2) == IF x2 > x1 THEN MulDivR(y2 - y1, x - x1, x2 - x1) ELSE MulDivR(y1 - y2, x - x1, x1 - x2)
OnLine(pr, x, x1, x2, y1, y2, v) ==
  LET r == Rise(x, x1, x2, y1, y2)
      w == SatAdd(r, y1)
  IN Near(v, w \div 16, 2 + IF pr = "f32" THEN (Abs(r) \div 4 + Abs(y1) \div 4 + Abs(w) \div 4) \div 4194304 ELSE 0)
\* Two numbers are alike if they're less than e apart.
Alike(a, b, e) == Abs(a - b) < e
Interpolates(pr, a, li, c) == /\ OnLine(pr, a[1], a[2], a[3], a[4], a[5], li)
                              /\ OnLine(pr, Within(a[1], a[2], a[3]), a[2], a[3], a[4], a[5], c)

(***************************************************************************)
(* Normalising a track t to mdb.                                           *)
(***************************************************************************)
RECURSIVE SumOf(_, _, _, _)
SumOf(t, i, n, rem) == IF i > Len(t) THEN 0 ELSE (IF rem THEN t[i] % n ELSE t[i] \div n) + SumOf(t, i + 1, n, rem)
Mean(t) == LET n == Len(t) IN SumOf(t, 1, n, FALSE) + (SumOf(t, 1, n, TRUE) + n \div 2) \div n
RECURSIVE Largest(_, _, _, _)
Largest(t, m, i, max) == IF i > Len(t) THEN max ELSE Largest(t, m, i + 1, Max2(max, Abs(SatSub(t[i], m))))
\* How closely samples are known, with a mean m and a peak.
NormTol(L, m, peak) == SatAdd(4 + L \div 1048576, MulDiv(L, 3 + Abs(m) \div 4194304, Max2(peak, 1)))
Normalised(mdb, t, y, z) ==
  /\ Len(y) = Len(t) /\ Len(z) = Len(t)
  /\ t # <<>> =>
     LET m == Mean(t)
         L == Lin(mdb)
         peak == Largest(t, m, 1, 0)
         loudest == Largest(y, 0, 1, 0)
     IN  IF \A i \in 1 .. Len(t) : t[i] = t[1] THEN \A i \in 1 .. Len(t) : y[i] = 0 /\ z[i] = 0
         ELSE LET tol == NormTol(L, m, peak)
                  sharp == 3 + L \div 2097152 IN
              /\ Near(loudest, L, sharp)
              /\ \A i \in 1 .. Len(t) : /\ Near(y[i], MulDivR(t[i] - m, L, peak), tol)
                                        /\ Near(z[i], y[i], tol)

(***************************************************************************)
(* Long tracks, in pieces: a pass over what goes in sums it up (hi in      *)
(* units of 4096) and finds its ends; one over what comes out holds it     *)
(* against that. The offset is at most half.                               *)
(***************************************************************************)
RECURSIVE Summed(_, _, _, _, _, _)
Summed(t, i, hi, lo, min, max) ==
  IF i > Len(t) THEN <<hi + lo \div 4096, lo % 4096, min, max>>
  ELSE Summed(t, i + 1, hi + t[i] \div 4096, lo + (t[i] % 4096), Min2(min, t[i]), Max2(max, t[i]))
LongStart(mdb, n) == [db |-> mdb, n |-> n, seen |-> 0, hi |-> 0, lo |-> 0, min |-> Big, max |-> -Big, out |-> 0, loudest |-> 0]
LongIn(a, t) ==
  LET r == Summed(t, 1, a.hi, a.lo, a.min, a.max)
  IN  [a EXCEPT !.seen = a.seen + Len(t), !.hi = r[1], !.lo = r[2], !.min = r[3], !.max = r[4]]
LongMean(a) == (a.hi \div a.n) * 4096 + MulDiv(a.hi % a.n, 4096, a.n) + a.lo \div a.n
LongPeak(a) == Max2(a.max - LongMean(a), LongMean(a) - a.min)
LongOut(a, t, y, z) ==
  LET m == LongMean(a)
      L == Lin(a.db)
      peak == LongPeak(a)
      tol == NormTol(L, m, peak)
  IN  /\ a.seen = a.n /\ Len(y) = Len(t) /\ Len(z) = Len(t)
      /\ \A i \in 1 .. Len(t) : Near(y[i], MulDivR(t[i] - m, L, peak), tol) /\ Near(z[i], y[i], tol)
LongEnd(a) == a.out = a.n /\ Near(a.loudest, Lin(a.db), 3 + Lin(a.db) \div 2097152)
=============================================================================
