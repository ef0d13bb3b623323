-------------------------------- MODULE Lines --------------------------------
(***************************************************************************)
(* Delay lines: delay, echo and the generic filter. Samples in 1/S.        *)
(***************************************************************************)
EXTENDS FixedPoint, FiniteSets, TLC

Rate == 48000
\* The formula input, for inputs too long to be remembered.
Formula(k, seed) == (((MulMod(k, 7919, 2001) + MulMod(seed, 104729, 2001)) % 2001) - 1000) * 16384

\* The lengths a duration may be rounded to: either neighbour when in the middle between them.
Lengths(sec, ns) ==
  LET w == sec * Rate + MulDiv(ns, 48, 1000000)
      r == MulMod(ns, 48, 1000000)
  IN  IF r = 500000 THEN {w, w + 1} ELSE IF r > 500000 THEN {w + 1} ELSE {w}

(***************************************************************************)
(* What went in: n samples, of which h holds those other than 0 that are   *)
(* still needed, by index; or the formula of a seed, if all came from it.  *)
(***************************************************************************)
None == -1
LineStart == [n |-> 0, h |-> <<>>, form |-> None]
Held(s, i) == IF i < 0 THEN 0 ELSE IF s.form # None THEN Formula(i, s.form) ELSE IF i \in DOMAIN s.h THEN s.h[i] ELSE 0
Hold(s, d, v) ==
  IF s.form # None THEN [s EXCEPT !.n = @ + 1]
  ELSE LET old == s.n + 1 - d
           keep == {i \in DOMAIN s.h : i >= old}
       IN  [s EXCEPT !.n = @ + 1,
                     !.h = [i \in keep \cup (IF v # 0 /\ d > 0 THEN {s.n} ELSE {}) |-> IF i = s.n THEN v ELSE s.h[i]]]

DelayStep(d, s, x, y) == IF y = (IF d = 0 THEN x ELSE Held(s, s.n - d)) THEN {Hold(s, d, x)} ELSE {}

\* An output that grew beyond what is recorded: what follows from it isn't known.
Lost(v) == Abs(v) >= Max
EchoTol(a, x) == 2 + Abs(a) \div 4194304 + Abs(x) \div 4194304
EchoStep(d, g, s, x, y) ==
  LET a == FMul(g, Held(s, s.n - d))
  IN  IF Lost(Held(s, s.n - d)) \/ Near(y, SatAdd(a, x), EchoTol(a, x)) THEN {Hold(s, d, y)} ELSE {}

\* n samples of 0 in a row, of which the range [lo, hi] and the last are known.
Due(s, d, n) == {i \in DOMAIN s.h : i + d >= s.n /\ i + d < s.n + n}
Least(T)    == IF T = {} THEN 0 ELSE CHOOSE v \in T : \A w \in T : v <= w
Greatest(T) == IF T = {} THEN 0 ELSE CHOOSE v \in T : \A w \in T : v >= w
LineSkip(d, g, echo, s, n, lo, hi, y) ==
  LET due == Due(s, d, n)
      out(i) == IF echo THEN FMul(g, s.h[i]) ELSE s.h[i]
      vals == {out(i) : i \in due} \cup (IF Cardinality(due) < n THEN {0} ELSE {})
      t == IF echo THEN 2 ELSE 0
      last == s.n + n - 1 - d
      keep == {i \in DOMAIN s.h : i >= s.n + n - d} \cup (IF echo THEN {i + d : i \in {j \in due : j + d >= s.n + n - d}} ELSE {})
  IN  IF /\ s.form = None /\ (echo => n <= d)
         /\ Near(lo, Least(vals), t) /\ Near(hi, Greatest(vals), t)
         /\ Near(y, IF last \in due THEN out(last) ELSE 0, t)
      THEN {[s EXCEPT !.n = @ + n, !.h = [i \in keep |-> IF i \in DOMAIN s.h THEN s.h[i] ELSE out(i - d)]]}
      ELSE {}

(***************************************************************************)
(* The generic filter; p is the number of zero terms, then all terms, an   *)
(* index and a coefficient each. xs and ys are what went in and came out,  *)
(* the latest first, for as far back as is ever needed.                    *)
(***************************************************************************)
Terms(p) == (Len(p) - 1) \div 2
Index(p, i) == p[2 * i]
Coeff(p, i) == p[2 * i + 1]
Back(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
RECURSIVE Reach(_, _, _), TermSum(_, _, _, _, _), TermSize(_, _, _, _, _)
Reach(p, i, to) == IF i > to THEN 0 ELSE Max2(Index(p, i) + 1, Reach(p, i + 1, to))
TermSum(p, xs, ys, i, acc) ==
  IF i > Terms(p) THEN acc
  ELSE LET v == IF i <= p[1] THEN Back(xs, Index(p, i) + 1) ELSE Back(ys, Index(p, i) + 1)
       IN  TermSum(p, xs, ys, i + 1, SatAdd(acc, FMul(Coeff(p, i), v)))
TermSize(p, xs, ys, i, acc) ==
  IF i > Terms(p) THEN acc
  ELSE LET v == IF i <= p[1] THEN Back(xs, Index(p, i) + 1) ELSE Back(ys, Index(p, i) + 1)
       IN  TermSize(p, xs, ys, i + 1, SatAdd(acc, Abs(FMul(Coeff(p, i), v))))
GenericStart == [xs |-> <<>>, ys |-> <<>>]
Pushed(q, v, m) == LET r == <<v>> \o q IN IF Len(r) > m THEN SubSeq(r, 1, m) ELSE r
GenericStep(p, s, x, y) ==
  LET xs == Pushed(s.xs, x, Max2(1, Reach(p, 1, p[1])))
      tol == 1 + Terms(p) + TermSize(p, xs, s.ys, 1, 0) \div 2097152
  IN  IF (\E i \in DOMAIN s.ys : Lost(s.ys[i])) \/ Near(y, TermSum(p, xs, s.ys, 1, 0), tol)
      THEN {[xs |-> xs, ys |-> Pushed(s.ys, y, Reach(p, p[1] + 1, Terms(p)))]}
      ELSE {}

\* n samples of x in a row, long enough for a filter whose poles are weak to have settled: another step makes no difference.
RECURSIVE PoleSize(_, _)
PoleSize(p, i) == IF i > Terms(p) THEN 0 ELSE SatAdd(Abs(Coeff(p, i)), PoleSize(p, i + 1))
Settled(p, x, y) == [xs |-> [i \in 1 .. Max2(1, Reach(p, 1, p[1])) |-> x], ys |-> [i \in 1 .. Reach(p, p[1] + 1, Terms(p)) |-> y]]
GenericSkip(p, s, n, x, lo, hi, y) ==
  LET t == Settled(p, x, y)
  IN  IF /\ IsNum(y) /\ IsNum(lo) /\ IsNum(hi) /\ lo <= y /\ y <= hi
         /\ PoleSize(p, p[1] + 1) <= S \div 2 /\ n >= 100 * (1 + Reach(p, 1, Terms(p)))
         /\ Near(y, TermSum(p, t.xs, t.ys, 1, 0), 4 * (1 + Terms(p) + TermSize(p, t.xs, t.ys, 1, 0) \div 2097152))
      THEN {t} ELSE {}

\* The gain modifier.
GainOutput(a, x, y) == Near(y, FMul(a, x), 1 + Abs(y) \div 4194304)
=============================================================================
