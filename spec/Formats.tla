-------------------------------- MODULE Formats --------------------------------
(***************************************************************************)
(* Mono and stereo samples: arithmetic by channel, conversions and panning.*)
(* Samples are in units of 2^-24 except next to codes (2^-29).             *)
(***************************************************************************)
EXTENDS Pcm
FormatsKnown == {"mono", "stereo"}
Channels(f) == IF f = "mono" THEN 1 ELSE 2
Rt == 11863283   \* the square root of one half

Close(v, w) == Near(v, w, 2 + Abs(Clamp(w, -Max, Max)) \div 4194304)
AllClose(v, w) == Len(v) = Len(w) /\ \A k \in 1 .. Len(w) : Close(v[k], w[k])

Applied(o, a, b, s) ==
  [k \in 1 .. Len(a) |->
    CASE o = "add" -> SatAdd(a[k], b[k]) [] o = "sub" -> SatSub(a[k], b[k]) [] o = "mul" -> FMul(a[k], b[k])
      [] o \in {"muls", "mulm"} -> FMul(a[k], s) [] o = "neg" -> -a[k]]
\* r is the result of the operator, ra that of its assigning form.
Operates(f, o, a, b, s, r, ra) == Len(a) = Channels(f) /\ AllClose(r, Applied(o, a, b, s)) /\ ra = r
\* Whole numbers of some unit, however large or small: the results are exact.
Exactly(f, o, a, b, s, r, ra) ==
  /\ Len(a) = Channels(f) /\ ra = r
  /\ r = [k \in 1 .. Len(a) |->
          CASE o = "add" -> a[k] + b[k] [] o = "sub" -> a[k] - b[k] [] o = "mul" -> a[k] * b[k]
            [] o \in {"muls", "mulm"} -> a[k] * s [] o = "neg" -> -a[k]]
\* A channel of 2^p, the next of -2^p and so on, times a gain of 2^q, in units of 2^(p+q-20).
Scales(f, r, ra) == /\ Len(r) = Channels(f) /\ ra = r
                    /\ \A k \in 1 .. Len(r) : Near(r[k], IF k % 2 = 1 THEN 1048576 ELSE -1048576, 2)

\* Samples of nothing are silent; samples of their channels hold them.
Makes(f, c, new, r) == /\ Len(c) = Channels(f) /\ r = c
                       /\ new = [k \in 1 .. Channels(f) |-> 0]

Spread(f, s) == [k \in 1 .. Channels(f) |-> IF f = "mono" THEN s ELSE FMul(s, Rt)]
Converts(f, s, e) == /\ AllClose(e.fs, Spread(f, s)) /\ AllClose(e.from, Spread(f, s))
                     /\ Close(e.is, s) /\ Close(e.into, s)
                     /\ e.num = Channels(f) /\ e.def = [k \in 1 .. Channels(f) |-> 0]
\* A vector of codes to a format and back.
FromCodes(f, bits, c, e) ==
  LET n == Channels(f) IN
  /\ e.ok = (Len(c) >= n)
  /\ e.ok => /\ Len(e.s) = n /\ \A k \in 1 .. n : IsDec(bits, c[k], e.s[k])
             /\ e.back = SubSeq(c, 1, n)

(***************************************************************************)
(* Panning to g: decibels in nepers of 2^-26, 3 dB below at the middle.    *)
(***************************************************************************)
Three == 23178580        \* 3 dB
Rest117 == 903964639     \* the other 117 dB to 120
SideNepers(g) ==  \* of the side that g = 1 favours
  IF g >= 0 THEN -MulDivR(S - g, Three, S) ELSE -Three - MulDivR(-g, Rest117, S)
Side(s, g) == LET v == LinX(SideNepers(g), 28) IN MulDivR(s, v, S28)
Pans(f, s, g, c) ==
  LET p == Clamp(g, -S, S)
      ok(v, w) == Near(v, w, 3 + Abs(Clamp(w, -Max, Max)) \div 524288) IN
  IF f = "mono" THEN Len(c) = 1 /\ Close(c[1], s)
  ELSE Len(c) = 2 /\ ok(c[1], Side(s, -p)) /\ ok(c[2], Side(s, p))
=============================================================================
