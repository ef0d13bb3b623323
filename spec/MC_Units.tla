------------------------------- MODULE MC_Units -------------------------------
(* The laws the formulas of Units.tla and Formats.tla obey, over a grid.      *)
EXTENDS Units, Formats
CONSTANTS Kinds
VARIABLES k, n
Grid(x) == CASE x = "db" -> 0 .. 400 [] x = "lerp" -> 0 .. 1295 [] x = "mean" -> 0 .. 6479 [] x = "pan" -> 0 .. 64 [] x = "time" -> 0 .. 4800 [] OTHER -> 0 .. 255
Init == k \in Kinds /\ n = 0
Next == n + 1 \in Grid(k) /\ n' = n + 1 /\ k' = k
Spec == Init /\ [][Next]_<<k, n>>
\* Decibels: gains multiply where levels add, and Decibels inverts Gains.
Db == k = "db" => LET m == (n - 200) * 500 IN
  /\ m < 36000 => Near(Lin(m + 500), FMul(Lin(m), Lin(500)), 4 + Lin(m + 500) \div 4194304)
  /\ m <= 36000 => Decibels(Lin(m), IF Lin(m) > 1000000 THEN 1000 * m ELSE 0, Lin(m)) \/ Lin(m) <= 1000000
  /\ Lin(0) = S /\ Near(Lin(20000), 10 * S, 20) /\ Near(Lin(6000), 33474947, 20)
\* Interpolation: the ends, the middle, symmetry in the points, and clamping.
P(d) == (d % 6) * 2097152 - 4194304
Lerp == k = "lerp" => LET x == P(n) x1 == P(n \div 6) x2 == P(n \div 36) y1 == P(n \div 216) y2 == 3000000 IN x1 # x2 =>
  /\ Rise(x1, x1, x2, y1, y2) = 0 /\ Rise(x2, x1, x2, y1, y2) + y1 = y2
  /\ Abs(Rise(x, x1, x2, y1, y2) + y1 - Rise(x, x2, x1, y2, y1) - y2) <= 1
  /\ LET w == Within(x, x1, x2) v == Rise(w, x1, x2, y1, y2) + y1 IN /\ Min2(y1, y2) <= v /\ v <= Max2(y1, y2)
     /\ (Min2(x1, x2) <= x /\ x <= Max2(x1, x2)) => w = x
\* Panning: symmetric, monotone, 3 dB down in the middle, silent (120 dB down) on the far side.
G(d) == (d - 32) * 524288
Pan == k = "pan" => LET g == G(n) IN
  /\ Near(Side(S, S), S, 3) /\ Near(Side(S, 0), Lin(-3000), 3) /\ Near(Side(S, -S), 17, 1)
  /\ n < 64 => Side(S, g) < Side(S, G(n + 1)) \/ Side(S, G(n + 1)) < 200
  /\ Near(Side(S, g), 2 * Side(S \div 2, g), 4) /\ Side(-S, g) <= 0
  /\ \A w \in {Side(S, g)} : Near(w, Lin(IF g >= 0 THEN -MulDivR(S - g, 3000, S) ELSE -3000 - MulDivR(-g, 117000, S)), 3 + w \div 8192)
\* Time: samples to seconds and back.
Time == k = "time" => LET m == n * 10 + (n % 10) IN m <= 48000 =>
  /\ ToSamples(m \div Rate48, NsOf(m % Rate48), m)
  /\ ToSeconds(m, m \div Rate48, NsOf(m % Rate48), m)
  /\ m + 1 <= 48000 => ~ToSamples(0, NsOf(m), m + 1)
\* Likeness: of the numbers with themselves, in either order, and only ever of more of them with more distance.
Likeness == k = "lerp" => LET a == P(n) b == P(n \div 6) e == P(n \div 36) \div 2 IN
  /\ Alike(a, a, e) = (e > 0) /\ Alike(a, b, e) = Alike(b, a, e)
  /\ (Alike(a, b, e) => (Alike(a, b, e + 1) /\ e > 0))
\* The mean and the peak of a track in pieces are those of the whole.
Mean4 == k = "mean" =>
  LET x == n \div 5
      t == <<P(x), 3 * P(x \div 6) + 1, 5 - P(x \div 36), P(x \div 216) - 4095>>
      cut == n % 5
      a == LongIn(LongIn(LongStart(0, 4), SubSeq(t, 1, cut)), SubSeq(t, cut + 1, 4))
  IN  /\ a.seen = 4 /\ a.min <= a.max
      /\ Near(LongMean(a), Mean(t), 1) /\ Near(LongPeak(a), Largest(t, Mean(t), 1, 0), 1)
=============================================================================
