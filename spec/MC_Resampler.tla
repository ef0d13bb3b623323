----------------------------- MODULE MC_Resampler -----------------------------
(* Players of tracks of up to 4 samples, any loop in or around them, speeds   *)
(* of quarters up to more than a loop at once, changed at any time.           *)
EXTENDS Resampler, Json, TLC, FiniteSets
CONSTANTS MaxSteps, MaxSets, MaxLen, Speeds, Emit
VARIABLES len, ls, le, speed, s, gone, sets, steps, hist
vars == <<len, ls, le, speed, s, gone, sets, steps, hist>>
Rate48 == 192000
Lp == LoopOf(ls, le, len)
Track(i) == <<4 * S, 8 * S, -4 * S, 0>>[i + 1]     \* undefined outside
Do(op) == hist' = IF Emit THEN Append(hist, op) ELSE hist
Init == /\ len \in 0 .. MaxLen
        /\ ls \in 0 .. MaxLen + 1 /\ le \in 0 .. MaxLen + 1 /\ (le = 0 => ls = 0)
        /\ speed = Unit /\ s = ResamStart /\ gone = 0 /\ sets = 0 /\ steps = 0
        /\ hist = <<<<"new", ls, le, len>>>>
Next ==
  \/ /\ steps < MaxSteps /\ steps' = steps + 1
     /\ s' = Ahead(s, Lp, len, Rate48, speed, 1) /\ gone' = gone + speed \div 945
     /\ Do(<<"g", 1>>) /\ UNCHANGED <<len, ls, le, speed, sets>>
  \/ /\ steps + 3 <= MaxSteps /\ steps' = steps + 3
     /\ s' = Ahead(s, Lp, len, Rate48, speed, 3) /\ gone' = gone + 3 * (speed \div 945)
     /\ Do(<<"skip", 3, 0>>) /\ UNCHANGED <<len, ls, le, speed, sets>>
  \/ /\ sets < MaxSets /\ sets' = sets + 1
     /\ \E v \in Speeds \ {speed} : speed' = v /\ Do(<<"s", v>>)
     /\ UNCHANGED <<len, ls, le, s, gone, steps>>
Spec == Init /\ [][Next]_vars

\* The position by all the quarters gone since the start.
Quarters == 4 * s.w + MulDiv(4, s.f, D)
Where == LET lo == 4 * Lp[1] hi == 4 * Lp[2] IN
         IF Looping(Lp) THEN Quarters = IF gone < hi THEN gone ELSE lo + ((gone - lo) % (hi - lo))
         ELSE IF gone >= 4 * len THEN Finished(s, Lp, len) ELSE Quarters = gone
\* Nothing is read outside of the track, nor, once in the loop, outside of that.
Inside == ~Finished(s, Lp, len) =>
            /\ s.w \in 0 .. len - 1 /\ Following(s, Lp, len) \in 0 .. len - 1
            /\ Looping(Lp) => s.w < Lp[2] /\ Following(s, Lp, len) < Lp[2]
LoopPlaced == Looping(Lp) => Lp[1] < Lp[2] /\ Lp[2] <= len
Endless == Looping(Lp) => ~Finished(s, Lp, len)
\* Interpolation stays between its ends, and is the track at whole positions.
Interpolates == LET v == Interpolated(s, Lp, len, Track) IN
  IF Finished(s, Lp, len) THEN v = 0
  ELSE LET a == Track(s.w) b == Track(Following(s, Lp, len)) IN
       /\ Min2(a, b) <= v /\ v <= Max2(a, b) /\ (s.f = 0 => v = a)
       /\ ResamOutput(s, Lp, len, Rate48, Track, v)
OverIsOver == [][Finished(s, Lp, len) => Finished(s, Lp, len)']_vars
View == <<len, ls, le, speed, s.w, s.f, gone, sets, steps>>
TestView == <<len, ls, le, speed, s.w, s.f, sets, steps>>
EmitTest == Emit => PrintT("TEST " \o ToJson(hist'))
=============================================================================
