------------------------------- MODULE MC_Osc -------------------------------
(* Oscillators whose frequency is any multiple of an eighth of the sampling  *)
(* rate, changed at any time, with the phase they should have on the side.   *)
EXTENDS Osc, Json, TLC
CONSTANTS MaxSamples, MaxSets, Emit
VARIABLES f, s, total, samples, sets, hist
vars == <<f, s, total, samples, sets, hist>>
E == Turn \div 8
Freqs == {k * E : k \in 1 .. 4}
Do(op) == hist' = IF Emit THEN Append(hist, op) ELSE hist
Init == /\ f \in Freqs /\ s = OscStart(f) /\ total = 0 /\ samples = 0 /\ sets = 0 /\ hist = <<<<"new", f>>>>
Next ==
  \/ /\ samples < MaxSamples /\ samples' = samples + 1
     /\ s' = OscAdvance(s, f, 1) /\ total' = total + f \div E
     /\ Do(<<"g">>) /\ UNCHANGED <<f, sets>>
  \/ /\ samples + 5 <= MaxSamples /\ samples' = samples + 5
     /\ s' = OscAdvance(s, f, 5) /\ total' = total + 5 * (f \div E)
     /\ Do(<<"skip", 5>>) /\ UNCHANGED <<f, sets>>
  \/ /\ sets < MaxSets /\ sets' = sets + 1
     /\ \E g \in Freqs \ {f} : f' = g /\ s' = OscRetune(s, g) /\ Do(<<"f", g>>)
     /\ UNCHANGED <<total, samples>>
Spec == Init /\ [][Next]_vars

\* The phase is all that was advanced by, and setting a frequency isn't an advance.
Accumulated == s.ph = (total % 8) * E
\* The waveforms, an eighth of a turn at a time.
Table == [saw    |-> <<0, 4, 8, 12, -16, -12, -8, -4>>,
          tri    |-> <<0, 8, 16, 8, 0, -8, -16, -8>>,
          square |-> <<16, 16, 16, 16, -16, -16, -16, -16>>]
Shapes == /\ \A k \in DOMAIN Table : Wave(k, s.ph) = Table[k][(total % 8) + 1] * (S \div 16)
          /\ LET v == Wave("sine", s.ph) IN
             Abs(v - <<0, 11863283, S, 11863283, 0, -11863283, -S, -11863283>>[(total % 8) + 1]) <= 1
\* Every wave is a number the outputs may be, and bounded.
Bounded == \A k \in OscKinds : LET v == Wave(k, s.ph) IN -S <= v /\ v <= S /\ OscOutput(k, s, v)
\* The triangle and the sine are continuous: no phase step of an eighth jumps by more than its slope.
Continuous == \A k \in {"tri", "sine"} : Abs(Wave(k, s.ph) - Wave(k, (s.ph + 1000) % Turn)) <= 3000
View == <<f, s, total % 8, samples, sets>>
TestView == <<f, s.ph, samples, sets>>
EmitTest == Emit => PrintT("TEST " \o ToJson(hist'))
=============================================================================
