------------------------------- MODULE MC_Adsr -------------------------------
(* An envelope of stages of 0 to 3 samples, released at any time, and every  *)
(* gain on a grid that its stages allow.                                     *)
EXTENDS Adsr, Json, TLC
CONSTANTS MaxSteps, Levels, Seen, Emit
VARIABLES p, s, released, steps, hist
vars == <<p, s, released, steps, hist>>
AllLevels == {-200000, -12000, 0, 3000}
TwoLevels == {-12000, 0}
Times == {0, 21, 42, 63}        \* microseconds: 0, about 1, 2 and 3 samples
Do(op) == hist' = IF Emit THEN Append(hist, op) ELSE hist
Init == /\ p \in {<<a, d, m, r>> : a \in Times, d \in Times, m \in Levels, r \in Times}
        /\ s = AdsrStart /\ released = FALSE /\ steps = 0 /\ hist = <<<<"new">> \o p>>
\* Gains a step may show: none, the ends and a grid.
Grid == {Unseen} \cup (IF Seen THEN {0, S, Level(p[3])} \cup {k * (S \div 6) : k \in 1 .. 5} ELSE {})
Sample == /\ \E g \in Grid : s' \in AdsrStep(p, s, g, 0)
          /\ Do(<<"p">>) /\ steps' = (IF Emit THEN steps + 1 ELSE 0) /\ UNCHANGED <<p, released>>
Release == s' = AdsrRelease(s) /\ released' = TRUE /\ Do(<<"rel">>) /\ UNCHANGED <<p, steps>>
Next == steps < MaxSteps /\ (Sample \/ ((Emit => ~released) /\ Release))
Spec == Init /\ [][Next]_vars /\ WF_vars(Sample)

Stages == <<"attack", "decay", "sustain", "release", "stopped">>
No(st) == CHOOSE k \in 1 .. 5 : Stages[k] = st
\* Stages follow each other; a release is the only way out of, and needed for what comes after, the first three.
InOrder == [][No(s'.st) >= No(s.st) /\ (No(s'.st) <= No(s.st) + 1 \/ s'.st = "release")]_s
OnlyReleased == No(s.st) >= 4 <=> released
\* Gains are between silence and full scale, and whatever the state there's a next sample.
Proper == s.g = Unseen \/ (0 <= s.g /\ s.g <= S)
NeverStuck == AdsrStep(p, s, Unseen, 0) # {}
\* A stage lasts no longer than its time by more than a sample.
Timely == s.st \in {"attack", "decay", "release"} =>
            1000 * (s.n - 1) < 48 * (CASE s.st = "attack" -> p[1] [] s.st = "decay" -> p[2] [] OTHER -> p[4]) + 1000
FallsSilent == released ~> s.st = "stopped"
Sustains == <>(s.st \in {"sustain", "release", "stopped"})
StaysSilent == [][s.st = "stopped" => s'.st = "stopped"]_s
View == <<p, s, released, steps>>
TestView == <<p, s.st, s.n, released, steps>>
EmitTest == Emit => PrintT("TEST " \o ToJson(hist'))
=============================================================================
