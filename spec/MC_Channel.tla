------------------------------ MODULE MC_Channel ------------------------------
(* Channel.tla with small constants, and the tests its transitions make.      *)
EXTENDS Channel, Json
CONSTANTS MaxChannels, MaxSounds, MaxSteps, Emit
VARIABLES hist, steps
vars == <<cvars, hist, steps>>
Do(op) == hist' = (IF Emit THEN Append(hist, op) ELSE hist) /\ steps' = steps + 1
Init == CInit /\ hist = <<<<"new", "mono", 1>>>> /\ steps = 0
\* Which unused id a sound gets is the channel's choice; it's not part of a test.
Choices == IF Emit THEN {Cardinality(used)} ELSE 0..MaxSounds
Sounds == DOMAIN reg
States == {0, 1, 2, 3}
\* The id a sound got last, if it was from this channel.
From(n) == IF n \in DOMAIN given /\ given[n] # <<>> /\ given[n][Len(given[n])][1] = cur THEN {given[n][Len(given[n])][2]} ELSE {}
Next ==
  /\ steps < MaxSteps
  /\ \/ \E k \in {"test", "simple", "complex"}, st \in States : LET n == Cardinality(Sounds) + 1 IN
          /\ n <= MaxSounds /\ (k = "test" => st = 0)
          /\ \E id \in Choices : Add(n, 2 * n + 1, st, id)
          /\ Do(<<"add", k, n, 2 * n + 1, 0, st>>)
     \/ \E k \in {"simple", "complex"}, st \in {0, 2} : LET n == Cardinality(Sounds) + 1 IN
          /\ n <= MaxSounds
          /\ Make(n, 2 * n + 1, st)
          /\ Do(<<"make", k, n, 2 * n + 1, st>>)
     \* Those away that were made apart, of which there's a handle.
     \/ \E n \in DOMAIN away : given[n] = <<>> /\ \E m \in {1, 2} : Toggle(n, m) /\ Do(<<"tog", n, m>>)
     \/ \E n \in DOMAIN away : given[n] = <<>> /\ Solo(n) /\ Do(<<"solo", n>>)
     \/ \E n \in DOMAIN away : given[n] = <<>> /\ \E id \in Choices : Join(n, id) /\ Do(<<"join", n, 0>>)
     \/ \E n \in Sounds : \E d \in From(n) : Remove(d) /\ Do(<<"rem", "s", n>>)
     \/ \E n \in DOMAIN away : given[n] = <<>> /\ reg[n] = NoId /\ \E v \in {0, 1} : RegisterElsewhere(n, v) /\ Do(<<"regs", n, v>>)
     \* Into the channel, out of it and into it again.
     \/ \E n \in DOMAIN away : ~Emit /\ given[n] # <<>> /\ \E id \in Choices : Join(n, id) /\ Do(<<"join", n, 0>>)
     \/ \E n \in Sounds : ~Emit /\ Len(given[n]) > 1 /\ Remove(given[n][1][2]) /\ Do(<<"rem", "o", n>>)
     \/ cur = 0 /\ rest = <<>> /\ MaxChannels > 1 /\ Open(1, "mono", 8) /\ Do(<<"open", 1, "mono", 2>>)
     \/ \E k \in DOMAIN rest : Turn(k) /\ Do(<<"on", k>>)
     \/ Remove(77) /\ Do(<<"rem", "i", 77>>)
     \/ \E g \in {4, 8} : g # gain /\ SetGain(g) /\ Do(<<"gain", g \div 4>>)
     \/ \E ns \in {0, 41666, 62500} : SetTime(0, ns) /\ Do(<<"time", 0, ns>>)
     \/ len < 10 /\ Run /\ Do(<<"proc">>)
Spec == Init /\ [][Next]_vars
View == <<cvars, steps>>
TestView == <<cur, [k \in DOMAIN rest |-> <<rest[k].used, DOMAIN rest[k].sounds>>], gain, len, [d \in DOMAIN sounds |-> sounds[d].st], [n \in DOMAIN away |-> away[n].st], used, reg, elsewhere, steps>>
EmitTest == Emit => PrintT("TEST " \o ToJson(hist'))
=============================================================================
