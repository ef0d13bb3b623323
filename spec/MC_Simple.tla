------------------------------ MODULE MC_Simple ------------------------------
EXTENDS SimpleSound, Json
CONSTANTS MaxBlocks, MaxPasses, Emit
VARIABLES hist, passes
vars == <<svars, hist, passes>>
Do(op) == hist' = Append(hist, op)
B(n) == [k |-> "raw", a |-> n + 2, b |-> n + 1]
Init == /\ chain = <<B(0)>> /\ runs = <<0>> /\ ig = 4 /\ og = 4
        /\ paused = FALSE /\ muted = FALSE /\ id = NoId /\ out = 0 /\ calls = <<>>
        /\ hist = <<>> /\ passes = 0
Next ==
  \/ /\ passes < MaxPasses /\ passes' = passes + 1
     /\ \E x \in {0, 3} : Process(4 * x) /\ Do(<<"proc", x>>)
  \/ /\ UNCHANGED passes
     /\ \/ TogglePause /\ Do(<<"pause">>)
        \/ ToggleMute /\ Do(<<"mute">>)
        \/ \E g \in {4, 8, -4} : g # ig /\ SetIn(g) /\ Do(<<"ig", g \div 4>>)
        \/ \E g \in {4, 8, 0} : g # og /\ SetOut(g) /\ Do(<<"og", g \div 4>>)
        \/ \E i \in {0, 7} : i # id /\ Register(i) /\ Do(<<"reg", i>>)
        \/ id # NoId /\ Register(NoId) /\ Do(<<"unreg">>)
        \/ /\ Len(chain) < MaxBlocks /\ Extend(<<B(Len(chain))>>)
           /\ Do(<<"add", "raw", B(Len(chain)).a, B(Len(chain)).b>>)
        \/ /\ Len(chain) + 1 < MaxBlocks /\ Extend(<<B(Len(chain)), B(Len(chain) + 1)>>)
           /\ Do(<<"ext", "raw", B(Len(chain)).a, B(Len(chain)).b, "raw", B(Len(chain) + 1).a, B(Len(chain) + 1).b>>)
Spec == Init /\ [][Next]_vars
View == <<chain, runs, ig, og, paused, muted, id, passes>>
TestView == <<Len(chain), ig, og, paused, muted, id, passes>>
EmitTest == Emit => PrintT("TEST " \o ToJson(hist'))
=============================================================================
