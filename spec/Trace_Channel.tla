----------------------------- MODULE Trace_Channel -----------------------------
(***************************************************************************)
(* Recorded histories of real StandardChannels as behaviours of            *)
(* Channel.tla. The ids are whatever new ids the channel chose.            *)
(***************************************************************************)
EXTENDS Channel, TraceKit
VARIABLE recs   \* the sounds of the harness, which record what they're told
vars == <<cvars, recs, l>>
TInit == CInit /\ recs = {} /\ l = 1
\* What the recording sounds were told: [sound, 1, id] registered, [sound, 2] unregistered, [sound, 3, ..] processed.
AddT ==
  /\ Is("add") /\ Ev.id >= 0
  /\ Add(Ev.n, Ev.b, Ev.st, Ev.id)
  /\ Ev.k = "test" => /\ Ev.log # <<>> /\ Ev.log[Len(Ev.log)] = <<Ev.n, 1, Ev.id>>
  /\ \A i \in DOMAIN Ev.log : Ev.log[i][1] = Ev.n /\ Ev.log[i][2] # 3
JoinT ==
  /\ Is("join") /\ Ev.id >= 0
  /\ Join(Ev.n, Ev.id)
  /\ Ev.log = <<>>
RemT ==
  /\ Is("rem") /\ Remove(Ev.id)
  /\ IF Ev.id \in DOMAIN sounds
     THEN /\ \A i \in DOMAIN Ev.log : Ev.log[i] = <<sounds[Ev.id].n, 2>>
          /\ sounds[Ev.id].n \in recs => Ev.log # <<>>
     ELSE Ev.log = <<>>
Drawn(n, c) == \E i \in DOMAIN Ev.draw : Ev.draw[i] = <<n, c, 0, 0>>
\* Small integers add up exactly. Panned ones don't, and in which order they're added is left open:
\* each of them rounds the total by up to half a unit in the last of its 24 bits.
Loose(v) == 1 + MulDiv(Cardinality(DOMAIN sounds), IF v < 0 THEN -v ELSE v, 16777216)
Side(s, w, exact) == Len(s) = Len(w) /\ \A i \in DOMAIN w : Near(s[i], w[i], IF exact THEN 0 ELSE Loose(w[i]))
ProT ==
  /\ Is("proc") /\ Run
  /\ Side(Ev.l, out', format = "mono")
  /\ Side(Ev.r, IF format = "mono" THEN <<>> ELSE out', FALSE)
  /\ IF len = 0 THEN Ev.draw = <<>>
     ELSE LET on == {d \in DOMAIN sounds : ~Paused(sounds[d])} IN
          /\ \A d \in on : Drawn(sounds[d].n, len)
          /\ Len(Ev.draw) = Cardinality(on)
\* The order in which panned ones are added up may change from pass to pass.
ManyT ==
  /\ Is("passes") /\ RunMany(Ev.n)
  /\ Side(Ev.l, out', format = "mono")
  /\ Side(Ev.r, IF format = "mono" THEN <<>> ELSE out', FALSE)
  /\ format = "mono" => Ev.odd = 0
  /\ IF len = 0 THEN Ev.draw = <<>>
     ELSE LET on == {d \in DOMAIN sounds : ~Paused(sounds[d])} IN
          /\ \A d \in on : Drawn(sounds[d].n, Ev.n * len)
          /\ Len(Ev.draw) = Cardinality(on)
SoloT ==
  /\ Is("solo") /\ Solo(Ev.n)
  /\ Ev.y = Sample(away[Ev.n], 0) * 256
TStep ==
  \/ Is("S") /\ UNCHANGED cvars
  \/ Is("new") /\ Create(Ev.f, Ev.g)
  \/ Is("open") /\ Open(Ev.k, Ev.f, Ev.g)
  \/ Is("on") /\ IF Ev.k = cur THEN UNCHANGED cvars ELSE Turn(Ev.k)
  \/ Is("copy") /\ UNCHANGED cvars
  \/ Is("time") /\ SetTime(Ev.sec, Ev.ns)
  \/ Is("gain") /\ SetGain(Ev.g)
  \/ Is("churn") /\ Churn(Ev.ids) /\ Len(Ev.ids) = Ev.n /\ Ev.told /\ ~Ev.drawn
  \/ AddT \/ JoinT \/ RemT \/ ProT \/ ManyT \/ SoloT
  \/ Is("make") /\ Make(Ev.n, Ev.b, Ev.st)
  \/ Is("regs") /\ RegisterElsewhere(Ev.n, Ev.v) /\ Ev.id = Ev.v
  \/ Is("tog") /\ Toggle(Ev.n, Ev.m)
  \/ Is("id") /\ Ev.id = reg[Ev.n] /\ UNCHANGED cvars
  \/ Is("drop") /\ UNCHANGED cvars
  \/ Is("out") /\ (out = Unknown \/ Ev.len = Len(out)) /\ UNCHANGED cvars
TNext == TStep /\ recs' = CASE Ev.e = "new" -> {} [] Ev.e = "add" /\ Ev.k = "test" -> recs \cup {Ev.n} [] OTHER -> recs
TSpec == TInit /\ [][TNext]_vars
=============================================================================
