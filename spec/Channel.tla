------------------------------- MODULE Channel -------------------------------
(***************************************************************************)
(* Channels: sounds under ids, a gain, a process time. A pass draws one    *)
(* sample from every sound per output sample. One of the channels is the   *)
(* one that's acted on; sounds go from any to any.                         *)
(*                                                                         *)
(* The k-th sample of a sound is (b*k) mod 101, but a muted one gives 0,   *)
(* and a paused one gives 0 and stays where it is. Gains are in units of   *)
(* 1/4, output samples in units of 1/256.                                  *)
(***************************************************************************)
EXTENDS FixedPoint, FiniteSets, TLC
VARIABLES cur,      \* the channel that's acted on, whose are format, gain, len, sounds, used and out
          rest,     \* the others there are: number -> the same of it
          format,   \* "mono" or "stereo"
          gain, len,
          sounds,   \* id -> [n, b, cnt, st]: the sounds in the channel
          away,     \* sound -> [n, b, cnt, st]: those not in it, or no longer
          used,     \* the ids ever given
          given,    \* sound -> the ids it was given, one after the other, and by which channel
          reg,      \* sound -> the id it is registered with, or NoId
          elsewhere, \* the sounds away that someone else registered
          out       \* the samples of the last pass, of one side
cvars == <<cur, rest, format, gain, len, sounds, away, used, given, reg, elsewhere, out>>
NoId == -1
Rate == 48000
DefaultLen == 480
Samples(sec, ns) == sec * Rate + MulDiv(ns, 48, 1000000)   \* truncated

Muted(s) == s.st \in {1, 3}
Paused(s) == s.st \in {2, 3}
Toggled(st, m) == (IF (st \in {1, 3}) # (m \in {1, 3}) THEN 1 ELSE 0) + (IF (st \in {2, 3}) # (m \in {2, 3}) THEN 2 ELSE 0)
Sample(s, k) == IF s.st # 0 THEN 0 ELSE (s.b * ((s.cnt + k) % 101)) % 101
After(s, k) == IF Paused(s) THEN s ELSE [s EXCEPT !.cnt = @ + k]

CInit == /\ cur = 0 /\ rest = <<>> /\ format = "mono" /\ gain = 4 /\ len = DefaultLen
         /\ sounds = <<>> /\ away = <<>> /\ used = {} /\ given = <<>> /\ reg = <<>> /\ elsewhere = {} /\ out = <<>>
Create(f, g) == /\ cur' = 0 /\ rest' = <<>> /\ format' = f /\ gain' = g /\ len' = DefaultLen
                /\ sounds' = <<>> /\ away' = <<>> /\ used' = {} /\ given' = <<>> /\ reg' = <<>> /\ elsewhere' = {} /\ out' = <<>>
\* Another channel, and turning to one there is.
Me == [format |-> format, gain |-> gain, len |-> len, sounds |-> sounds, used |-> used, out |-> out]
Open(k, f, g) ==
  /\ k # cur /\ k \notin DOMAIN rest
  /\ rest' = (cur :> Me) @@ rest /\ cur' = k
  /\ format' = f /\ gain' = g /\ len' = DefaultLen /\ sounds' = <<>> /\ used' = {} /\ out' = <<>>
  /\ UNCHANGED <<away, given, reg, elsewhere>>
Turn(k) ==
  /\ k \in DOMAIN rest
  /\ rest' = (cur :> Me) @@ [j \in DOMAIN rest \ {k} |-> rest[j]] /\ cur' = k
  /\ format' = rest[k].format /\ gain' = rest[k].gain /\ len' = rest[k].len
  /\ sounds' = rest[k].sounds /\ used' = rest[k].used /\ out' = rest[k].out
  /\ UNCHANGED <<away, given, reg, elsewhere>>
\* What's there of the last pass once the process time is set anew is left open, until the next pass.
Unknown == <<-1000000007>>
SetTime(sec, ns) == /\ len' = Samples(sec, ns) /\ out' = Unknown
                    /\ UNCHANGED <<cur, rest, format, gain, sounds, away, used, given, reg, elsewhere>>
SetGain(g) == gain' = g /\ UNCHANGED <<cur, rest, format, len, sounds, away, used, given, reg, elsewhere, out>>
\* A sound of its own, and what can be done to it while it's in no channel.
Make(n, b, st) ==
  /\ n \notin DOMAIN reg
  /\ away' = (n :> [n |-> n, b |-> b, cnt |-> 0, st |-> st]) @@ away
  /\ reg' = (n :> NoId) @@ reg /\ given' = (n :> <<>>) @@ given
  /\ UNCHANGED <<cur, rest, format, gain, len, sounds, used, elsewhere, out>>
Toggle(n, m) ==
  /\ n \in DOMAIN away
  /\ away' = [away EXCEPT ![n].st = Toggled(@, m)]
  /\ UNCHANGED <<cur, rest, format, gain, len, sounds, used, given, reg, elsewhere, out>>
Solo(n) ==
  /\ n \in DOMAIN away
  /\ away' = [away EXCEPT ![n] = After(@, 1)]
  /\ UNCHANGED <<cur, rest, format, gain, len, sounds, used, given, reg, elsewhere, out>>
\* Someone else registers a sound with an id of theirs, or with none.
RegisterElsewhere(n, v) ==
  /\ n \in DOMAIN away
  /\ reg' = [reg EXCEPT ![n] = v]
  /\ elsewhere' = IF v = NoId THEN elsewhere \ {n} ELSE elsewhere \cup {n}
  /\ UNCHANGED <<cur, rest, format, gain, len, sounds, away, used, given, out>>
\* Which id a sound gets is left open, but for being new.
Put(s, id) ==
  /\ id \notin used
  /\ sounds' = (id :> s) @@ sounds
  /\ away' = [m \in DOMAIN away \ {s.n} |-> away[m]]
  /\ used' = used \cup {id}
  /\ given' = (s.n :> Append(IF s.n \in DOMAIN given THEN given[s.n] ELSE <<>>, <<cur, id>>)) @@ given
  /\ reg' = (s.n :> id) @@ reg /\ elsewhere' = elsewhere \ {s.n}
  /\ UNCHANGED <<cur, rest, format, gain, len, out>>
Add(n, b, st, id) == n \notin DOMAIN reg /\ Put([n |-> n, b |-> b, cnt |-> 0, st |-> st], id)
\* One of those away comes into the channel, whether it was there before or not.
Join(n, id) == n \in DOMAIN away /\ Put(away[n], id)
Remove(id) ==
  /\ sounds' = [i \in DOMAIN sounds \ {id} |-> sounds[i]]
  /\ away' = IF id \in DOMAIN sounds THEN (sounds[id].n :> sounds[id]) @@ away ELSE away
  /\ reg' = IF id \in DOMAIN sounds THEN [reg EXCEPT ![sounds[id].n] = NoId] ELSE reg
  /\ UNCHANGED <<cur, rest, format, gain, len, used, given, elsewhere, out>>

\* Sounds that came and went, one after the other, under these ids.
Churn(ids) ==
  /\ \A i \in DOMAIN ids : ids[i] >= 0
  /\ LET new == {ids[i] : i \in DOMAIN ids} IN
     Cardinality(new) = Len(ids) /\ new \cap used = {} /\ used' = used \cup new
  /\ UNCHANGED <<cur, rest, format, gain, len, sounds, away, given, reg, elsewhere, out>>

RECURSIVE Total(_, _, _)
Total(in, ids, i) == IF ids = {} THEN 0
                 ELSE LET d == CHOOSE d \in ids : TRUE
                      IN  Sample(in[d], i - 1) + Total(in, ids \ {d}, i)
Sqrt05 == 759250125   \* sqrt(1/2) * 2^30
Scaled(v) == IF format = "mono" THEN v ELSE MulDivR(v, Sqrt05, 1073741824)
Ran(before) ==
       /\ out' = [i \in 1..len |-> Scaled(Total(before, DOMAIN before, i) * 64 * gain)]
       /\ sounds' = [d \in DOMAIN before |-> After(before[d], len)]
       /\ UNCHANGED <<cur, rest, format, gain, len, away, used, given, reg, elsewhere>>
Run == Ran(sounds)
\* Many passes, one after the other. Their outputs repeat themselves after 101 of them.
RunMany(n) == n > 0 /\ Ran([d \in DOMAIN sounds |-> After(sounds[d], (n - 1) * len)])

\* Properties of the design.
Ks == {cur} \cup DOMAIN rest
Of(k) == IF k = cur THEN Me ELSE rest[k]
Within(k) == {Of(k).sounds[d].n : d \in DOMAIN Of(k).sounds}
IdsUnique == /\ \A k \in Ks : DOMAIN Of(k).sounds \subseteq Of(k).used
             /\ \A n, m \in DOMAIN given : \A i \in DOMAIN given[n], j \in DOMAIN given[m] :
                  given[n][i][2] \in Of(given[n][i][1]).used /\ (given[n][i] = given[m][j] => n = m /\ i = j)
Registered == \A k \in Ks : \A d \in DOMAIN Of(k).sounds : reg[Of(k).sounds[d].n] = d
OthersUnregistered == \A n \in DOMAIN reg : n \in elsewhere \/ reg[n] = NoId \/ \E k \in Ks : reg[n] \in DOMAIN Of(k).sounds /\ Of(k).sounds[reg[n]].n = n
OnePlace == /\ DOMAIN reg = DOMAIN away \cup UNION {Within(k) : k \in Ks}
            /\ \A k \in Ks : DOMAIN away \cap Within(k) = {}
            /\ \A k, j \in Ks : k # j => Within(k) \cap Within(j) = {}
            /\ \A k \in Ks : \A d, e \in DOMAIN Of(k).sounds : Of(k).sounds[d].n = Of(k).sounds[e].n => d = e
            /\ elsewhere \subseteq DOMAIN away
Stayed == cur' = cur
NeverReused == [][Stayed => \A d \in used : d \in DOMAIN sounds' => d \in DOMAIN sounds /\ sounds'[d].n = sounds[d].n]_cvars
AllTogether == [][Stayed => \A d, e \in DOMAIN sounds \cap DOMAIN sounds' :
                    ~Paused(sounds[d]) /\ ~Paused(sounds[e]) =>
                      sounds'[d].cnt - sounds[d].cnt = sounds'[e].cnt - sounds[e].cnt]_cvars
PausedStay == [][Stayed => \A d \in DOMAIN sounds \cap DOMAIN sounds' : Paused(sounds[d]) => sounds'[d].cnt = sounds[d].cnt]_cvars
RightLength == [][Stayed => out' = out \/ out' = Unknown \/ Len(out') = len]_cvars
\* What happens to one channel leaves the others as they are.
Apart == [][\A k \in DOMAIN rest : (k \in DOMAIN rest' => rest'[k] = rest[k]) /\ (k \notin DOMAIN rest' => Me' = rest[k])]_cvars
=============================================================================
