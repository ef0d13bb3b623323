----------------------------- MODULE SimpleSound -----------------------------
(***************************************************************************)
(* A simple sound: a generator block, modifier blocks in series after it,  *)
(* a gain before and a gain after. Samples and gains in units of 1/4.      *)
(***************************************************************************)
EXTENDS Blocks, TLC

VARIABLES chain,    \* the generator block, then the modifier blocks
          runs,     \* how often each has run
          ig, og, paused, muted, id,
          out, calls

svars == <<chain, runs, ig, og, paused, muted, id, out, calls>>
NoId == -1

RECURSIVE Series(_, _, _)
Series(i, in, acc) ==
  IF i > Len(chain) THEN [y |-> in, calls |-> acc]
  ELSE LET y == BlockOut(chain[i], runs[i], in)
       IN  Series(i + 1, y, Append(acc, <<i - 1, Seen(chain[i], in), y>>))

SInit == /\ chain = <<>> /\ runs = <<>> /\ ig = 0 /\ og = 0
         /\ paused = FALSE /\ muted = FALSE /\ id = NoId /\ out = 0 /\ calls = <<>>
Create(i, o, blk) ==
  /\ chain' = <<blk>> /\ runs' = <<0>> /\ ig' = i /\ og' = o
  /\ paused' = FALSE /\ muted' = FALSE /\ id' = NoId /\ out' = 0 /\ calls' = <<>>
Extend(list) ==
  /\ chain' = chain \o list /\ runs' = runs \o [i \in 1..Len(list) |-> 0]
  /\ UNCHANGED <<ig, og, paused, muted, id, out, calls>>
SetIn(g)    == ig' = g /\ UNCHANGED <<chain, runs, og, paused, muted, id, out, calls>>
SetOut(g)   == og' = g /\ UNCHANGED <<chain, runs, ig, paused, muted, id, out, calls>>
TogglePause == paused' = ~paused /\ UNCHANGED <<chain, runs, ig, og, muted, id, out, calls>>
ToggleMute  == muted' = ~muted /\ UNCHANGED <<chain, runs, ig, og, paused, id, out, calls>>
Register(i) == id' = i /\ UNCHANGED <<chain, runs, ig, og, paused, muted, out, calls>>
Process(x) ==
  /\ IF paused THEN out' = 0 /\ calls' = <<>> /\ UNCHANGED runs
     ELSE LET r == Series(1, (x * ig) \div 4, <<>>) IN
          /\ calls' = r.calls
          /\ out' = IF muted THEN 0 ELSE (r.y * og) \div 4
          /\ runs' = [i \in DOMAIN runs |-> runs[i] + 1]
  /\ UNCHANGED <<chain, ig, og, paused, muted, id>>

\* Many passes at once.
ProcessMany(n) ==
  /\ runs' = IF paused THEN runs ELSE [i \in DOMAIN runs |-> runs[i] + n]
  /\ UNCHANGED <<chain, ig, og, paused, muted, id, out, calls>>

\* Properties of the design.
InSeries == \A i \in 2..Len(calls) : calls[i][1] = calls[i - 1][1] + 1 /\ (chain[i].k = "gen" \/ calls[i][2] = calls[i - 1][3])
Frozen == [][paused /\ paused' => runs' = runs \/ Len(chain') > Len(chain)]_svars
OneToggle == [][~(paused' # paused /\ muted' # muted)]_svars
AllTogether == [][\A i \in DOMAIN runs : i \in DOMAIN runs' => runs'[i] - runs[i] = runs'[1] - runs[1]]_svars
=============================================================================
