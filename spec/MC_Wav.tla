-------------------------------- MODULE MC_Wav --------------------------------
(* Writers and readers that retry interrupted calls, go on after partial ones *)
(* and give up on failing ones, against every schedule of a few entries: they *)
(* never claim what didn't happen, and everything they do is allowed by       *)
(* Wav.tla, which allows nothing of a writer that ignores partial writes.     *)
EXTENDS Wav, Json
CONSTANTS MaxSched, Pieces, Emit
VARIABLES cfg, side, moved, state, hist
vars == <<wvars, cfg, side, moved, state, hist>>
AllEntries == Pieces \cup {-1, 0, -2}
FewEntries == {1, 44, 1000, -1, 0, -2}

\* A file made from codes, frame by frame.
LE4(n) == [k \in 1 .. 4 |-> Byte(n, k)]
LE2(n) == [k \in 1 .. 2 |-> Byte(n, k)]
RECURSIVE Flat(_, _)
Flat(bits, codes) == IF codes = <<>> THEN <<>> ELSE Bytes(bits, codes[1]) \o Flat(bits, Tail(codes))
Container(bits, ch, codes) ==
  LET d == Flat(bits, codes)
      pad == IF Len(d) % 2 = 1 THEN <<0>> ELSE <<>>
  IN RIFF \o LE4(36 + Len(d) + Len(pad)) \o WAVE \o FMT \o LE4(16) \o LE2(1) \o LE2(ch) \o LE4(EngineRate)
     \o LE4(EngineRate * ch * Width(bits)) \o LE2(ch * Width(bits)) \o LE2(bits) \o DATA \o LE4(Len(d)) \o d \o pad
\* Codes by frame, channel and a pattern.
CodeFor(bits, n, pat) == CASE pat = 0 -> (IF n % 2 = 0 THEN Lo(bits) ELSE Hi(bits)) [] pat = 1 -> (IF bits = 8 THEN 128 ELSE 0) + n [] OTHER -> (IF bits = 8 THEN 128 ELSE 0) - n
Codes(c) == [n \in 1 .. c.ch * c.len |-> CodeFor(c.bits, n, c.pat)]
Configs == [bits : Depths, ch : 1 .. 3, len : 0 .. 2, pat : 0 .. 2]
OneConfig == [bits : {16}, ch : {1}, len : {2}, pat : {0}]
TracksOf(c) == [k \in 1 .. c.ch |-> [i \in 1 .. c.len |-> MulDivR(Dec(c.bits, Codes(c)[(i - 1) * c.ch + k]), 1, 2)]]

Init == /\ cfg \in (IF Emit THEN OneConfig ELSE Configs)
        /\ side \in {"w", "r"}
        /\ file = Container(cfg.bits, cfg.ch, Codes(cfg))
        /\ tracks = TracksOf(cfg)
        /\ full = (<<cfg.bits, FALSE>> :> file)
        /\ sched = <<>> /\ at = 0 /\ moved = 0 /\ state = "going" /\ hist = <<>>
\* One call with schedule entry e: as write_all and read_exact do.
Call(e) ==
  /\ state = "going" /\ Len(sched) < MaxSched
  /\ sched' = Append(sched, e)
  /\ CASE e = -1 -> UNCHANGED <<moved, state>>
       [] e \in {0, -2} -> state' = "error" /\ UNCHANGED moved
       [] OTHER -> /\ moved' = Min2(Len(file), moved + e)
                   /\ state' = IF moved' = Len(file) THEN "done" ELSE state
  /\ hist' = <<side>> \o sched'
  /\ UNCHANGED <<tracks, file, full, at, cfg, side>>
Next == \E e \in (IF Emit THEN FewEntries ELSE AllEntries) : Call(e)
Spec == Init /\ [][Next]_vars

Count(e) == Cardinality({i \in 1 .. Len(sched) : sched[i] = e})
Result == [ok |-> TRUE, got |-> moved, ch |-> cfg.ch, rate |-> EngineRate, bits |-> cfg.bits, af |-> 1, t |-> tracks]
\* Files hold what they are made of, and the spec knows its own files.
WellFormed == LET h == Parse(file) IN Readable(h) /\ h.total = Len(file) /\ Frames(h) = cfg.len /\ IsFile(file, cfg.bits, FALSE) /\ Audio(h, tracks)
\* No prefix of a file is one.
Truncated == \A n \in 0 .. Len(file) - 1 : ~Parse(SubSeq(file, 1, n)).ok
\* What the specification demands of a finished call, without its effects.
WriteAllowed(ok, b) == IF ok THEN b = full[<<cfg.bits, FALSE>>] ELSE (Count(-2) > 0 \/ Count(0) > 0) /\ IsPrefix(b, file)
ReadAllowed(ok) == IF ok THEN Readable(Parse(file)) /\ moved >= Parse(file).total /\ Audio(Parse(file), tracks) ELSE Count(-2) > 0 \/ Count(0) > 0
Allowed == /\ (state # "going" /\ side = "w") => WriteAllowed(state = "done", SubSeq(file, 1, moved))
           /\ (state # "going" /\ side = "r") => ReadAllowed(state = "done")
\* A writer that takes one call's success for all is refused whenever that shows.
Hidden == (side = "w" /\ sched # <<>> /\ sched[1] > 0 /\ sched[1] < Len(file)) => ~WriteAllowed(TRUE, SubSeq(file, 1, sched[1]))
Honest == state = "done" => moved = Len(file)
View == <<cfg, side, moved, state, sched>>
EmitTest == (Emit /\ (state' # "going" \/ Len(sched') = MaxSched)) => PrintT("TEST " \o ToJson(hist'))
=============================================================================
