---------------------------------- MODULE Wav ----------------------------------
(***************************************************************************)
(* Writing and reading WAV files: what a well-formed file holds, what      *)
(* arrives at a destination that takes the bytes as it pleases, and what   *)
(* becomes of a source that delivers, stops or fails as it pleases.        *)
(*                                                                         *)
(* A destination or source behaves by a schedule, one entry per call, of   *)
(* which the last repeats: n > 0 takes or delivers up to n bytes, 0 none,  *)
(* -1 is interrupted, -2 fails.                                            *)
(***************************************************************************)
EXTENDS Pcm, FiniteSets, TLC

VARIABLES
  tracks,  \* the channels to write, samples in 2^-28 (4 and more shown as 4)
  file,    \* the bytes of the current file
  sched,   \* the schedule of destinations and sources
  full,    \* <<depth, clip>> -> the file that comes of these tracks, where known
  at       \* how much of the file the in-memory reader has delivered
wvars == <<tracks, file, sched, full, at>>

EngineRate == 48000
WavInit == tracks = <<>> /\ file = <<>> /\ sched = <<1>> /\ full = <<>> /\ at = 0

-----------------------------------------------------------------------------
(* The container: RIFF, its length, WAVE, and chunks of which one is the   *)
(* format and one the data; chunks of odd length are padded.               *)
Tag(b, p) == <<b[p], b[p + 1], b[p + 2], b[p + 3]>>
RIFF == <<82, 73, 70, 70>>
WAVE == <<87, 65, 86, 69>>
FMT  == <<102, 109, 116, 32>>
DATA == <<100, 97, 116, 97>>
Bad == [ok |-> FALSE]
\* The chunks from position p (counted from 1) up to end: tag -> start of its contents and length.
RECURSIVE Chunks(_, _, _)
Chunks(b, p, end) ==
  IF p > end THEN <<>>
  ELSE IF p + 7 > Len(b) THEN <<<<"cut">>>>
  ELSE LET n == LE(b, p + 4, 4) IN
       IF n > Len(b) \/ p + 7 + n > Len(b) THEN <<<<"cut">>>>
       ELSE <<<<"chunk", Tag(b, p), p + 8, n>>>> \o Chunks(b, p + 8 + n + (n % 2), end)
\* Length of the file its first bytes announce, 0 if they don't.
Announced(b) == IF Len(b) < 12 \/ Tag(b, 1) # RIFF \/ Tag(b, 9) # WAVE THEN 0 ELSE 8 + LE(b, 5, 4)
Parse(b) ==
  LET total == Announced(b) IN
  IF total = 0 \/ total > Len(b) THEN Bad
  ELSE LET cs == Chunks(SubSeq(b, 1, total), 13, total)
           fs == {i \in 1 .. Len(cs) : cs[i][1] = "chunk" /\ cs[i][2] = FMT /\ cs[i][4] >= 16}
           ds == {i \in 1 .. Len(cs) : cs[i][1] = "chunk" /\ cs[i][2] = DATA}
       IN  IF Cardinality(fs) # 1 \/ Cardinality(ds) # 1 \/ (\E i \in 1 .. Len(cs) : cs[i][1] = "cut") THEN Bad
           ELSE LET f == cs[CHOOSE i \in fs : TRUE][3]
                    d == cs[CHOOSE i \in ds : TRUE]
                IN [ok |-> TRUE, total |-> total, af |-> LE(b, f, 2), ch |-> LE(b, f + 2, 2), rate |-> LE(b, f + 4, 4),
                    bps |-> LE(b, f + 8, 4), align |-> LE(b, f + 12, 2), bits |-> LE(b, f + 14, 2), data |-> d[3], len |-> d[4]]
\* A file this engine is meant to read.
Readable(h) == /\ h.ok /\ h.af = 1 /\ h.bits \in Depths /\ h.ch >= 1
               /\ h.len % (h.ch * Width(h.bits)) = 0
Frames(h) == h.len \div (h.ch * Width(h.bits))
CodeOf(b, h, c, i) == CodeAt(b, h.data + ((i - 1) * h.ch + c - 1) * Width(h.bits), h.bits)

-----------------------------------------------------------------------------
(* Writing.                                                                *)
\* The size of a frame is 16 bits of the header.
TooWide(ch, bits) == ch * Width(bits) > 65535
Writable(bits) == /\ tracks # <<>> /\ bits \in Depths
                  /\ ~TooWide(Len(tracks), bits)
                  /\ \A c \in 1 .. Len(tracks) : Len(tracks[c]) = Len(tracks[1])
Clipped(s) == Clamp(s, -S28, S28)
InRange(s) == -S28 <= s /\ s <= S28
\* b is the file of these tracks.
IsFile(b, bits, clip) ==
  LET h == Parse(b) IN
  /\ h.ok /\ h.total = Len(b)
  /\ h.af = 1 /\ h.ch = Len(tracks) /\ h.rate = EngineRate /\ h.bits = bits
  /\ h.align = h.ch * Width(bits) /\ h.bps = h.align * EngineRate
  /\ h.len = Len(tracks[1]) * h.align
  /\ \A c \in 1 .. h.ch : \A i \in 1 .. Len(tracks[c]) :
       LET s == tracks[c][i] IN (clip \/ InRange(s)) => Nearest(bits, 2 * Clipped(s), CodeOf(b, h, c, i))
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* failed, none: how often the destination failed or took nothing.
Write(bits, clip, ok, failed, none, b) ==
  LET k == <<bits, clip>> IN
  /\ IF ~Writable(bits) THEN ~ok /\ b = <<>> /\ UNCHANGED full
     ELSE IF ok THEN /\ IF k \in DOMAIN full THEN b = full[k] ELSE IsFile(b, bits, clip)
                     /\ full' = (k :> b) @@ full
     ELSE /\ failed > 0 \/ none > 0
          /\ k \in DOMAIN full => IsPrefix(b, full[k])
          /\ UNCHANGED full
  /\ file' = b /\ at' = 0 /\ UNCHANGED <<tracks, sched>>
AddTrack(s) == tracks' = Append(tracks, s) /\ full' = <<>> /\ UNCHANGED <<file, sched, at>>
ClearTracks == tracks' = <<>> /\ full' = <<>> /\ UNCHANGED <<file, sched, at>>
Schedule(s) == sched' = s /\ UNCHANGED <<tracks, file, full, at>>
SetFile(b) == file' = b /\ at' = 0 /\ UNCHANGED <<tracks, sched, full>>

-----------------------------------------------------------------------------
(* Reading the first n bytes of the file.                                  *)
Audio(h, t) ==
  /\ Len(t) = h.ch
  /\ \A c \in 1 .. h.ch : /\ Len(t[c]) = Frames(h)
                          /\ \A i \in 1 .. Frames(h) : Near(t[c][i], MulDivR(Dec(h.bits, CodeOf(file, h, c, i)), 1, 2), DecTol \div 2)
Read(n, failed, r) ==
  LET h == Parse(file)
      whole == Readable(h) /\ n >= h.total IN
  /\ IF r.ok THEN /\ whole /\ r.got >= h.total
                  /\ r.ch = h.ch /\ r.rate = h.rate /\ r.bits = h.bits /\ r.af = 1
                  /\ Audio(h, r.t)
     ELSE ~whole \/ failed > 0 \/ \E i \in 1 .. Len(sched) : sched[i] = 0
  /\ UNCHANGED wvars
(* The in-memory reader, asked for this many bytes: n of them are b, and   *)
(* the rest of the buffer is as it was.                                    *)
Take(size, n, b, rest) ==
  /\ n = Min2(size, Len(file) - at)
  /\ b = SubSeq(file, at + 1, at + n) /\ rest
  /\ at' = at + n /\ UNCHANGED <<tracks, file, sched, full>>
(* Long tracks, of which only the differences are recorded: of samples     *)
(* within full scale from what they were, and of others from full scale.   *)
LongTrip(e) ==
  LET d == e.n * e.ch * Width(e.bits)
      head == SubSeq(e.head, 1, 44) IN
  IF TooWide(e.ch, e.bits) THEN ~e.wok /\ e.size = 0 /\ UNCHANGED wvars ELSE
  /\ e.wok /\ e.rok
  /\ Announced(head) = e.size /\ e.size >= 44 + d
  /\ e.hch = e.ch /\ e.hrate = EngineRate /\ e.hbits = e.bits /\ e.haf = 1
  /\ e.lens = [c \in 1 .. e.ch |-> e.n]
  /\ Len(e.err) = e.ch /\ \A c \in 1 .. e.ch : e.err[c] <= Step(e.bits) \div 2 + 20
  /\ e.clip => \A c \in 1 .. e.ch : e.over[c] <= Step(e.bits) + 20
  /\ UNCHANGED wvars
=============================================================================
