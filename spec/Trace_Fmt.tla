------------------------------ MODULE Trace_Fmt ------------------------------
(* Recorded conversions of codes, arithmetic of formats and panning, judged   *)
(* by Pcm.tla and Formats.tla. The last code and its sample are remembered,   *)
(* since samples must increase with codes, and the accumulator of each format. *)
EXTENDS Formats, TraceKit
VARIABLES last, acc
vars == <<last, acc, l>>
Zero == [f \in FormatsKnown |-> [k \in 1 .. Channels(f) |-> 0]]
None == <<0, 0, 0>>
TInit == last = None /\ acc = Zero /\ l = 1
TNext ==
  \/ Is("S") /\ last' = None /\ acc' = Zero
  \/ /\ Is("acc") /\ Len(Ev.r) = Channels(Ev.f) /\ Ev.ra = Ev.r
     /\ AllClose(Ev.r, IF Ev.o = "set" THEN Ev.b ELSE Applied(Ev.o, acc[Ev.f], Ev.b, Ev.s))
     /\ acc' = [acc EXCEPT ![Ev.f] = Ev.r] /\ UNCHANGED last
  \/ /\ Is("code") /\ IsDec(Ev.bits, Ev.c, Ev.s) /\ Ev.back = Ev.c /\ Ev.sb = Ev.s /\ Ev.by = Bytes(Ev.bits, Ev.c)
     /\ (last[1] = Ev.bits /\ last[2] < Ev.c) => last[3] < Ev.s
     /\ last' = <<Ev.bits, Ev.c, Ev.s>> /\ UNCHANGED acc
  \/ Is("upper") /\ IsDec(24, Ev.c, Ev.s) /\ UNCHANGED <<last, acc>>
  \* Every 24-bit code behaves alike, so there is one run of them.
  \/ /\ Is("run") /\ Ev.from = Lo(24) /\ Ev.to = Hi(24) /\ Ev.d = 0 /\ Ev.inc /\ Ev.from_bytes /\ Ev.to_bytes /\ Ev.upper
     /\ UNCHANGED <<last, acc>>
  \/ Is("enc") /\ Nearest(Ev.bits, Ev.s, Ev.c) /\ Ev.by = Bytes(Ev.bits, Ev.c) /\ UNCHANGED <<last, acc>>
  \/ Is("op") /\ Operates(Ev.f, Ev.o, Ev.a, Ev.b, Ev.s, Ev.r, Ev.ra) /\ UNCHANGED <<last, acc>>
  \/ Is("far") /\ Exactly(Ev.f, Ev.o, Ev.a, Ev.b, Ev.s, Ev.r, Ev.ra) /\ UNCHANGED <<last, acc>>
  \/ Is("scale") /\ Scales(Ev.f, Ev.r, Ev.ra) /\ UNCHANGED <<last, acc>>
  \/ Is("make") /\ Makes(Ev.f, Ev.c, Ev.new, Ev.r) /\ UNCHANGED <<last, acc>>
  \/ Is("conv") /\ Converts(Ev.f, Ev.s, Ev) /\ UNCHANGED <<last, acc>>
  \/ Is("codes") /\ FromCodes(Ev.f, Ev.bits, Ev.c, Ev) /\ UNCHANGED <<last, acc>>
  \/ Is("pan") /\ Pans(Ev.f, Ev.s, Ev.g, Ev.c) /\ UNCHANGED <<last, acc>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
