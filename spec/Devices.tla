------------------------------- MODULE Devices -------------------------------
(***************************************************************************)
(* Generators, modifiers and sample players side by side: each an object   *)
(* of a kind, with the parameters it was made with (p), the settings that  *)
(* are in force (c) and a state (s). A clone has the settings of its       *)
(* original and the state of a new object; nothing done to one object      *)
(* shows in another.                                                       *)
(***************************************************************************)
EXTENDS Osc, Adsr, Lines, Resampler, Filters

VARIABLE objs
dvars == <<objs>>

Players == {"resam", "wavt", "wav"}
NoState == [none |-> 0]

\* The track of a player, by its parameters.
TrackLen(o) == CASE o.k = "resam" -> (IF o.d = "F" THEN o.p[4] ELSE Len(o.p) - 3)
                 [] o.k = "wavt"  -> (IF o.d = "F" THEN o.p[2] ELSE Len(o.p) - 1)
                 [] OTHER         -> (Len(o.p) - 3) \div o.p[2]
Decoded(bits, c) == CASE bits = 8  -> (c - 128) * 131072
                      [] bits = 16 -> MulDivR(c, S, 32767)
                      [] OTHER     -> MulDivR(c, S, 8388607)
TrackAt(o, i) == CASE o.k = "resam" -> (IF o.d = "F" THEN Formula(i, o.p[5]) ELSE o.p[4 + i])
                   [] o.k = "wavt"  -> (IF o.d = "F" THEN Formula(i, o.p[3]) ELSE o.p[2 + i])
                   [] OTHER         -> Decoded(o.p[1], o.p[4 + i * o.p[2]])
SourceRate(o) == IF o.k = "wav" THEN 4 * o.p[3] ELSE o.p[1]   \* in 1/4 Hz
LoopIn(o) == IF o.k = "resam" THEN LoopOf(o.p[2], o.p[3], TrackLen(o)) ELSE <<0, 0>>

\* The settings a new object may have.
Settings(k, p) ==
  CASE k \in OscKinds    -> {<<p[1]>>}
    [] k = "gain"        -> {<<p[1]>>}
    [] k = "delay"       -> {<<d>> : d \in Lengths(p[1], p[2])}
    [] k = "echo"        -> {<<Max2(d, 1)>> : d \in Lengths(p[1], p[2])}
    [] k \in {"lp", "hp"} -> {<<Min2(p[1], Nyquist), Clamped01(p[2])>>}
    [] k = "bp"          -> {FromCentre(Fine(p[1]), <<p[2], S>>)}
    [] k = "bpc"         -> {FromCorners(Fine(p[1]), Fine(p[2]))}
    [] k \in Players     -> {<<Unit>>}
    [] OTHER             -> {<<>>}
InitialState(k, c) ==
  CASE k \in OscKinds         -> OscStart(c[1])
    [] k \in {"delay", "echo"} -> LineStart
    [] k = "generic"          -> GenericStart
    [] k \in {"lp", "hp"}     -> LhStart
    [] k \in {"bp", "bpc"}    -> BpStart
    [] k = "env"              -> EnvStart
    [] k = "adsr"             -> AdsrStart
    [] k \in Players          -> ResamStart
    [] OTHER                  -> NoState

New(i, k, p, d) == \E c \in Settings(k, p) : objs' = (i :> [k |-> k, p |-> p, d |-> d, c |-> c, s |-> InitialState(k, c)]) @@ objs
Clone(i, n) == objs' = (n :> [objs[i] EXCEPT !.s = InitialState(objs[i].k, objs[i].c)]) @@ objs
Drop(i) == objs' = [j \in DOMAIN objs \ {i} |-> objs[j]]

(***************************************************************************)
(* One sample: the states that may follow it, none if it's wrong.          *)
(***************************************************************************)
If(cond, v) == IF cond THEN {v} ELSE {}
Steps(o, x, y) ==
  CASE o.k \in OscKinds -> If(OscOutput(o.k, o.s, y), OscAdvance(o.s, o.c[1], 1))
    [] o.k = "noise"    -> If(IsNum(y) /\ -S <= y /\ y < S, o.s)
    [] o.k = "zero"     -> If(y = 0, o.s)
    [] o.k = "pass"     -> If(y = x, o.s)
    [] o.k = "gain"     -> If(GainOutput(o.c[1], x, y), o.s)
    [] o.k = "delay"    -> DelayStep(o.c[1], o.s, x, y)
    [] o.k = "echo"     -> EchoStep(o.c[1], o.p[3], o.s, x, y)
    [] o.k = "generic"  -> GenericStep(o.p, o.s, x, y)
    [] o.k = "lp"       -> LhStep(TRUE, o.c[1], o.c[2], o.s, x, y)
    [] o.k = "hp"       -> LhStep(FALSE, o.c[1], o.c[2], o.s, x, y)
    [] o.k \in {"bp", "bpc"} -> BpStep(o.c, o.s, x, y)
    [] o.k = "env"      -> EnvStep(o.p[1], o.p[2], o.s, x, y)
    [] o.k = "adsr"     -> IF IsNum(y) /\ Between0(x, y) THEN AdsrStep(o.p, o.s, Gain(x, y), Within(x)) ELSE {}
    [] OTHER -> LET at(i) == TrackAt(o, i) len == TrackLen(o) IN
                If(ResamOutput(o.s, LoopIn(o), len, SourceRate(o), at, y), Ahead(o.s, LoopIn(o), len, SourceRate(o), o.c[1], 1))
Process(i, x, y) == \E t \in Steps(objs[i], x, y) : objs' = [objs EXCEPT ![i].s = t]

(***************************************************************************)
(* Many samples of a constant input, of which only the range, the last and *)
(* a few counts are known.                                                 *)
(***************************************************************************)
RECURSIVE ISqrt(_, _)
ISqrt(n, r) == IF r * r <= n THEN r ELSE ISqrt(n, (r + n \div r) \div 2)
Skips(o, e) ==
  CASE o.k \in OscKinds ->
         LET b == OscAdvance(o.s, o.c[1], e.n - 1) IN
         If(e.nan = 0 /\ e.le1 /\ OscOutput(o.k, b, e.y) /\ (o.k = "square" => e.pos + e.neg = e.n /\ Abs(e.lo) = S /\ Abs(e.hi) = S),
            OscAdvance(b, o.c[1], 1))
    [] o.k = "noise" ->
         LET r == ISqrt(e.n, 46340) IN
         If(/\ e.nan = 0 /\ e.le1 /\ e.lt1
            \* Six standard deviations of what a fair one does.
            /\ e.n >= 100 => /\ e.lo < 0 /\ e.hi > 0
                             /\ Abs(e.pos - e.neg) <= 6 * (r + 1)
                             /\ Abs(e.mean) <= (4 * S) \div r, o.s)
    [] o.k = "zero"  -> If(e.nan = 0 /\ e.lo = 0 /\ e.hi = 0, o.s)
    [] o.k = "pass"  -> If(e.nan = 0 /\ e.lo = e.x /\ e.hi = e.x, o.s)
    [] o.k = "gain"  -> If(e.nan = 0 /\ GainOutput(o.c[1], e.x, e.lo) /\ GainOutput(o.c[1], e.x, e.hi), o.s)
    [] o.k = "delay" -> IF e.nan = 0 /\ e.x = 0 THEN LineSkip(o.c[1], 0, FALSE, o.s, e.n, e.lo, e.hi, e.y) ELSE {}
    [] o.k = "echo"  -> IF e.nan = 0 /\ e.x = 0 THEN LineSkip(o.c[1], o.p[3], TRUE, o.s, e.n, e.lo, e.hi, e.y) ELSE {}
    [] o.k = "generic" -> IF e.nan = 0 THEN GenericSkip(o.p, o.s, e.n, e.x, e.lo, e.hi, e.y) ELSE {}
    [] o.k = "lp"    -> LhSkip(TRUE, o.c[1], o.c[2], o.s, e.n, e.x, e.lo, e.hi, e.nan, e.y)
    [] o.k = "hp"    -> LhSkip(FALSE, o.c[1], o.c[2], o.s, e.n, e.x, e.lo, e.hi, e.nan, e.y)
    [] o.k \in {"bp", "bpc"} -> BpSkip(o.c, o.s, e.n, e.x, e.lo, e.hi, e.nan, e.y)
    [] o.k = "env"   -> EnvSkip(o.p[1], o.p[2], o.s, e.n, e.x, e.lo, e.hi, e.nan, e.y)
    [] o.k = "adsr"  -> IF e.nan = 0 /\ e.x = S THEN AdsrSkip(o.p, o.s, e.n, e.lo, e.hi, e.y) ELSE {}
    [] o.k \in Players ->
         LET at(i) == TrackAt(o, i)
             len == TrackLen(o)
             b == Ahead(o.s, LoopIn(o), len, SourceRate(o), o.c[1], e.n - 1)
         IN  If(e.nan = 0 /\ IsNum(e.lo) /\ IsNum(e.hi) /\ ResamOutput(b, LoopIn(o), len, SourceRate(o), at, e.y),
                Ahead(b, LoopIn(o), len, SourceRate(o), o.c[1], 1))
    [] OTHER -> {}
Skip(i, e) == \E t \in Skips(objs[i], e) : objs' = [objs EXCEPT ![i].s = t]

(***************************************************************************)
(* Setters and getters                                                     *)
(***************************************************************************)
Changed(o, w, v) ==
  CASE w = "f" /\ o.k \in OscKinds -> [o EXCEPT !.c = <<v[1]>>, !.s = OscRetune(o.s, v[1])]
    [] w = "a" /\ o.k = "gain"     -> [o EXCEPT !.c = <<v[1]>>]
    [] w = "f" /\ o.k \in {"lp", "hp"} -> [o EXCEPT !.c = <<Min2(v[1], Nyquist), @[2]>>, !.s = LhChanged(o.s)]
    [] w = "r" /\ o.k \in {"lp", "hp"} -> [o EXCEPT !.c = <<@[1], Clamped01(v[1])>>, !.s = LhChanged(o.s)]
    [] w = "f" /\ o.k \in {"bp", "bpc"} -> [o EXCEPT !.c = FromCentre(Fine(v[1]), o.c[2]), !.s = LhChanged(o.s)]
    [] w = "q" /\ o.k \in {"bp", "bpc"} -> [o EXCEPT !.c = FromCentre(o.c[1], <<v[1], S>>), !.s = LhChanged(o.s)]
    [] w = "c" /\ o.k \in {"bp", "bpc"} -> [o EXCEPT !.c = FromCorners(Fine(v[1]), Fine(v[2])), !.s = LhChanged(o.s)]
    [] w = "s" /\ o.k \in Players  -> [o EXCEPT !.c = <<v[1]>>]
    [] w = "rel" /\ o.k = "adsr"   -> [o EXCEPT !.s = AdsrRelease(o.s)]
Set(i, w, v) == objs' = [objs EXCEPT ![i] = Changed(objs[i], w, v)]

Close(v, w) == Near(v, w, 1 + w \div 100000)
Reads(o, w, v) ==
  CASE w = "f" /\ o.k \in {"bp", "bpc"} -> Close(v[1], MilliHz(o.c[1]))
    [] w = "q" /\ o.k \in {"bp", "bpc"} -> Close(v[1], MulDivR(S, o.c[2][1], o.c[2][2]))
    [] w = "c" /\ o.k \in {"bp", "bpc"} -> v[1] <= v[2] /\ Close(v[1], MilliHz(o.c[3])) /\ Close(v[2], MilliHz(o.c[4]))
    [] w = "f" -> v[1] = o.c[1]
    [] w = "r" -> v[1] = o.c[2]
    [] w = "a" -> v[1] = o.c[1]
    [] w = "s" -> v[1] = o.c[1]
    [] w = "d" -> /\ v[1] = o.c[1] \div Rate \/ (v[1] + 1 = o.c[1] \div Rate /\ v[2] > 999999990)
                  /\ \/ Abs(v[2] - MulDivR(o.c[1] % Rate, 62500, 3)) <= 1
                     \/ v[2] > 999999990 /\ o.c[1] % Rate = 0

AddFormula(i, seed) == objs' = IF objs[i].k \in {"delay"} /\ objs[i].s.n = 0 THEN [objs EXCEPT ![i].s.form = seed] ELSE objs
=============================================================================
