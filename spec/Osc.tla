--------------------------------- MODULE Osc ---------------------------------
(***************************************************************************)
(* Oscillators: a phase that starts at 0 and advances by the frequency     *)
(* each sample, and a waveform over it. Phases and frequencies are in mHz  *)
(* at 48 kHz, so that a full turn is Turn and every advance is exact.      *)
(***************************************************************************)
EXTENDS FixedPoint

Turn == 48000000
HalfTurn == Turn \div 2
OscKinds == {"sine", "saw", "square", "tri"}

\* Multiples of 1/8 Hz that divide the half turn: where its edges fall on samples.
OnSamples(f) == f > 0 /\ f % 125 = 0 /\ HalfTurn % f = 0
OscStart(f) == [ph |-> 0, fresh |-> TRUE, exact |-> OnSamples(f)]
OscAdvance(s, f, n) == [s EXCEPT !.ph = (@ + MulMod(n, f, Turn)) % Turn, !.fresh = FALSE]
OscRetune(s, f) == [s EXCEPT !.exact = s.fresh /\ OnSamples(f)]

Wave(k, ph) ==
  CASE k = "sine" -> MulDivR(SinTurn(ph, Turn), 1, 16)
    [] k = "saw"  -> MulDivR(ph, 2 * S, Turn) - (IF ph >= HalfTurn THEN 2 * S ELSE 0)
    [] k = "tri"  -> IF 4 * ph <= Turn THEN MulDivR(ph, 4 * S, Turn)
                     ELSE IF 4 * ph <= 3 * Turn THEN MulDivR(HalfTurn - ph, 4 * S, Turn)
                     ELSE MulDivR(ph - Turn, 4 * S, Turn)
    [] OTHER      -> IF ph < HalfTurn THEN S ELSE -S

\* At a jump of the waveform either side of it may be what rounding leaves, but where the phase is exact.
OscOutput(k, s, y) ==
  LET v == Wave(k, s.ph) IN
  /\ IsNum(y) /\ -S <= y /\ y <= S
  /\ CASE k = "square" -> \/ y = v
                          \/ y = -v /\ ~s.exact /\ ~s.fresh /\ s.ph \in {0, HalfTurn}
       [] k = "saw"    -> Abs(y - v) <= 3 \/ Abs(y - v) >= 2 * S - 3
       [] k = "sine"   -> Abs(y - v) <= 10
       [] OTHER        -> Abs(y - v) <= 3
=============================================================================
