------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* The blocks sounds are made of, as the conformance harness builds them:  *)
(* each is a deterministic machine whose output depends on its input and   *)
(* on how often it has run, so that running one twice, not at all, or on   *)
(* something else shows. Samples are in units of 1/4.                      *)
(*                                                                         *)
(* A block is a record [k, a, b]: a "gain" multiplies by a/4, a "raw" or   *)
(* "mod" block yields a*input + b*runs (mod 101), a "gen" block yields     *)
(* b*runs (mod 101) whatever its input.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Wrap == 404
BlockOut(blk, cnt, in) ==
  CASE blk.k = "gain" -> (in * blk.a) \div 4
    [] blk.k = "gen"  -> 4 * ((blk.b * cnt) % 101)
    [] OTHER          -> (blk.a * in + 4 * ((blk.b * cnt) % 101)) % Wrap
\* What the harness's own blocks record of a run.
Seen(blk, in) == IF blk.k = "gen" THEN 0 ELSE in
=============================================================================
