------------------------------ MODULE MC_Listing ------------------------------
(* A program that appends one number after the other and wraps lines before   *)
(* the number that makes them too wide: all its output is accepted, and no     *)
(* output of it with a character of the table changed or left out is, unless   *)
(* the same bytes are listed. Something may stop it at any point, which it      *)
(* must report: success belongs to complete tables.                             *)
EXTENDS Listing, TLC
CONSTANTS Values, MaxLen, Wide
VARIABLES line, out, pos, done, stopped
vars == <<lvars, line, out, pos, done, stopped>>
Digits(v) == IF v < 10 THEN <<48 + v>> ELSE IF v < 100 THEN <<48 + v \div 10, 48 + (v % 10)>>
             ELSE <<48 + v \div 100, 48 + ((v \div 10) % 10), 48 + (v % 10)>>
Itself(f) == f
Init == /\ file \in UNION {[1 .. n -> Values] : n \in 0 .. MaxLen}
        /\ snag \in {"none", "room"}
        /\ phase = "table" /\ listed = 0 /\ comma = TRUE /\ line = <<>> /\ out = <<>> /\ pos = 0 /\ done = FALSE /\ stopped = FALSE
Put == /\ pos < Len(bytes) /\ ~stopped
       /\ LET t == Digits(bytes[pos + 1]) \o (IF pos + 1 < Len(bytes) THEN <<44, 32>> ELSE <<>>) IN
          IF Len(line) + Len(t) > Wide THEN Line(line) /\ out' = Append(out, line) /\ line' = t
          ELSE line' = line \o t /\ UNCHANGED <<out, lvars>>
       /\ pos' = pos + 1 /\ UNCHANGED <<done, stopped>>
Finish == pos = Len(bytes) /\ ~done /\ ~stopped /\ done' = TRUE /\ Line(line \o <<Close>>) /\ out' = Append(out, line) /\ UNCHANGED <<line, pos, stopped>>
Stop == snag = "room" /\ ~done /\ ~stopped /\ stopped' = TRUE /\ UNCHANGED <<lvars, line, out, pos, done>>
Next == Put \/ Finish \/ Stop
Spec == Init /\ [][Next]_vars
Accepts(c) == LET r == Scan(c, 1, 0, TRUE) IN r.ok /\ r.closed
RECURSIVE Joined(_)
Joined(o) == IF o = <<>> THEN <<Close>> ELSE o[1] \o <<32>> \o Joined(Tail(o))
Drop(c, k) == SubSeq(c, 1, k - 1) \o SubSeq(c, k + 1, Len(c))
Progress == (done => phase = "tail" /\ listed = Len(bytes)) /\ (~done => listed <= pos)
Live == ~done /\ ~stopped => ENABLED Next
Honest == (ENABLED End(0) <=> done) /\ (stopped => ENABLED End(1)) /\ (snag = "none" => ~ENABLED End(1))
Exact == done => LET c == Joined(out) IN
  /\ Accepts(c)
  /\ \A k \in 1 .. Len(c) : ~Blank(c[k]) => ~Accepts(Drop(c, k))
  /\ \A k \in 1 .. Len(c) : Digit(c[k]) => \A d \in 48 .. 57 : d # c[k] => ~Accepts([c EXCEPT ![k] = d])
=============================================================================
