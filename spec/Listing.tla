-------------------------------- MODULE Listing --------------------------------
(***************************************************************************)
(* The table of a file's bytes that bin2str writes, read line by line      *)
(* (as character codes): after the line that opens it with "[", numbers in *)
(* decimal separated by commas, up to "]".                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Content(_)  \* the bytes of a file
VARIABLES
  file,   \* the file: whatever Content takes
  phase,  \* "head", "table" or "tail"
  listed, \* how many bytes are listed
  comma,  \* whether the last thing in the table was a comma
  snag    \* what is in the program's way: "none", "missing" (no file to list), "nowhere" (the table can't be written), "room" (not all of it can)
lvars == <<file, phase, listed, comma, snag>>
Width == 100
Digit(c) == 48 <= c /\ c <= 57
Blank(c) == c = 32 \/ c = 9 \/ c = 13
Open == 91
Close == 93
bytes == Content(file)
ListInit(f) == file = f /\ phase = "head" /\ listed = 0 /\ comma = TRUE /\ snag = "none"
Begin(f, s) == file' = f /\ phase' = "head" /\ listed' = 0 /\ comma' = TRUE /\ snag' = s
\* With this much room for the table, its length isn't an excuse.
Ample(f, room) == room >= 6 * Len(Content(f)) + 1000

\* Nothing of a table, after its end.
Rest(c, i) == \A j \in i .. Len(c) : ~Digit(c[j]) /\ c[j] \notin {Open, Close}

\* Reads characters of the table from i on: [ok, n (bytes listed), comma, closed]. comma is TRUE where a number may stand.
RECURSIVE Scan(_, _, _, _), Number(_, _, _)
Number(c, i, v) == IF i <= Len(c) /\ Digit(c[i]) /\ v < 1000 THEN Number(c, i + 1, 10 * v + c[i] - 48) ELSE <<i, v>>
Scan(c, i, n, cm) ==
  IF i > Len(c) THEN [ok |-> TRUE, n |-> n, comma |-> cm, closed |-> FALSE]
  ELSE IF Blank(c[i]) THEN Scan(c, i + 1, n, cm)
  ELSE IF Digit(c[i]) THEN
    LET r == Number(c, i, 0) IN
    IF cm /\ n < Len(bytes) /\ r[2] = bytes[n + 1] /\ (r[1] - i = 1 \/ c[i] # 48) THEN Scan(c, r[1], n + 1, FALSE)
    ELSE [ok |-> FALSE, n |-> n, comma |-> cm, closed |-> FALSE]
  ELSE IF c[i] = 44 /\ ~cm THEN Scan(c, i + 1, n, TRUE)
  ELSE IF c[i] = Close /\ n = Len(bytes) /\ (~cm \/ n = 0) /\ Rest(c, i + 1) THEN [ok |-> TRUE, n |-> n, comma |-> cm, closed |-> TRUE]
  ELSE [ok |-> FALSE, n |-> n, comma |-> cm, closed |-> FALSE]

Opens(c) == \E i \in 1 .. Len(c) : c[i] = Open /\ \A j \in i + 1 .. Len(c) : Blank(c[j])
Line(c) ==
  /\ Len(c) <= Width
  /\ UNCHANGED <<file, snag>>
  /\ CASE phase = "head" -> phase' = (IF Opens(c) THEN "table" ELSE "head") /\ UNCHANGED <<listed, comma>>
       [] phase = "table" -> LET r == Scan(c, 1, listed, comma) IN
                             /\ r.ok /\ listed' = r.n /\ comma' = r.comma
                             /\ phase' = IF r.closed THEN "tail" ELSE "table"
       [] OTHER -> Rest(c, 1) /\ UNCHANGED <<phase, listed, comma>>
\* The program is done. It reports success if the table is complete, and only then; only something in its way is a reason to fail.
End(rc) == /\ (snag = "none" => rc = 0)
           /\ (rc = 0 => phase = "tail" /\ snag \in {"none", "room"})
           /\ UNCHANGED lvars
=============================================================================
