-------------------------------- MODULE MC_Pcm --------------------------------
(* Every code of 8 and 16 bits, and those of 24 around steps of Stride: each   *)
(* is the only code its sample may become (at 24 bits, where one step is two  *)
(* of 32-bit floating point, one of three), and its bytes say the same.       *)
EXTENDS Pcm
CONSTANTS Stride
VARIABLES bits, c
Init == \/ bits = 8 /\ c = Lo(8)
        \/ bits = 16 /\ c = Lo(16)
        \/ bits = 24 /\ c = Lo(24)
Next == /\ \/ bits # 24 /\ c < Hi(bits) /\ c' = c + 1
           \/ bits = 24 /\ c < Hi(24) /\ c' = (IF c % Stride < 3 \/ c > Hi(24) - 3 THEN c + 1 ELSE Min2(Hi(24), c - (c % Stride) + Stride))
        /\ bits' = bits
Spec == Init /\ [][Next]_<<bits, c>>
Unique == /\ Nearest(bits, Dec(bits, c), c)
          /\ \A d \in {c - 2, c + 2} \cup (IF bits = 24 THEN {} ELSE {c - 1, c + 1}) : ~Nearest(bits, Dec(bits, c), d)
Wire == LET b == Bytes(bits, c) IN Len(b) = Width(bits) /\ CodeAt(b, 1, bits) = c /\ CodeAt(<<7>> \o b \o <<9>>, 2, bits) = c
Ends == /\ Dec(8, 128) = 0 /\ Dec(16, 0) = 0 /\ Dec(24, 0) = 0
        /\ Dec(16, 32767) = U29 /\ Dec(24, 8388607) = U29 /\ Dec(8, 0) = -U29
Increasing == [][Dec(bits', c') > Dec(bits, c)]_<<bits, c>>
=============================================================================
