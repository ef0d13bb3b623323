---------------------------------- MODULE Pcm ----------------------------------
(***************************************************************************)
(* PCM codes of 8 (unsigned), 16 and 24 bits: the samples they stand for,  *)
(* the codes a sample may become, and their little-endian bytes. Samples   *)
(* are in units of 2^-29 here, in which full scale still fits.             *)
(***************************************************************************)
EXTENDS FixedPoint
U29 == 536870912
Depths == {8, 16, 24}
Lo(bits) == CASE bits = 8 -> 0 [] bits = 16 -> -32768 [] OTHER -> -8388608
Hi(bits) == CASE bits = 8 -> 255 [] bits = 16 -> 32767 [] OTHER -> 8388607
Dec(bits, c) == CASE bits = 8  -> (c - 128) * 4194304
                  [] bits = 16 -> MulDivR(c, U29, 32767)
                  [] OTHER     -> MulDivR(c, U29, 8388607)
\* One step between codes, and how precisely samples of 32 bits show.
Step(bits) == CASE bits = 8 -> 4194304 [] bits = 16 -> 16385 [] OTHER -> 64
DecTol == 40
IsDec(bits, c, s) == Near(s, Dec(bits, c), DecTol)
(* The code nearest to a sample of magnitude up to 1, give or take the     *)
(* rounding of 32-bit floating point.                                      *)
Nearest(bits, s, c) ==
  /\ c >= Lo(bits) /\ c <= Hi(bits)
  /\ Near(Dec(bits, c), Clamp(s, Dec(bits, Lo(bits)), Dec(bits, Hi(bits))),
          CASE bits = 8 -> 2097152 + 32768 [] bits = 16 -> 8193 + 128 [] OTHER -> 52)

Width(bits) == bits \div 8
Byte(n, k) == CASE k = 1 -> n % 256 [] k = 2 -> (n \div 256) % 256 [] k = 3 -> (n \div 65536) % 256 [] OTHER -> (n \div 16777216) % 256
Bytes(bits, c) == [k \in 1 .. Width(bits) |-> Byte(c, k)]
\* The unsigned number in w bytes of b from position at; 4 bytes up to 2^30.
LE(b, at, w) == b[at] + (IF w > 1 THEN 256 * b[at + 1] ELSE 0) + (IF w > 2 THEN 65536 * b[at + 2] ELSE 0)
                + (IF w > 3 THEN (IF b[at + 3] > 63 THEN 1073741824 ELSE 16777216 * b[at + 3]) ELSE 0)
Signed(n, bits) == IF bits # 8 /\ n > Hi(bits) THEN n + 2 * Lo(bits) ELSE n
CodeAt(b, at, bits) == Signed(LE(b, at, Width(bits)), bits)
=============================================================================
