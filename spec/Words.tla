------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* 32-bit register words and the numbers decoded from them.                *)
(*                                                                         *)
(* TLC's integers are 32 bit signed, so a register is a pair of 16-bit     *)
(* limbs <<lo, hi>> and every number that leaves the model is a little     *)
(* endian sequence of 16-bit limbs without trailing zero limbs (but with   *)
(* at least one limb).  This makes an observed value independent of the    *)
(* width of the integer type the implementation uses for it.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

P2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
         16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152,
         4194304, 8388608, 16777216, 33554432, 67108864, 134217728,
         268435456, 536870912, 1073741824 >>
Pow2(n) == P2[n + 1]

Word(w) == w \in (0..65535) \X (0..65535)
ZeroW   == <<0, 0>>

WLeq(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] <= b[1])
WLt(a, b)  == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] <  b[1])

\* Bit i of a word as 0 or 1
BitAt(w, i) == IF i < 16 THEN (w[1] \div Pow2(i)) % 2
                         ELSE (w[2] \div Pow2(i - 16)) % 2
IsSet(w, i) == BitAt(w, i) = 1

\* Bits lo..hi (inclusive) of a word as an integer, hi - lo < 30
Bits(w, lo, hi) ==
  IF hi < 16 THEN (w[1] \div Pow2(lo)) % Pow2(hi - lo + 1)
  ELSE IF lo >= 16 THEN (w[2] \div Pow2(lo - 16)) % Pow2(hi - lo + 1)
  ELSE (w[1] \div Pow2(lo)) + (w[2] % Pow2(hi - 15)) * Pow2(16 - lo)

\* The four bytes of a word, least significant first
Bytes(w) == << w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256 >>

RECURSIVE Norm(_)
Norm(s) == IF Len(s) > 1 /\ s[Len(s)] = 0
           THEN Norm(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* An integer below 2^31 / a whole word / a word plus one, as an observed number
Num(n)   == IF n < 65536 THEN <<n>> ELSE << n % 65536, n \div 65536 >>
WNum(w)  == IF w[2] = 0 THEN <<w[1]>> ELSE w
WNum1(w) == IF w[1] < 65535 THEN WNum(<<w[1] + 1, w[2]>>)
            ELSE IF w[2] < 65535 THEN <<0, w[2] + 1>> ELSE <<0, 0, 1>>
Flag(b)  == IF b THEN <<1>> ELSE <<0>>

----------------------------------------------------------------------------
(* 32 x 32 -> 64 bit product and 64 / 32 -> 64 bit quotient (TSC formula)  *)

\* Propagates carries through a sequence of base 256 columns
RECURSIVE Carry(_, _, _)
Carry(cols, i, c) ==
  IF i > Len(cols) THEN << >>
  ELSE LET t == cols[i] + c IN << t % 256 >> \o Carry(cols, i + 1, t \div 256)

RECURSIVE SumProd(_, _, _, _)
SumProd(x, y, k, i) ==      \* sum of x[i] * y[j] with i + j = k + 1
  IF i > 4 THEN 0
  ELSE (IF k + 1 - i \in 1..4 THEN x[i] * y[k + 1 - i] ELSE 0)
       + SumProd(x, y, k, i + 1)

MulBytes(a, b) ==           \* 8 bytes, least significant first
  LET x == Bytes(a)  y == Bytes(b)
  IN  Carry([k \in 1..8 |-> SumProd(x, y, k, 1)], 1, 0)

\* Schoolbook binary long division.  r is the running remainder <<lo, hi>>
\* (hi may temporarily have 17 bits), q the quotient bits found so far.
RECURSIVE DivBits(_, _, _, _, _)
DivBits(bytes, d, i, r, q) ==
  IF i < 0 THEN q
  ELSE LET bit == (bytes[(i \div 8) + 1] \div Pow2(i % 8)) % 2
           l2  == r[1] * 2 + bit
           r2  == << l2 % 65536, r[2] * 2 + l2 \div 65536 >>
           ge  == WLeq(d, r2)
           r3  == IF ~ge THEN r2
                  ELSE IF r2[1] >= d[1] THEN << r2[1] - d[1], r2[2] - d[2] >>
                  ELSE << r2[1] + 65536 - d[1], r2[2] - d[2] - 1 >>
       IN  DivBits(bytes, d, i - 1, r3,
                   [q EXCEPT ![(i \div 16) + 1] = @ * 2 + (IF ge THEN 1 ELSE 0)])

\* floor(a * b / d) as a number, d # 0
MulDiv(a, b, d) == Norm(DivBits(MulBytes(a, b), d, 63, ZeroW, <<0, 0, 0, 0>>))
=============================================================================
