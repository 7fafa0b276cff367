------------------------------ MODULE MC_Arith -------------------------------
(***************************************************************************)
(* The model's 64-bit arithmetic: q = MulDiv(a, b, d) satisfies            *)
(* q * d <= a * b < (q + 1) * d, for small numbers by TLC's own integers   *)
(* and for words at the edges of 16 and 32 bits by an independent sum.     *)
(***************************************************************************)
EXTENDS Words, Integers
CONSTANTS Edge, Small
VARIABLES a, b, d, kind
vars == <<a, b, d, kind>>
EdgeWords == {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>>, <<65535, 0>>, <<0, 1>>, <<1, 1>>,
              <<65535, 32767>>, <<0, 32768>>, <<1, 32768>>, <<65534, 65535>>, <<65535, 65535>>,
              <<13824, 366>>, <<61440, 585>>, <<12345, 54321>>}

Init == /\ b = ZeroW /\ d = ZeroW
        /\ \/ kind = "small0" /\ a \in 0..Small
           \/ kind = "edge0" /\ Edge /\ a \in EdgeWords
Next == /\ a' = a
        /\ \/ (kind = "small0" /\ kind' = "small" /\ b' \in 0..Small /\ d' \in 1..Small)
           \/ kind = "edge0" /\ kind' = "edge" /\ b' \in EdgeWords /\ d' \in EdgeWords \ {ZeroW}

W(n) == << n % 65536, n \div 65536 >>
SmallOk == kind = "small" => MulDiv(W(a), W(b), W(d)) = Num((a * b) \div d)

\* An independent product: schoolbook over 8-bit digits of numbers of any length
Digits(n) == LET RECURSIVE g(_) g(s) == IF s = << >> THEN << >>
                   ELSE << Head(s) % 256, Head(s) \div 256 >> \o g(Tail(s))
             IN g(n)
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
RECURSIVE Sum(_, _, _, _)
Sum(x, y, k, i) == IF i > k THEN 0 ELSE At(x, i) * At(y, k + 1 - i) + Sum(x, y, k, i + 1)
RECURSIVE Norm8(_, _, _)
Norm8(c, i, carry) == IF i > 16 THEN << >>
                      ELSE LET s == c[i] + carry IN << s % 256 >> \o Norm8(c, i + 1, s \div 256)
Prod(x, y) == Norm8([k \in 1..16 |-> Sum(x, y, k, 1)], 1, 0)
RECURSIVE Leq(_, _, _)
Leq(x, y, i) == IF i = 0 THEN TRUE ELSE x[i] < y[i] \/ (x[i] = y[i] /\ Leq(x, y, i - 1))
Plus(x, y) == Norm8([k \in 1..16 |-> At(x, k) + At(y, k)], 1, 0)
EdgeOk == kind = "edge" =>
  LET q == Digits(MulDiv(a, b, d))
      ab == Prod(Digits(a), Digits(b))
      qd == Prod(q, Digits(d))
  IN  Leq(qd, ab, 16) /\ ~Leq(Plus(qd, Digits(d)), ab, 16)
=============================================================================
