------------------------------- MODULE MC_Text -------------------------------
(***************************************************************************)
(* The text decoding against the definition of UTF-8: a byte string is     *)
(* valid iff it splits into encodings of scalar values in shortest form.   *)
(* All strings up to length Len over the interesting bytes.                *)
(***************************************************************************)
EXTENDS Text, Integers
CONSTANT Max, BytesOf
VARIABLE s
Few  == {0, 32, 65, 127, 128, 159, 160, 191, 192, 194, 224, 226, 237, 240, 244, 245}
Many == Few \cup {9, 13, 143, 144, 193, 223, 225, 236, 238, 239, 241, 243, 133, 154, 255}
Alphabet == IF BytesOf = "few" THEN Few ELSE Many
Init == s = << >>
Next == Len(s) < Max /\ \E x \in Alphabet : s' = Append(s, x)

\* The encoding of a scalar value (Unicode, D92)
Enc(c) == IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Scalar(c) == c \in 0..1114111 /\ c \notin 55296..57343
\* The value a lead byte and its continuation bytes stand for
Dec(x) == CASE Len(x) = 1 -> x[1]
            [] Len(x) = 2 -> (x[1] % 32) * 64 + (x[2] % 64)
            [] Len(x) = 3 -> (x[1] % 16) * 4096 + (x[2] % 64) * 64 + (x[3] % 64)
            [] Len(x) = 4 -> (x[1] % 8) * 262144 + (x[2] % 64) * 4096 + (x[3] % 64) * 64 + (x[4] % 64)
IsEnc(x) == Scalar(Dec(x)) /\ Enc(Dec(x)) = x
RECURSIVE Valid(_)
Valid(x) == x = << >> \/ \E n \in 1..(IF Len(x) < 4 THEN Len(x) ELSE 4) :
              IsEnc(SubSeq(x, 1, n)) /\ Valid(SubSeq(x, n + 1, Len(x)))

Decodes == ValidUtf8(s) <=> Valid(s)
Roundtrip == ValidUtf8(s) => Concat(CharsFrom(s, 1)) = s
TrimOk == ValidUtf8(s) => /\ Trim(Trim(s)) = Trim(s)
                          /\ Len(Trim(s)) <= Len(s)
                          /\ Trim(s) # << >> => /\ ~IsSpace(Head(CharsFrom(Trim(s), 1)))
CutOk == /\ \A i \in 1..Len(CutNul(s)) : CutNul(s)[i] = s[i] /\ s[i] # 0
         /\ Len(CutNul(s)) < Len(s) => s[Len(CutNul(s)) + 1] = 0
FallbackOk == ~ValidUtf8(s) => FixedText(s, InvalidVendor) = InvalidVendor
=============================================================================
