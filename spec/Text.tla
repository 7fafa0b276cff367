-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The text decoding the identification strings rely on: UTF-8 validity,   *)
(* cutting at NUL and trimming white space, over sequences of bytes.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Cont(b) == b \in 128..191

\* Length of the well formed UTF-8 sequence that starts at s[i], 0 if none
\* (Unicode standard, table 3-7).
Utf8Len(s, i) ==
  LET b == s[i]
      c(k) == IF i + k <= Len(s) THEN s[i + k] ELSE 0
  IN CASE b < 128 -> 1
       [] b \in 194..223 /\ Cont(c(1)) -> 2
       [] b = 224 /\ c(1) \in 160..191 /\ Cont(c(2)) -> 3
       [] b \in 225..236 /\ Cont(c(1)) /\ Cont(c(2)) -> 3
       [] b = 237 /\ c(1) \in 128..159 /\ Cont(c(2)) -> 3
       [] b \in 238..239 /\ Cont(c(1)) /\ Cont(c(2)) -> 3
       [] b = 240 /\ c(1) \in 144..191 /\ Cont(c(2)) /\ Cont(c(3)) -> 4
       [] b \in 241..243 /\ Cont(c(1)) /\ Cont(c(2)) /\ Cont(c(3)) -> 4
       [] b = 244 /\ c(1) \in 128..143 /\ Cont(c(2)) /\ Cont(c(3)) -> 4
       [] OTHER -> 0

RECURSIVE ValidFrom(_, _)
ValidFrom(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET n == Utf8Len(s, i) IN n > 0 /\ ValidFrom(s, i + n)
ValidUtf8(s) == ValidFrom(s, 1)

\* The characters of a valid string, each as the sequence of its bytes
RECURSIVE CharsFrom(_, _)
CharsFrom(s, i) ==
  IF i > Len(s) THEN << >>
  ELSE LET n == Utf8Len(s, i)
       IN  << SubSeq(s, i, i + n - 1) >> \o CharsFrom(s, i + n)

\* Unicode White_Space
IsSpace(ch) ==
  \/ Len(ch) = 1 /\ (ch[1] \in 9..13 \/ ch[1] = 32)
  \/ Len(ch) = 2 /\ ch[1] = 194 /\ ch[2] \in {133, 160}          \* 0085 00A0
  \/ Len(ch) = 3 /\ \/ ch = <<225, 154, 128>>                    \* 1680
                    \/ /\ ch[1] = 226 /\ ch[2] = 128
                       /\ ch[3] \in (128..138) \cup {168, 169, 175}
                                                     \* 2000-200A 2028 2029 202F
                    \/ ch = <<226, 129, 159>>                    \* 205F
                    \/ ch = <<227, 128, 128>>                    \* 3000

RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))

RECURSIVE TrimL(_)
TrimL(cs) == IF cs # << >> /\ IsSpace(Head(cs)) THEN TrimL(Tail(cs)) ELSE cs
RECURSIVE TrimR(_)
TrimR(cs) == IF cs # << >> /\ IsSpace(cs[Len(cs)])
             THEN TrimR(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs

Trim(s) == Concat(TrimR(TrimL(CharsFrom(s, 1))))

RECURSIVE CutNul(_)
CutNul(s) == IF s = << >> \/ Head(s) = 0 THEN << >>
             ELSE << Head(s) >> \o CutNul(Tail(s))

\* "InvalidVendorString", "InvalidSoCVendorString" and
\* "Invalid Processor Brand String" as bytes
InvalidVendor == <<73, 110, 118, 97, 108, 105, 100, 86, 101, 110, 100, 111,
                   114, 83, 116, 114, 105, 110, 103>>
InvalidSoC    == <<73, 110, 118, 97, 108, 105, 100, 83, 111, 67, 86, 101, 110,
                   100, 111, 114, 83, 116, 114, 105, 110, 103>>
InvalidBrand  == <<73, 110, 118, 97, 108, 105, 100, 32, 80, 114, 111, 99, 101,
                   115, 115, 111, 114, 32, 66, 114, 97, 110, 100, 32, 83, 116,
                   114, 105, 110, 103>>

\* The fixed-length strings (vendor, SoC brand) are reported as they are, the
\* processor brand string ends at the first NUL and is trimmed.
FixedText(bytes, fallback) == IF ValidUtf8(bytes) THEN bytes ELSE fallback
BrandText(bytes) == LET s == CutNul(bytes)
                    IN  IF ValidUtf8(s) THEN Trim(s) ELSE InvalidBrand

\* Observed strings carry their length in front
Str(s) == << Len(s) >> \o s
=============================================================================
