------------------------------- MODULE Texts --------------------------------
(***************************************************************************)
(* The texts a user sees for enumerated values and descriptor bytes.       *)
(* Strings are only ever built and compared.  A character outside ASCII is *)
(* written {uX} in what the recorder hands over, and here.               *)
(***************************************************************************)
EXTENDS Decode

AssocText(v) == CASE v[1] = 0 -> "Disabled"
                  [] v[1] = 1 -> "Direct mapped"
                  [] v[1] = 2 -> "NWay(" \o ToString(v[2]) \o ")"
                  [] v[1] = 3 -> "Fully associative"
                  [] v[1] = 4 -> "Unknown (check leaf 0x8000_001d)"
CacheTypeText(v) == << "Null", "Data", "Instruction", "Unified", "Reserved" >>[v[1] + 1]
TopologyText(v) == << "Invalid", "SMT", "Core", "Module", "Tile", "Die", "Unknown" >>[v[1] + 1]
HierarchyText(v) == CASE v[1] = 0 -> "Reserved (0)"
                      [] v[1] = 1 -> "Core (1)"
                      [] v[1] = 2 -> "Complex (2)"
                      [] v[1] = 3 -> "DIE (3)"
                      [] v[1] = 4 -> "Socket (4)"
                      [] v[1] = 5 -> "Unknown (" \o ToString(v[2]) \o ")"
RegisterText(v) == IF v[1] = 9 THEN "Unknown(" \o ToString(v[2]) \o ")"
                   ELSE << "AVX/YMM", "MPX BNDREGS", "MPX BNDCSR", "AVX-512 opmask",
                           "AVX-512 ZMM_Hi256", "AVX-512 Hi16_ZMM", "PT", "PKRU",
                           "HDC" >>[v[1] + 1]
LocationText(v) == << "XCR0 (user state)", "IA32_XSS (supervisor state)" >>[v[1] + 1]
DatText(v) == << "invalid (0)", "Data TLB", "Instruction TLB", "Unified TLB",
                 "Load Only", "Store Only", "Unknown" >>[v[1] + 1]
DescTypeText(t) == << "N/A", "Cache", "TLB", "STLB", "DTLB", "Prefetcher" >>[t + 1]

\* What descriptor bytes mean (Intel SDM vol. 2A, table 3-12)
DescText ==
  (1 :> "Instruction TLB: 4 KByte pages, 4-way set associative, 32 entries") @@
  (2 :> "Instruction TLB: 4 MByte pages, fully associative, 2 entries") @@
  (3 :> "Data TLB: 4 KByte pages, 4-way set associative, 64 entries") @@
  (4 :> "Data TLB: 4 MByte pages, 4-way set associative, 8 entries") @@
  (5 :> "Data TLB1: 4 MByte pages, 4-way set associative, 32 entries") @@
  (6 :> "1st-level instruction cache: 8 KBytes, 4-way set associative, 32 byte line size") @@
  (8 :> "1st-level instruction cache: 16 KBytes, 4-way set associative, 32 byte line size") @@
  (9 :> "1st-level instruction cache: 32KBytes, 4-way set associative, 64 byte line size") @@
  (10 :> "1st-level data cache: 8 KBytes, 2-way set associative, 32 byte line size") @@
  (11 :> "Instruction TLB: 4 MByte pages, 4-way set associative, 4 entries") @@
  (12 :> "1st-level data cache: 16 KBytes, 4-way set associative, 32 byte line size") @@
  (13 :> "1st-level data cache: 16 KBytes, 4-way set associative, 64 byte line size") @@
  (14 :> "1st-level data cache: 24 KBytes, 6-way set associative, 64 byte line size") @@
  (29 :> "2nd-level cache: 128 KBytes, 2-way set associative, 64 byte line size") @@
  (33 :> "2nd-level cache: 256 KBytes, 8-way set associative, 64 byte line size") @@
  (34 :> "3rd-level cache: 512 KBytes, 4-way set associative, 64 byte line size, 2 lines per sector") @@
  (35 :> "3rd-level cache: 1 MBytes, 8-way set associative, 64 byte line size, 2 lines per sector") @@
  (36 :> "2nd-level cache: 1 MBytes, 16-way set associative, 64 byte line size") @@
  (37 :> "3rd-level cache: 2 MBytes, 8-way set associative, 64 byte line size, 2 lines per sector") @@
  (41 :> "3rd-level cache: 4 MBytes, 8-way set associative, 64 byte line size, 2 lines per sector") @@
  (44 :> "1st-level data cache: 32 KBytes, 8-way set associative, 64 byte line size") @@
  (48 :> "1st-level instruction cache: 32 KBytes, 8-way set associative, 64 byte line size") @@
  (64 :> "No 2nd-level cache or, if processor contains a valid 2nd-level cache, no 3rd-level cache") @@
  (65 :> "2nd-level cache: 128 KBytes, 4-way set associative, 32 byte line size") @@
  (66 :> "2nd-level cache: 256 KBytes, 4-way set associative, 32 byte line size") @@
  (67 :> "2nd-level cache: 512 KBytes, 4-way set associative, 32 byte line size") @@
  (68 :> "2nd-level cache: 1 MByte, 4-way set associative, 32 byte line size") @@
  (69 :> "2nd-level cache: 2 MByte, 4-way set associative, 32 byte line size") @@
  (70 :> "3rd-level cache: 4 MByte, 4-way set associative, 64 byte line size") @@
  (71 :> "3rd-level cache: 8 MByte, 8-way set associative, 64 byte line size") @@
  (72 :> "2nd-level cache: 3MByte, 12-way set associative, 64 byte line size") @@
  (73 :> "3rd-level cache: 4MB, 16-way set associative, 64-byte line size (Intel Xeon processor MP, Family 0FH, Model 06H); 2nd-level cache: 4 MByte, 16-way set ssociative, 64 byte line size") @@
  (74 :> "3rd-level cache: 6MByte, 12-way set associative, 64 byte line size") @@
  (75 :> "3rd-level cache: 8MByte, 16-way set associative, 64 byte line size") @@
  (76 :> "3rd-level cache: 12MByte, 12-way set associative, 64 byte line size") @@
  (77 :> "3rd-level cache: 16MByte, 16-way set associative, 64 byte line size") @@
  (78 :> "2nd-level cache: 6MByte, 24-way set associative, 64 byte line size") @@
  (79 :> "Instruction TLB: 4 KByte pages, 32 entries") @@
  (80 :> "Instruction TLB: 4 KByte and 2-MByte or 4-MByte pages, 64 entries") @@
  (81 :> "Instruction TLB: 4 KByte and 2-MByte or 4-MByte pages, 128 entries") @@
  (82 :> "Instruction TLB: 4 KByte and 2-MByte or 4-MByte pages, 256 entries") @@
  (85 :> "Instruction TLB: 2-MByte or 4-MByte pages, fully associative, 7 entries") @@
  (86 :> "Data TLB0: 4 MByte pages, 4-way set associative, 16 entries") @@
  (87 :> "Data TLB0: 4 KByte pages, 4-way associative, 16 entries") @@
  (89 :> "Data TLB0: 4 KByte pages, fully associative, 16 entries") @@
  (90 :> "Data TLB0: 2-MByte or 4 MByte pages, 4-way set associative, 32 entries") @@
  (91 :> "Data TLB: 4 KByte and 4 MByte pages, 64 entries") @@
  (92 :> "Data TLB: 4 KByte and 4 MByte pages,128 entries") @@
  (93 :> "Data TLB: 4 KByte and 4 MByte pages,256 entries") @@
  (96 :> "1st-level data cache: 16 KByte, 8-way set associative, 64 byte line size") @@
  (97 :> "Instruction TLB: 4 KByte pages, fully associative, 48 entries") @@
  (99 :> "Data TLB: 2 MByte or 4 MByte pages, 4-way set associative, 32 entries and a separate array with 1 GByte pages, 4-way set associative, 4 entries") @@
  (100 :> "Data TLB: 4 KByte pages, 4-way set associative, 512 entries") @@
  (102 :> "1st-level data cache: 8 KByte, 4-way set associative, 64 byte line size") @@
  (103 :> "1st-level data cache: 16 KByte, 4-way set associative, 64 byte line size") @@
  (104 :> "1st-level data cache: 32 KByte, 4-way set associative, 64 byte line size") @@
  (106 :> "uTLB: 4 KByte pages, 8-way set associative, 64 entries") @@
  (107 :> "DTLB: 4 KByte pages, 8-way set associative, 256 entries") @@
  (108 :> "DTLB: 2M/4M pages, 8-way set associative, 128 entries") @@
  (109 :> "DTLB: 1 GByte pages, fully associative, 16 entries") @@
  (112 :> "Trace cache: 12 K-{u3bc}op, 8-way set associative") @@
  (113 :> "Trace cache: 16 K-{u3bc}op, 8-way set associative") @@
  (114 :> "Trace cache: 32 K-{u3bc}op, 8-way set associative") @@
  (118 :> "Instruction TLB: 2M/4M pages, fully associative, 8 entries") @@
  (120 :> "2nd-level cache: 1 MByte, 4-way set associative, 64byte line size") @@
  (121 :> "2nd-level cache: 128 KByte, 8-way set associative, 64 byte line size, 2 lines per sector") @@
  (122 :> "2nd-level cache: 256 KByte, 8-way set associative, 64 byte line size, 2 lines per sector") @@
  (123 :> "2nd-level cache: 512 KByte, 8-way set associative, 64 byte line size, 2 lines per sector") @@
  (124 :> "2nd-level cache: 1 MByte, 8-way set associative, 64 byte line size, 2 lines per sector") @@
  (125 :> "2nd-level cache: 2 MByte, 8-way set associative, 64byte line size") @@
  (127 :> "2nd-level cache: 512 KByte, 2-way set associative, 64-byte line size") @@
  (128 :> "2nd-level cache: 512 KByte, 8-way set associative, 64-byte line size") @@
  (130 :> "2nd-level cache: 256 KByte, 8-way set associative, 32 byte line size") @@
  (131 :> "2nd-level cache: 512 KByte, 8-way set associative, 32 byte line size") @@
  (132 :> "2nd-level cache: 1 MByte, 8-way set associative, 32 byte line size") @@
  (133 :> "2nd-level cache: 2 MByte, 8-way set associative, 32 byte line size") @@
  (134 :> "2nd-level cache: 512 KByte, 4-way set associative, 64 byte line size") @@
  (135 :> "2nd-level cache: 1 MByte, 8-way set associative, 64 byte line size") @@
  (160 :> "DTLB: 4k pages, fully associative, 32 entries") @@
  (176 :> "Instruction TLB: 4 KByte pages, 4-way set associative, 128 entries") @@
  (177 :> "Instruction TLB: 2M pages, 4-way, 8 entries or 4M pages, 4-way, 4 entries") @@
  (178 :> "Instruction TLB: 4KByte pages, 4-way set associative, 64 entries") @@
  (179 :> "Data TLB: 4 KByte pages, 4-way set associative, 128 entries") @@
  (180 :> "Data TLB1: 4 KByte pages, 4-way associative, 256 entries") @@
  (181 :> "Instruction TLB: 4KByte pages, 8-way set associative, 64 entries") @@
  (182 :> "Instruction TLB: 4KByte pages, 8-way set associative, 128 entries") @@
  (186 :> "Data TLB1: 4 KByte pages, 4-way associative, 64 entries") @@
  (192 :> "Data TLB: 4 KByte and 4 MByte pages, 4-way associative, 8 entries") @@
  (193 :> "Shared 2nd-Level TLB: 4 KByte/2MByte pages, 8-way associative, 1024 entries") @@
  (194 :> "DTLB: 2 MByte/$MByte pages, 4-way associative, 16 entries") @@
  (195 :> "Shared 2nd-Level TLB: 4 KByte /2 MByte pages, 6-way associative, 1536 entries. Also 1GBbyte pages, 4-way, 16 entries.") @@
  (196 :> "DTLB: 2M/4M Byte pages, 4-way associative, 32 entries") @@
  (202 :> "Shared 2nd-Level TLB: 4 KByte pages, 4-way associative, 512 entries") @@
  (208 :> "3rd-level cache: 512 KByte, 4-way set associative, 64 byte line size") @@
  (209 :> "3rd-level cache: 1 MByte, 4-way set associative, 64 byte line size") @@
  (210 :> "3rd-level cache: 2 MByte, 4-way set associative, 64 byte line size") @@
  (214 :> "3rd-level cache: 1 MByte, 8-way set associative, 64 byte line size") @@
  (215 :> "3rd-level cache: 2 MByte, 8-way set associative, 64 byte line size") @@
  (216 :> "3rd-level cache: 4 MByte, 8-way set associative, 64 byte line size") @@
  (220 :> "3rd-level cache: 1.5 MByte, 12-way set associative, 64 byte line size") @@
  (221 :> "3rd-level cache: 3 MByte, 12-way set associative, 64 byte line size") @@
  (222 :> "3rd-level cache: 6 MByte, 12-way set associative, 64 byte line size") @@
  (226 :> "3rd-level cache: 2 MByte, 16-way set associative, 64 byte line size") @@
  (227 :> "3rd-level cache: 4 MByte, 16-way set associative, 64 byte line size") @@
  (228 :> "3rd-level cache: 8 MByte, 16-way set associative, 64 byte line size") @@
  (234 :> "3rd-level cache: 12MByte, 24-way set associative, 64 byte line size") @@
  (235 :> "3rd-level cache: 18MByte, 24-way set associative, 64 byte line size") @@
  (236 :> "3rd-level cache: 24MByte, 24-way set associative, 64 byte line size") @@
  (240 :> "64-Byte prefetching") @@
  (241 :> "128-Byte prefetching") @@
  (254 :> "CPUID leaf 2 does not report TLB descriptor information; use CPUID leaf 18H to query TLB and other address translation parameters.") @@
  (255 :> "CPUID leaf 2 does not report cache descriptor information, use CPUID leaf 4 to query cache parameters")

----------------------------------------------------------------------------
(* Numbers as text                                                         *)

\* Quotient and remainder of a number and a small divisor, most significant
\* limb first
RECURSIVE DivSmall(_, _, _, _, _)
DivSmall(s, d, i, r, q) ==
  IF i = 0 THEN [q |-> q, r |-> r]
  ELSE LET t == r * 65536 + s[i]
       IN  DivSmall(s, d, i - 1, t % d, << t \div d >> \o q)

RECURSIVE Decimal(_)
Decimal(s) ==
  IF Len(s) = 1 THEN ToString(s[1])
  ELSE LET x == DivSmall(s, 1000, Len(s), 0, << >>)
           t == ToString(x.r)
       IN  Decimal(Norm(x.q)) \o (IF x.r < 10 THEN "00" ELSE IF x.r < 100 THEN "0" ELSE "") \o t

HexDigit == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f" >>
\* n digits of an integer below 2^31
RECURSIVE HexN(_, _)
HexN(x, n) == IF n = 0 THEN "" ELSE HexN(x \div 16, n - 1) \o HexDigit[(x % 16) + 1]
Hex8(w) == HexN(w[2], 4) \o HexN(w[1], 4)
RECURSIVE HexInt(_)
HexInt(x) == IF x < 16 THEN HexDigit[x + 1] ELSE HexInt(x \div 16) \o HexDigit[(x % 16) + 1]
\* {:#x} of a word and of a small integer
HexWord(w) == "0x" \o (IF w[2] = 0 THEN HexInt(w[1]) ELSE HexInt(w[2]) \o HexN(w[1], 4))
HexNum(x) == "0x" \o HexInt(x)

\* A number times a small factor
RECURSIVE MulSmall(_, _, _, _)
MulSmall(s, k, i, c) ==
  IF i > Len(s) THEN IF c = 0 THEN << >> ELSE << c >>
  ELSE LET t == s[i] * k + c
       IN  << t % 65536 >> \o MulSmall(s, k, i + 1, t \div 65536)
Times(s, k) == MulSmall(s, k, 1, 0)
\* ... that sticks at the largest 64 bit number
Sat64(s) == IF Len(s) > 4 THEN << 65535, 65535, 65535, 65535 >> ELSE s

----------------------------------------------------------------------------
(* Printable ASCII                                                         *)

Ascii == << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>
CharText(b) == IF b \in 32..126 THEN Ascii[b - 31] ELSE "{u" \o HexInt(b) \o "}"
RECURSIVE TextFrom(_, _)
TextFrom(s, i) == IF i > Len(s) THEN "" ELSE CharText(s[i]) \o TextFrom(s, i + 1)
\* The text of an observed string (its length in front)
TextOf(v) == TextFrom(v, 2)
=============================================================================
