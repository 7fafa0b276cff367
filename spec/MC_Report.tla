------------------------------ MODULE MC_Report ------------------------------
(***************************************************************************)
(* The report and the raw dump over a family of small CPUs: every vendor,  *)
(* limits on both sides of every range, the announcing bits on and off,    *)
(* empty and filled lists; an object made on any of them prints its report *)
(* on any other one of the chosen `Pairs'.                                 *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Basics, Exts, Hyps, Across
VARIABLES cpu, obj, vw, out, did
rvars == <<cpu, obj, vw, out, did>>

Row(a, b, c, d) == <<a[1], a[2], b[1], b[2], c[1], c[2], d[1], d[2]>>
Z == <<0, 0>>
Pw(s, i) == <<s[i] + 256 * s[i + 1], s[i + 2] + 256 * s[i + 3]>>
VStr(v) == CASE v = "Intel" -> <<71, 101, 110, 117, 105, 110, 101, 73, 110, 116, 101, 108>>
             [] v = "Amd" -> <<65, 117, 116, 104, 101, 110, 116, 105, 99, 65, 77, 68>>
             [] OTHER -> <<67, 101, 110, 116, 97, 117, 114, 72, 97, 117, 108, 115>>

\* p = <<vendor, basic limit, extended limit, hypervisor limit, announced?, filled?>>
Small(p) ==
  LET s == VStr(p[1])
      on == p[5]
      F == IF p[6] THEN Row(<<4660, 22136>>, <<39612, 57072>>, <<17, 34>>, <<51, 68>>) ELSE Row(Z, Z, Z, Z)
      E == Row(Z, Z, Z, Z)
  IN [ L0 |-> << Row(<<p[2], 0>>, Pw(s, 1), Pw(s, 9), Pw(s, 5)) >>,
       L1 |-> << Row(<<1697, 9>>, Z, IF on THEN <<512, 32768>> ELSE Z, Z) >>,
       L2 |-> << IF p[6] THEN Row(<<1, 44>>, <<12288, 0>>, Z, Z) ELSE E >>,
       L4 |-> IF p[6] THEN << Row(<<289, 0>>, <<63, 0>>, <<63, 0>>, Z), E >> ELSE << E >>,
       L7 |-> << Row(Z, IF on THEN <<4, 0>> ELSE Z, Z, Z), E >>,
       LB |-> IF p[6] THEN << Row(Z, <<1, 0>>, <<256, 0>>, Z), Row(Z, <<2, 0>>, <<513, 0>>, Z), E >> ELSE << E >>,
       LD |-> << Row(<<7, 0>>, Z, Z, Z), E, F, E >>,
       LF |-> << Row(Z, <<9, 0>>, Z, IF on THEN <<2, 0>> ELSE Z), F >>,
       L10 |-> << Row(Z, IF on THEN <<14, 0>> ELSE Z, Z, Z), F >>,
       L12 |-> IF p[6] THEN << E, E, Row(<<4097, 0>>, Z, <<8193, 0>>, Z), E >> ELSE << E >>,
       L15 |-> << F >>,
       L17 |-> << Row(IF p[6] THEN <<3, 0>> ELSE Z, Z, Z, Z), Row(<<16705, 16705>>, Z, Z, Z), E, E, F >>,
       L18 |-> IF p[6] THEN << Row(<<1, 0>>, Z, Z, <<33, 0>>), Row(Z, <<1, 2>>, Z, <<34, 0>>), E >> ELSE << E >>,
       L40000000 |-> << Row(<<p[4], IF p[4] = 0 THEN 0 ELSE 16384>>, Z, Z, Z) >>,
       L40000002 |-> << F >>,
       L80000000 |-> << Row(<<p[3], IF p[3] = -1 THEN 0 ELSE 32768>>, Z, Z, Z) >>,
       L80000001 |-> << Row(Z, Z, IF on THEN <<4, 0>> ELSE Z, Z) >>,
       L80000002 |-> << Row(<<16705, 65>>, Z, Z, Z) >>,
       L8000001D |-> IF p[6] THEN << Row(<<67, 0>>, <<63, 0>>, <<127, 0>>, Z), E >> ELSE << E >>,
       L80000020 |-> << Row(Z, IF on THEN <<46, 0>> ELSE Z, Z, Z), F >>,
       L80000026 |-> IF p[6] THEN << Row(Z, <<1, 0>>, <<256, 0>>, Z), E >> ELSE << E >> ]

INSTANCE Report WITH Machine <- Small

AcrossQuick == { <<"Amd", 32, 38, 0, TRUE, TRUE>> }
AcrossDeep == {"Intel", "Amd"} \X {0, 17, 32} \X {0, 38} \X {0} \X BOOLEAN \X {TRUE}
Params == {"Intel", "Amd", "Other"} \X Basics \X Exts \X Hyps \X BOOLEAN \X BOOLEAN
RInit == /\ cpu \in Params /\ obj = << >> /\ vw = << >> /\ out = << >> /\ did = "-"
DoNew == did = "-" /\ New(1) /\ did' = "new"
DoMig == did = "new" /\ \E p \in Across : Migrate(p) /\ did' = "mig"
DoReport == did \in {"new", "mig"} /\ PrintReport(1) /\ did' = "report"
DoRaw == did = "-" /\ PrintRaw /\ did' = "raw"
RNext == DoNew \/ DoMig \/ DoReport \/ DoRaw

----------------------------------------------------------------------------
O == obj[1]
Title(g) == CASE g = "vendor_info" -> "vendor_id (0x00) = \"" \o TextOf(Acc(NewView(O, M, g), "as_str", M)) \o "\""
              [] g = "cache_info" -> "Cache and TLB information (0x02):"
              [] OTHER -> MainParts[g][1].l
Titled == DOMAIN MainParts \cup {"vendor_info", "cache_info"}

\* A section is printed iff the query answers, and exactly once
SectionsPresent == did = "report" =>
  \A g \in Titled :
    LET n == Len(SelectSeq(out, LAMBDA x : x = << Title(g) >>))
    IN  n = (IF Present(O, M, g) THEN 1 ELSE 0)
        \/ (\E h \in Titled \ {g} : Title(h) = Title(g))

\* Every line has one to three cells (nine for the C-states), no cell is empty
\* other than a missing brand
Shape == did = "report" =>
  \A i \in 1..Len(out) : /\ Len(out[i]) \in {1, 2, 3, 8}
                         /\ \A j \in 1..Len(out[i]) : out[i][j] # "" \/ (j = 2 /\ out[i][1] = "Vendor Brand")
StartsWell == did = "report" => out[1] = << "CpuId" >>

\* Rows of enumerated sections: as many as the enumeration has items
Caches == did = "report" =>
  LET it == IF Present(O, M, "cache_parameters") THEN All(NewIter(O, M, "cache_parameters"), M) ELSE << >>
  IN  Len(SelectSeq(out, LAMBDA x : Len(x) = 2 /\ x[1] = "(size synth.)")) * 15 = Len(it)

\* The dump: strictly ascending, within the limits, without gaps, with the
\* words of sub-leaf 0
RawExact == did = "raw" =>
  LET lim(s) == Regs(M, LeafName(s), 0)[EAX]
      In(w) == \E s \in { <<0, 0>>, <<0, 16384>>, <<0, 32768>> } : WLeq(s, w) /\ WLeq(w, lim(s))
      Count(s) == IF ~WLeq(s, lim(s)) THEN 0 ELSE lim(s)[1] - s[1] + 1
  IN  /\ \A i \in 1..Len(out) : In(out[i][1]) /\ out[i][2] = Z
                                /\ SubSeq(out[i], 3, 6) = Regs(M, LeafName(out[i][1]), 0)
      /\ \A i \in 1..Len(out) - 1 : WLt(out[i][1], out[i + 1][1])
      /\ Len(out) = Count(<<0, 0>>) + Count(<<0, 16384>>) + Count(<<0, 32768>>)

----------------------------------------------------------------------------
(* The tables                                                              *)

Synth(t) == CASE t = "TscInfo" -> {"$ratio"} [] t = "SoCVendorInfo" -> {"$brand"}
                [] t = "L2And3CacheTlbInfo" -> {"$l3kib"} [] t = "CacheParameter" -> {"$size"}
                [] OTHER -> {}
PartsKnown(t, parts) == \A i \in 1..Len(parts) :
  parts[i].n = "" \/ parts[i].n \in Synth(t) \cup DOMAIN FieldByName[t]
                  \/ (Print(<<"no such accessor", t, parts[i].n>>, TRUE) /\ FALSE)
ASSUME \A g \in DOMAIN MainParts \ DOMAIN IterGetters : PartsKnown(ViewGetters[g].t, MainParts[g])
ASSUME \A t \in DOMAIN SubQueries : \A q \in DOMAIN SubQueries[t] \cap DOMAIN QueryParts :
         PartsKnown(SubQueries[t][q].t, QueryParts[q])
ASSUME /\ PartsKnown("CacheParameter", CacheParts) /\ PartsKnown("ExtendedTopologyLevel", TopologyParts)
       /\ PartsKnown("ExtendedState", StateParts) /\ PartsKnown("EpcSection", EpcParts)
       /\ PartsKnown("DatInfo", DatParts) /\ PartsKnown("ExtendedCpuTopologyLevel", LevelParts)

\* Every query that answers has a section, but for the hypervisor's, the older
\* topology query, and the extended identifiers, which are part of others
SectionSet == {Sections[i] : i \in 1..Len(Sections)}
ASSUME SectionSet \subseteq Getters /\ Cardinality(SectionSet) = Len(Sections)
ASSUME Print(<<"queries without a section", Getters \ SectionSet>>, TRUE)

\* Every descriptor has a text
ASSUME DOMAIN DescText = Descriptors

\* Numbers
ASSUME \A n \in (0..1100) \cup (65000..67000) \cup {999999, 1000000, 1000001, 2147483647} :
         Decimal(Num(n)) = ToString(n)
ASSUME Decimal(<<65535, 65535>>) = "4294967295" /\ Decimal(<<65535, 65535, 65535, 65535>>) = "18446744073709551615"
ASSUME HexWord(<<65535, 65535>>) = "0xffffffff" /\ HexWord(<<16, 0>>) = "0x10" /\ HexWord(<<1, 16384>>) = "0x40000001"
ASSUME Hex8(<<4660, 1>>) = "00011234" /\ LeafName(<<38, 32768>>) = "L80000026" /\ LeafName(<<31, 0>>) = "L1F"
ASSUME \A n \in LeafNames : LeafName(LeafNum[n]) = n
=============================================================================
