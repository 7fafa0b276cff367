------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* The value every accessor returns, as a function of the words a view     *)
(* captured (and, for the few accessors that read on demand, of the CPU m  *)
(* the call runs on).                                                      *)
(*                                                                         *)
(* Observed values are sequences of integers: a flag is <<0>> or <<1>>, a  *)
(* number its limbs, an absent optional << >>, a string its length and its *)
(* bytes, an enumeration its tag and its payload.                          *)
(***************************************************************************)
EXTENDS Leaves, Text, Fields, TLC

None == << >>

----------------------------------------------------------------------------
(* Family and model (leaf 1, EAX)                                          *)

BaseFamily(v) == Bits(v.w[EAX], 8, 11)
ExtFamily(v)  == Bits(v.w[EAX], 20, 27)
BaseModel(v)  == Bits(v.w[EAX], 4, 7)
ExtModel(v)   == Bits(v.w[EAX], 16, 19)

Family(v) ==
  IF (v.vendor = "Amd"   /\ BaseFamily(v) < 15) \/
     (v.vendor = "Intel" /\ BaseFamily(v) # 15)
  THEN BaseFamily(v) ELSE (BaseFamily(v) + ExtFamily(v)) % 256

Model(v) ==
  IF (v.vendor = "Amd"   /\ BaseFamily(v) < 15) \/
     (v.vendor = "Intel" /\ BaseFamily(v) \notin {6, 15})
  THEN BaseModel(v) ELSE ExtModel(v) * 16 + BaseModel(v)

----------------------------------------------------------------------------
(* Associativity encodings of AMD's cache leaves                           *)

Disabled == <<0>>   DirectMapped == <<1>>   Full == <<3>>   UnknownWays == <<4>>
NWay(n) == <<2, n>>

Assoc1(x) == CASE x = 0   -> Disabled
               [] x = 1   -> DirectMapped
               [] x = 255 -> Full
               [] OTHER   -> NWay(x)
Assoc2(x) == CASE x = 0  -> Disabled
               [] x = 1  -> DirectMapped
               [] x = 2  -> NWay(2)
               [] x = 4  -> NWay(4)
               [] x = 5  -> NWay(6)
               [] x = 6  -> NWay(8)
               [] x = 8  -> NWay(16)
               [] x = 10 -> NWay(32)
               [] x = 11 -> NWay(48)
               [] x = 12 -> NWay(64)
               [] x = 13 -> NWay(96)
               [] x = 14 -> NWay(128)
               [] x = 15 -> Full
               [] OTHER  -> UnknownWays          \* 3, 7 and 9

----------------------------------------------------------------------------
(* Descriptor bytes of leaf 2                                              *)

TGeneral == 0  TCache == 1  TTlb == 2  TStlb == 3  TDtlb == 4  TPrefetch == 5

DescGeneral  == {254, 255}
DescPrefetch == {240, 241}
DescStlb     == {193, 195, 202}                              \* C1 C3 CA
DescDtlb     == {107, 108, 109, 160, 194, 196}               \* 6B-6D A0 C2 C4
DescTlb      == (1..5) \cup {11, 79, 80, 81, 82, 85, 86, 87, 89, 90, 91, 92, 93,
                  97, 99, 100, 106, 118, 176, 177, 178, 179, 180, 181, 182, 186, 192}
DescCache    == {6, 8, 9, 10, 12, 13, 14, 29, 33, 34, 35, 36, 37, 41, 44, 48}
                \cup (64..78) \cup {96, 102, 103, 104, 112, 113, 114}
                \cup (120..125) \cup {127, 128} \cup (130..135)
                \cup {208, 209, 210, 214, 215, 216, 220, 221, 222, 226, 227, 228,
                      234, 235, 236}
Descriptors == DescGeneral \cup DescPrefetch \cup DescStlb \cup DescDtlb
               \cup DescTlb \cup DescCache
DescType(d) == CASE d \in DescGeneral  -> TGeneral
                 [] d \in DescPrefetch -> TPrefetch
                 [] d \in DescStlb     -> TStlb
                 [] d \in DescDtlb     -> TDtlb
                 [] d \in DescTlb      -> TTlb
                 [] d \in DescCache    -> TCache

----------------------------------------------------------------------------
(* Hypervisor signatures (EBX, ECX, EDX of leaf 0x40000000)                *)

HvSig(v) == Bytes(v.w[EBX]) \o Bytes(v.w[ECX]) \o Bytes(v.w[EDX])
HvXen    == <<88, 101, 110, 86, 77, 77, 88, 101, 110, 86, 77, 77>>
HvVMware == <<86, 77, 119, 97, 114, 101, 86, 77, 119, 97, 114, 101>>
HvHyperV == <<77, 105, 99, 114, 111, 115, 111, 102, 116, 32, 72, 118>>
HvKVM    == <<75, 86, 77, 75, 86, 77, 75, 86, 77, 0, 0, 0>>
HvQEMU   == <<84, 67, 71, 84, 67, 71, 84, 67, 71, 84, 67, 71>>
HvBhyve1 == <<98, 104, 121, 118, 101, 32, 98, 104, 121, 118, 101, 32>>
HvBhyve2 == <<66, 72, 121, 86, 69, 32, 66, 72, 121, 86, 69, 32>>
HvQNX    == <<81, 78, 88, 81, 86, 77, 66, 83, 81, 71, 0, 0>>
HvACRN   == <<65, 67, 82, 78, 65, 67, 82, 78, 65, 67, 82, 78>>
Hypervisor(v) ==
  LET s == HvSig(v)
  IN CASE s = HvXen    -> <<0>>
       [] s = HvVMware -> <<1>>
       [] s = HvHyperV -> <<2>>
       [] s = HvKVM    -> <<3>>
       [] s = HvQEMU   -> <<4>>
       [] s \in {HvBhyve1, HvBhyve2} -> <<5>>
       [] s = HvQNX    -> <<6>>
       [] s = HvACRN   -> <<7>>
       [] OTHER        -> <<8>> \o v.w[EBX] \o v.w[ECX] \o v.w[EDX]

----------------------------------------------------------------------------
(* Extended state components (leaf 0xD)                                    *)

StateRegister(sub) == CASE sub = 2  -> <<0>>
                        [] sub = 3  -> <<1>>
                        [] sub = 4  -> <<2>>
                        [] sub = 5  -> <<3>>
                        [] sub = 6  -> <<4>>
                        [] sub = 7  -> <<5>>
                        [] sub = 8  -> <<6>>
                        [] sub = 9  -> <<7>>
                        [] sub = 13 -> <<8>>
                        [] OTHER    -> <<9>> \o Num(sub)

\* Level types of AMD's extended topology leaf
HierarchyLevel(x) == IF x < 5 THEN <<x>> ELSE <<5, x>>

----------------------------------------------------------------------------
(* The specials, by view type and accessor name                            *)

ViewText(v) ==                              \* the bytes of a string view
  LET RECURSIVE all(_)
      all(i) == IF i > Len(v.w) THEN << >> ELSE Bytes(v.w[i]) \o all(i + 1)
  IN  all(1)

Special(v, n, m) ==
  CASE v.t = "FeatureInfo" -> (CASE n = "family_id" -> Num(Family(v))
                                 [] n = "model_id"  -> Num(Model(v)))
    [] v.t = "VendorInfo" ->
         Str(FixedText(Bytes(v.w[EBX]) \o Bytes(v.w[EDX]) \o Bytes(v.w[ECX]),
                       InvalidVendor))
    [] v.t = "ProcessorBrandString" -> Str(BrandText(ViewText(v)))
    [] v.t = "SoCVendorBrand" -> Str(FixedText(ViewText(v), InvalidSoC))
    [] v.t = "ProcessorSerial" ->
         (CASE n = "serial"     -> Norm(v.w[ECX1] \o v.w[EDX1])
            [] n = "serial_all" -> Norm(v.w[ECX1] \o v.w[EDX1] \o v.w[EAX]))
    [] v.t = "CacheInfo" -> (CASE n = "num" -> <<v.d>>
                               [] n = "typ" -> <<DescType(v.d)>>)
    [] v.t = "CacheParameter" ->                               \* cache_type
         LET x == Bits(v.w[EAX], 0, 4) IN <<IF x < 4 THEN x ELSE 4>>
    [] v.t = "ExtendedTopologyLevel" ->                        \* level_type
         LET x == Bits(v.w[ECX], 8, 15) IN <<IF x < 6 THEN x ELSE 6>>
    [] v.t = "ExtendedCpuTopologyLevel" ->                     \* level_type
         HierarchyLevel(Bits(v.w[ECX], 8, 15))
    [] v.t = "ExtendedState" ->
         (CASE n = "register"   -> StateRegister(v.sub)
            [] n = "location"   -> <<BitAt(v.w[ECX], 0)>>
            [] n = "is_in_xcr0" -> <<1 - BitAt(v.w[ECX], 0)>>)
    [] v.t = "SgxInfo" ->
         (CASE n = "secs_attributes_lower" -> Norm(v.w[EAX1] \o v.w[EBX1])
            [] n = "secs_attributes_upper" -> Norm(v.w[ECX1] \o v.w[EDX1]))
    [] v.t = "EpcSection" ->
         LET at(l, h) == Norm(<< (v.w[l][1] \div 4096) * 4096, v.w[l][2],
                                 v.w[h][1], v.w[h][2] % 16 >>)
         IN  (CASE n = "physical_base" -> at(EAX, EBX)
                [] n = "size"          -> at(ECX, EDX))
    [] v.t = "TscInfo" ->                                      \* tsc_frequency
         IF ZeroW \in {v.w[EAX], v.w[EBX], v.w[ECX]} THEN None
         ELSE MulDiv(v.w[ECX], v.w[EBX], v.w[EAX])
    [] v.t = "DatInfo" ->                                      \* cache_type
         LET x == Bits(v.w[EDX], 0, 4) IN <<IF x < 6 THEN x ELSE 6>>
    [] v.t = "HypervisorInfo" ->
         IF n = "identify" THEN Hypervisor(v)
         ELSE IF ~WLeq(LeafNum["L40000010"], v.w[EAX]) THEN None
         ELSE WNum(Regs(m, "L40000010", 0)[IF n = "tsc_frequency" THEN EAX ELSE EBX])
    [] v.t = "ProcessorCapacityAndFeatureInfo" ->
         (CASE n = "perf_tsc_size" -> <<40 + 8 * Bits(v.w[ECX], 16, 17)>>
            [] n = "maximum_logical_processors" ->
                 Num(Pow2(Bits(v.w[ECX], 12, 15))))

----------------------------------------------------------------------------

\* The value of accessor f of view v, called while the CPU is m
Value(v, f, m) ==
  CASE f.k = "bit"    -> <<BitAt(v.w[f.r], f.lo)>>
    [] f.k = "amd"    -> IF v.vendor = "Amd" THEN <<BitAt(v.w[f.r], f.lo)>> ELSE <<0>>
    [] f.k = "num"    -> Num(Bits(v.w[f.r], f.lo, f.hi))
    [] f.k = "num1"   -> Num(Bits(v.w[f.r], f.lo, f.hi) + 1)
    [] f.k = "word"   -> WNum(v.w[f.r])
    [] f.k = "word1"  -> WNum1(v.w[f.r])
    [] f.k = "assoc1" -> Assoc1(Bits(v.w[f.r], f.lo, f.hi))
    [] f.k = "assoc2" -> Assoc2(Bits(v.w[f.r], f.lo, f.hi))
    [] f.k = "spec"   -> Special(v, f.n, m)

AllFields(t) == [i \in 1..Len(FieldsOf[t]) |-> i]

\* The values of the accessors with indices fs / of all accessors
Values(v, fs, m) == LET all == FieldsOf[v.t]
                    IN  [i \in 1..Len(fs) |-> Value(v, all[fs[i]], m)]
AllValues(v, m) == LET all == FieldsOf[v.t]
                   IN  [i \in 1..Len(all) |-> Value(v, all[i], m)]
=============================================================================
