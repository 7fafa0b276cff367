------------------------------- MODULE Debug --------------------------------
(***************************************************************************)
(* What the library says about its answers in other ways than through the  *)
(* accessors: the debug representation of objects, views and iterators,    *)
(* the display texts of enumerated values, and equality of views.          *)
(*                                                                         *)
(* The recorder reads a debug representation back into a tree:             *)
(*   num v | bool v | str v n | id n | tup n f | rec n f | list f |        *)
(*   flags n v | other                                                     *)
(* Only agreement is judged: what the representation shows under the name  *)
(* of an accessor, query or register must be what that would answer now.   *)
(* It need not show everything, and may show things this module does not   *)
(* know.                                                                   *)
(***************************************************************************)
EXTENDS CpuId, Texts

\* Descriptor bytes that the implementation is known not to report
CONSTANT Lacking

----------------------------------------------------------------------------
(* Enumerated values                                                       *)

EnumNames(v, f) ==
  CASE f.k \in {"assoc1", "assoc2"} ->
         << "Disabled", "DirectMapped", "NWay", "FullyAssociative", "Unknown" >>
    [] v.t = "CacheInfo" /\ f.n = "typ" ->
         << "General", "Cache", "TLB", "STLB", "DTLB", "Prefetch" >>
    [] v.t = "CacheParameter" /\ f.n = "cache_type" ->
         << "Null", "Data", "Instruction", "Unified", "Reserved" >>
    [] v.t = "ExtendedTopologyLevel" /\ f.n = "level_type" ->
         << "Invalid", "SMT", "Core", "Module", "Tile", "Die", "Unknown" >>
    [] v.t = "ExtendedCpuTopologyLevel" /\ f.n = "level_type" ->
         << "Reserved", "Core", "Complex", "Die", "Socket", "Unknown" >>
    [] v.t = "ExtendedState" /\ f.n = "register" ->
         << "Avx", "MpxBndregs", "MpxBndcsr", "Avx512Opmask", "Avx512ZmmHi256",
            "Avx512ZmmHi16", "Pt", "Pkru", "Hdc", "Unknown" >>
    [] v.t = "ExtendedState" /\ f.n = "location" -> << "Xcr0", "Ia32Xss" >>
    [] v.t = "DatInfo" /\ f.n = "cache_type" ->
         << "Null", "DataTLB", "InstructionTLB", "UnifiedTLB", "LoadOnly", "StoreOnly", "Unknown" >>
    [] v.t = "HypervisorInfo" /\ f.n = "identify" ->
         << "Xen", "VMware", "HyperV", "KVM", "QEMU", "Bhyve", "QNX", "ACRN", "Unknown" >>
    [] OTHER -> << >>

\* The numbers an enumerated value carries
Payload(v, f, val) ==
  CASE Len(val) = 1 -> << >>
    [] f.n = "identify" -> << WNum(<<val[2], val[3]>>), WNum(<<val[4], val[5]>>),
                              WNum(<<val[6], val[7]>>) >>
    [] OTHER -> << Tail(val) >>

ShowsEnum(name, payload, node) ==
  IF payload = << >> THEN node.k = "id" /\ node.n = name
  ELSE /\ node.k = "tup" /\ node.n = name /\ Len(node.f) = Len(payload)
       /\ \A i \in 1..Len(payload) : node.f[i].k = "num" /\ node.f[i].v = payload[i]

\* The display text of an accessor's value
EnumText(v, f, val) ==
  CASE f.k \in {"assoc1", "assoc2"} -> AssocText(val)
    [] v.t = "CacheParameter" -> CacheTypeText(val)
    [] v.t = "ExtendedTopologyLevel" -> TopologyText(val)
    [] v.t = "ExtendedCpuTopologyLevel" -> HierarchyText(val)
    [] v.t = "ExtendedState" -> IF f.n = "register" THEN RegisterText(val) ELSE LocationText(val)
    [] v.t = "DatInfo" -> DatText(val)

----------------------------------------------------------------------------
(* Which accessor, query or register the name of a field refers to         *)

Alias == [
  VendorInfo |-> [ brand_string |-> "as_str" ],
  ExtendedTopologyLevel |-> [ number |-> "level_number", type |-> "level_type",
                              next_apic_id |-> "shift_right_for_next_apic_id" ] ]
Aliased(t, n) == IF t \in DOMAIN Alias /\ n \in DOMAIN Alias[t] THEN Alias[t][n] ELSE n

\* Index of the accessor called n in FieldsOf[t], 0 if there is none
FieldIndex ==
  [t \in DOMAIN FieldsOf |->
     LET fs == FieldsOf[t]
     IN  [n \in {fs[i].n : i \in 1..Len(fs)} |-> CHOOSE i \in 1..Len(fs) : fs[i].n = n]]
FieldAt(t, n) == IF n \in DOMAIN FieldIndex[t] THEN FieldIndex[t][n] ELSE 0
Named(t, n) ==
  IF FieldAt(t, Aliased(t, n)) # 0 THEN FieldAt(t, Aliased(t, n)) ELSE FieldAt(t, "get_" \o n)

QueryNamed(v, n) ==
  LET qs == QueriesOf(v)
  IN  IF n \in qs THEN n
      ELSE IF "get_" \o n \in qs THEN "get_" \o n
      ELSE IF n \in {"extended_state_iter", "sgx_section_iter"} /\ "iter" \in qs THEN "iter"
      ELSE ""

RegisterNamed == [ eax |-> EAX, ebx |-> EBX, ecx |-> ECX, edx |-> EDX, eax1 |-> EAX1,
                   ebx1 |-> EBX1, ecx1 |-> ECX1, edx1 |-> EDX1, _eax |-> EAX, _ebx |-> EBX,
                   _ecx |-> ECX, _edx |-> EDX, ecx_features |-> ECX, edx_features |-> EDX ]

----------------------------------------------------------------------------
(* Does a tree show a value?                                               *)

ShowsPlain(f, val, node) ==
  CASE node.k = "num"  -> node.v = val
    [] node.k = "bool" -> f.k \in {"bit", "amd", "spec"} /\ node.v = val
    [] node.k = "str"  -> node.v = val
    [] OTHER -> FALSE

Shows(v, f, m, node) ==
  LET val == Value(v, f, m)
      en  == EnumNames(v, f)
  IN  IF en # << >> THEN ShowsEnum(en[val[1] + 1], Payload(v, f, val), node)
      ELSE IF node.k = "id" /\ node.n = "None" THEN val = None
      ELSE IF node.k = "tup" /\ node.n = "Some" /\ Len(node.f) = 1
      THEN val # None /\ ShowsPlain(f, val, node.f[1])
      ELSE ShowsPlain(f, val, node)

RECURSIVE PopSum(_, _)
PopSum(x, n) == IF n = 0 THEN 0 ELSE (x % 2) + PopSum(x \div 2, n - 1)
RECURSIVE Pop(_)
Pop(limbs) == IF limbs = << >> THEN 0 ELSE PopSum(Head(limbs), 16) + Pop(Tail(limbs))
Subset16(a, b) == \A i \in 0..15 : (a \div Pow2(i)) % 2 <= (b \div Pow2(i)) % 2

\* Flags that are shown in sets but have no accessor of that name: where they are
FlagBits == [
  ApmInfo |-> [
    mcaovflrecov |-> <<EBX, 0>>, fid |-> <<EDX, 1>>, vid |-> <<EDX, 2>>,
    ttp |-> <<EDX, 3>>, mhzsteps100 |-> <<EDX, 6>>, hwpstate |-> <<EDX, 7>>,
    invtsc |-> <<EDX, 8>>, efffreqro |-> <<EDX, 10>>, procfeedbackif |-> <<EDX, 11>>,
    procpwrreport |-> <<EDX, 12>> ],
  ExtendedFeatures |-> [
    adjust_msr |-> <<EBX, 1>>, deprecate_fpu_cs_ds |-> <<EBX, 13>>, cetss |-> <<ECX, 7>>,
    tmeen |-> <<ECX, 13>> ],
  ExtendedProcessorFeatureIdentifiers |-> [
    altmovcr8 |-> <<ECX, 4>>, misalignsse |-> <<ECX, 7>>, topext |-> <<ECX, 22>>,
    perfctrext |-> <<ECX, 23>>, perfctrextnb |-> <<ECX, 24>>,
    databrkpext |-> <<ECX, 26>>, perftsc |-> <<ECX, 27>>, perfctrextllc |-> <<ECX, 28>>,
    monitorx |-> <<ECX, 29>>, addrmaskext |-> <<ECX, 30>>, mmxext |-> <<EDX, 22>>,
    ffxsr |-> <<EDX, 25>>, gib_pages |-> <<EDX, 26>>, i64bit_mode |-> <<EDX, 29>>,
    threednowext |-> <<EDX, 30>>, threednow |-> <<EDX, 31>> ],
  ExtendedStateInfo |-> [
    legacy_x87 |-> <<EAX, 0>>, sse128 |-> <<EAX, 1>>, avx256 |-> <<EAX, 2>>,
    mpx_bndregs |-> <<EAX, 3>>, mpx_bndcsr |-> <<EAX, 4>>, avx512_opmask |-> <<EAX, 5>>,
    avx512_zmm_hi256 |-> <<EAX, 6>>, avx512_zmm_hi16 |-> <<EAX, 7>>, pkru |-> <<EAX, 9>>,
    ia32_xss_hdc |-> <<EAX, 13>>, amx_tilecfg |-> <<EAX, 17>>,
    amx_tiledata |-> <<EAX, 18>>, pt |-> <<ECX1, 8>>, pasid |-> <<ECX1, 10>>,
    cet_user |-> <<ECX1, 11>>, cet_supervisor |-> <<ECX1, 12>>, hdc |-> <<ECX1, 13>>,
    uintr |-> <<ECX1, 14>>, lbr |-> <<ECX1, 15>>, hwp |-> <<ECX1, 16>> ],
  FeatureInfo |-> [
    dtes64 |-> <<ECX, 2>>, monitor |-> <<ECX, 3>>, dscpl |-> <<ECX, 4>>,
    osxsave |-> <<ECX, 27>>, cx8 |-> <<EDX, 8>>, sep |-> <<EDX, 11>>,
    clfsh |-> <<EDX, 19>>, fxsr |-> <<EDX, 24>> ],
  BandwidthMonitoringEventCounters |-> [
    l3_cache_lcl_bw_fill_mon |-> <<ECX, 0>>, l3_cache_rmt_bw_fill_mon |-> <<ECX, 1>>,
    l3_cache_lcl_bw_nt_wr_mon |-> <<ECX, 2>>, l3_cache_rmt_bw_nt_wr_mon |-> <<ECX, 3>>,
    l3_cache_lcl_slow_bw_fill_mon |-> <<ECX, 4>>,
    l3_cache_rmt_slow_bw_fill_mon |-> <<ECX, 5>>, l3_cache_vic_mon |-> <<ECX, 6>> ],
  InstructionBasedSamplingCapabilities |-> [
    ibsffv |-> <<EAX, 0>>, fetch_sam |-> <<EAX, 1>>, op_sam |-> <<EAX, 2>>,
    rd_wr_op_cnt |-> <<EAX, 3>>, op_cnt |-> <<EAX, 4>>, brn_trgt |-> <<EAX, 5>>,
    op_cnt_ext |-> <<EAX, 6>>, rip_invalid_chk |-> <<EAX, 7>>,
    op_brn_fuse |-> <<EAX, 8>>, ibs_l3_miss_filtering |-> <<EAX, 11>> ],
  MemoryEncryptionInfo |-> [
    hwenfcachecoh |-> <<EAX, 10>>, host64 |-> <<EAX, 11>>, restinject |-> <<EAX, 12>>,
    altinject |-> <<EAX, 13>>, dbgswp |-> <<EAX, 14>>, prevhostibs |-> <<EAX, 15>> ],
  SvmFeatures |-> [
    np |-> <<EDX, 0>>, lbr_virt |-> <<EDX, 1>>, svml |-> <<EDX, 2>>,
    nrips |-> <<EDX, 3>>, vmcb_clean |-> <<EDX, 5>>, vmsave_virt |-> <<EDX, 15>>,
    vgif |-> <<EDX, 16>>, tlb_ctl |-> <<EDX, 24>> ] ]
FlagBit(t, n) == IF t \in DOMAIN FlagBits /\ n \in DOMAIN FlagBits[t] THEN FlagBits[t][n] ELSE << >>

\* A set of flags over the registers ws: a named flag is one that is set, and
\* no bit is shown that is not there
FlagsOk(v, ws, node) ==
  LET limbs == [i \in 1..(2 * Len(ws)) |-> ws[((i - 1) \div 2) + 1][((i - 1) % 2) + 1]]
      named(n) == FieldAt(v.t, "has_" \o n)
  IN  /\ \A i \in 1..Len(node.v) : i <= Len(limbs) /\ Subset16(node.v[i], limbs[i])
      /\ Len(node.n) + Pop(node.v) <= Pop(limbs)
      /\ \A i \in 1..Len(node.n) :
           LET k == named(node.n[i])
               b == FlagBit(v.t, node.n[i])
           IN  IF b # << >> THEN IsSet(v.w[b[1]], b[2])
               ELSE k # 0 => LET f == FieldsOf[v.t][k]
                             IN  f.k \in {"bit", "amd"} => IsSet(v.w[f.r], f.lo)

ShowsRegister(v, r, node) ==
  CASE node.k = "num" -> node.v = WNum(v.w[r])
    [] node.k = "flags" -> FlagsOk(v, << v.w[r] >>, node)
    \* an empty set of flags, or one without names
    [] node.k = "tup" /\ Len(node.f) = 1 /\ node.f[1].k = "num" ->
         FlagsOk(v, << v.w[r] >>, [n |-> << >>, v |-> node.f[1].v])
    [] OTHER -> TRUE

----------------------------------------------------------------------------
(* The disagreements in a tree, as the names of the fields that lead there *)

RECURSIVE BadView(_, _, _), BadField(_, _, _), BadItems(_, _, _, _), BadQuery(_, _, _, _)
Under(n, ps) == [i \in 1..Len(ps) |-> n \o "." \o ps[i]]

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})

BadList(it, m, node) ==
  IF node.k # "list" THEN IF it.k = "attr" THEN << >> ELSE << "not a list" >>
  ELSE IF it.ended /\ node.f = << >> THEN << >>
  ELSE IF it.k = "desc"
  THEN LET shown == [i \in 1..Len(node.f) |->
                       IF node.f[i].k # "rec" THEN << >>
                       ELSE LET fs == node.f[i].f
                                of(n) == {j \in 1..Len(fs) : fs[j].n = n}
                            IN  << IF of("typ") = {} THEN "" ELSE fs[CHOOSE j \in of("typ") : TRUE].t.n,
                                   IF of("desc") = {} THEN "" ELSE fs[CHOOSE j \in of("desc") : TRUE].t.n >>]
           typ(d) == EnumNames([t |-> "CacheInfo"], [k |-> "spec", n |-> "typ"])[DescType(d) + 1]
           rest == SelectSeq(it.rest, LAMBDA d : d \notin Lacking)
           left == [i \in 1..Len(rest) |-> << typ(rest[i]), DescText[rest[i]] >>]
       IN  IF Len(shown) = Len(left)
              /\ \A i \in 1..Len(left) : Count(shown, left[i]) = Count(left, left[i])
           THEN << >> ELSE << "descriptors" >>
  ELSE LET items == Rest(it, m, it.pos, Len(node.f))
       IN  IF Len(items) # Len(node.f) THEN << "number of items" >>
           ELSE BadItems(items, m, node.f, 1)

BadItems(items, m, nodes, i) ==
  IF i > Len(items) THEN << >>
  ELSE Under(ToString(i), BadView(items[i], m, nodes[i])) \o BadItems(items, m, nodes, i + 1)

BadView(v, m, node) ==
  CASE node.k = "rec" ->
         Flatten([i \in 1..Len(node.f) |-> BadField(v, m, node.f[i])])
    [] node.k = "tup" /\ Len(node.f) = 1 /\ node.f[1].k = "rec" -> BadView(v, m, node.f[1])
    [] OTHER -> << >>

BadField(v, m, fld) ==
  LET n == fld.n
      i == Named(v.t, n)
      q == QueryNamed(v, n)
  IN  IF i # 0
      THEN IF Shows(v, FieldsOf[v.t][i], m, fld.t) THEN << >> ELSE << n >>
      ELSE IF q # "" THEN BadQuery(v, q, m, fld)
      ELSE IF v.t = "FeatureInfo" /\ n = "edx_ecx"
      THEN IF fld.t.k = "flags" => FlagsOk(v, << v.w[ECX], v.w[EDX] >>, fld.t)
              \/ FlagsOk(v, << v.w[EDX], v.w[ECX] >>, fld.t)
           THEN << >> ELSE << n >>
      ELSE IF v.t = "SoCVendorBrand" /\ n = "data" /\ fld.t.k = "list"
      THEN IF /\ Len(fld.t.f) = 3
              /\ \A j \in 1..3 :
                   BadView([t |-> "CpuIdRaw", vendor |-> v.vendor,
                            w |-> SubSeq(v.w, 4 * j - 3, 4 * j)], m, fld.t.f[j]) = << >>
           THEN << >> ELSE << n >>
      ELSE IF n \in DOMAIN RegisterNamed /\ "w" \in DOMAIN v /\ RegisterNamed[n] <= Len(v.w)
      THEN IF ShowsRegister(v, RegisterNamed[n], fld.t) THEN << >> ELSE << n >>
      ELSE << >>

BadQuery(v, q, m, fld) ==
  LET d == SubQueries[v.t][q]
      isNone == fld.t.k = "id" /\ fld.t.n = "None"
      inner == IF fld.t.k = "tup" /\ fld.t.n = "Some" /\ Len(fld.t.f) = 1 THEN fld.t.f[1] ELSE fld.t
  IN  IF isNone THEN IF SubPresent(v, q) THEN << fld.n >> ELSE << >>
      ELSE IF ~SubPresent(v, q) THEN << fld.n >>
      ELSE IF d.t = "iter" THEN Under(fld.n, BadList(SubIter(v, q), m, inner))
      ELSE Under(fld.n, BadView(MkView(v.o, d.t, Capture(m, d.slots)), m, inner))

BadHeld(x, m, node) == IF x.t = "iter" THEN BadList(x, m, node) ELSE BadView(x, m, node)

BadObject(o, m, node) ==
  LET bad(fld) ==
        LET isNone == fld.t.k = "id" /\ fld.t.n = "None"
            inner == IF fld.t.k = "tup" /\ fld.t.n = "Some" /\ Len(fld.t.f) = 1 THEN fld.t.f[1] ELSE fld.t
            g == fld.n
        IN  IF g = "vendor"
            THEN IF fld.t.k = "id" /\ fld.t.n \in {"Intel", "Amd"}
                 THEN IF fld.t.n = o.vendor THEN << >> ELSE << g >>
                 ELSE IF o.vendor = "Other" THEN << >> ELSE << g >>
            ELSE IF g \notin Getters THEN << >>
            ELSE IF isNone THEN IF Present(o, m, g) THEN << g >> ELSE << >>
            ELSE IF ~Present(o, m, g) THEN << g >>
            ELSE Under(g, IF g \in DOMAIN ViewGetters THEN BadView(NewView(o, m, g), m, inner)
                          ELSE BadList(NewIter(o, m, g), m, inner))
  IN  IF node.k # "rec" THEN << >> ELSE Flatten([i \in 1..Len(node.f) |-> bad(node.f[i])])

----------------------------------------------------------------------------
(* Display texts                                                           *)

\* Does a text agree with the view?
TextOk(v, m, e) ==
  CASE v.t = "CacheInfo" /\ e.of = "desc" -> e.n = DescText[v.d]
    [] v.t = "CacheInfo" /\ e.of = "self" ->
         e.n = HexInt(v.d) \o ":{u9} " \o DescTypeText(DescType(v.d)) \o ": " \o DescText[v.d]
    [] e.of = "self" -> e.v = Value(v, FieldsOf[v.t][FieldAt(v.t, "as_str")], m)
    [] OTHER -> LET f == FieldsOf[v.t][FieldAt(v.t, e.of)]
                IN  e.n = EnumText(v, f, Value(v, f, m))

----------------------------------------------------------------------------
(* Equality of two views of the same type                                  *)

MustEqual(a, b) == a = b \/ (a.t = b.t /\ a.vendor = b.vendor /\ "w" \in DOMAIN a
                             /\ a.w = b.w /\ ("sub" \in DOMAIN a => a.sub = b.sub))
MustDiffer(a, b, m) == AllValues(a, m) # AllValues(b, m)

----------------------------------------------------------------------------
\* The program shows, prints or compares: nothing changes
Look == out' = Some /\ UNCHANGED <<cpu, obj, vw>>
=============================================================================
