------------------------------- MODULE CpuId --------------------------------
(***************************************************************************)
(* The library as a state machine.                                         *)
(*                                                                         *)
(* A program constructs CpuId objects over a reader, asks them for views   *)
(* of leaves, reads accessors of the views, issues sub-queries and drives  *)
(* iterators, clones objects and iterators, and interleaves all of this    *)
(* freely - while the CPU behind the reader may change (a virtual machine  *)
(* migrates, a thread is moved to a core of another kind).                 *)
(*                                                                         *)
(*   cpu   which of the machines currently answers the reader              *)
(*   obj   handle -> what a CpuId object latched when it was constructed   *)
(*   vw    handle -> view or iterator                                      *)
(*   out   what the last call returned to the program                      *)
(*                                                                         *)
(* A view is a snapshot: it captures its words when it is created.         *)
(* Sub-queries, iterators and the hypervisor's frequency accessors read    *)
(* the CPU at the time they are called.                                    *)
(***************************************************************************)
EXTENDS Decode, FiniteSets, Integers

CONSTANT Machine(_)          \* name of a machine -> its register table
VARIABLES cpu, obj, vw, out
vars == <<cpu, obj, vw, out>>

M == Machine(cpu)

Some == << <<1>> >>
Nothing == << <<0>> >>

Put(f, k, x) == (k :> x) @@ f
Drop(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]

----------------------------------------------------------------------------
(* Views: what a getter needs and which sub-leaves it captures             *)

G(t, leaves, slots) == [t |-> t, leaves |-> leaves, slots |-> slots]
One(t, leaf) == G(t, {leaf}, << <<leaf, 0>> >>)

ViewGetters == [
  vendor_info  |-> One("VendorInfo", "L0"),
  feature_info |-> One("FeatureInfo", "L1"),
  processor_serial |-> G("ProcessorSerial", {"L3"}, << <<"L1", 0>>, <<"L3", 0>> >>),
  monitor_mwait_info |-> One("MonitorMwaitInfo", "L5"),
  thermal_power_info |-> One("ThermalPowerInfo", "L6"),
  extended_feature_info |-> G("ExtendedFeatures", {"L7"}, << <<"L7", 0>>, <<"L7", 1>> >>),
  direct_cache_access_info |-> One("DirectCacheAccessInfo", "L9"),
  performance_monitoring_info |-> One("PerformanceMonitoringInfo", "LA"),
  extended_state_info |-> G("ExtendedStateInfo", {"LD"}, << <<"LD", 0>>, <<"LD", 1>> >>),
  rdt_monitoring_info |-> One("RdtMonitoringInfo", "LF"),
  rdt_allocation_info |-> One("RdtAllocationInfo", "L10"),
  sgx_info |-> G("SgxInfo", {"L7", "L12"}, << <<"L12", 0>>, <<"L12", 1>> >>),
  processor_trace_info |-> G("ProcessorTraceInfo", {"L14"}, << <<"L14", 0>>, <<"L14", 1>> >>),
  tsc_info |-> One("TscInfo", "L15"),
  processor_frequency_info |-> One("ProcessorFrequencyInfo", "L16"),
  soc_vendor_info |-> One("SoCVendorInfo", "L17"),
  hypervisor_info |-> G("HypervisorInfo", {"L1"}, << <<"L40000000", 0>> >>),
  extended_processor_and_feature_identifiers |->
     One("ExtendedProcessorFeatureIdentifiers", "L80000001"),
  processor_brand_string |->
     G("ProcessorBrandString", {"L80000002", "L80000003", "L80000004"},
       << <<"L80000002", 0>>, <<"L80000003", 0>>, <<"L80000004", 0>> >>),
  l1_cache_and_tlb_info |-> One("L1CacheTlbInfo", "L80000005"),
  l2_l3_cache_and_tlb_info |-> One("L2And3CacheTlbInfo", "L80000006"),
  advanced_power_mgmt_info |-> One("ApmInfo", "L80000007"),
  processor_capacity_feature_info |-> One("ProcessorCapacityAndFeatureInfo", "L80000008"),
  svm_info |-> G("SvmFeatures", {"L80000001", "L8000000A"}, << <<"L8000000A", 0>> >>),
  tlb_1gb_page_info |-> One("Tlb1gbPageInfo", "L80000019"),
  performance_optimization_info |-> One("PerformanceOptimizationInfo", "L8000001A"),
  instruction_based_sampling_capabilities |->
     One("InstructionBasedSamplingCapabilities", "L8000001B"),
  processor_topology_info |-> One("ProcessorTopologyInfo", "L8000001E"),
  memory_encryption_info |-> One("MemoryEncryptionInfo", "L8000001F"),
  pqos_extended_feature_info |-> One("PqosExtendedFeatureInfo", "L80000020"),
  extended_feature_identification_2 |-> One("ExtendedFeatureIdentification2", "L80000021"),
  extended_performance_monitoring_and_debug |->
     One("ExtendedPerformanceMonitoringDebug", "L80000022"),
  multi_key_encrypted_memory_capabilities |->
     One("MultiKeyEncryptedMemoryCapabilities", "L80000023") ]

\* Getters that return an iterator, with the leaf they enumerate
IterGetters == [
  cache_info |-> "L2",
  cache_parameters |-> "L4",                \* L8000001D on AMD
  extended_topology_info |-> "LB",
  extended_topology_info_v2 |-> "L1F",
  deterministic_address_translation_info |-> "L18",
  extended_cpu_topology |-> "L80000026" ]

Getters == DOMAIN ViewGetters \cup DOMAIN IterGetters

\* Conditions beyond the availability of the leaves themselves
Extra(o, m, g) ==
  CASE g = "sgx_info" -> IsSet(Regs(m, "L7", 0)[EBX], 2)
    [] g = "hypervisor_info" -> /\ IsSet(Regs(m, "L1", 0)[ECX], 31)
                                /\ Regs(m, "L40000000", 0)[EAX] # ZeroW
    [] g = "svm_info" -> o.vendor = "Amd" /\ IsSet(Regs(m, "L80000001", 0)[ECX], 2)
    [] g = "l1_cache_and_tlb_info" -> o.vendor = "Amd"
    [] OTHER -> TRUE

\* Does getter g of an object that latched o return something on CPU m?
Present(o, m, g) ==
  IF g = "cache_parameters"
  THEN Avail(o, "L4") \/ (o.vendor = "Amd" /\ Avail(o, "L8000001D"))
  ELSE IF g \in DOMAIN IterGetters THEN Avail(o, IterGetters[g])
  ELSE (\A l \in ViewGetters[g].leaves : Avail(o, l)) /\ Extra(o, m, g)

RECURSIVE Capture(_, _)
Capture(m, slots) == IF slots = << >> THEN << >>
                     ELSE Regs(m, slots[1][1], slots[1][2]) \o Capture(m, Tail(slots))

MkView(o, t, w) == [t |-> t, o |-> o, vendor |-> o.vendor, w |-> w]

NewView(o, m, g) ==
  LET d == ViewGetters[g]
      w == Capture(m, d.slots)
  IN  IF g = "processor_trace_info" /\ w[EAX] = ZeroW     \* no second sub-leaf
      THEN MkView(o, d.t, SubSeq(w, 1, 4) \o <<ZeroW, ZeroW, ZeroW, ZeroW>>)
      ELSE MkView(o, d.t, w)

----------------------------------------------------------------------------
(* Sub-queries of views: condition, type and sub-leaves                    *)

Q(t, leaf, subs) == [t |-> t, slots |-> [i \in 1..Len(subs) |-> <<leaf, subs[i]>>]]
SubQueries == [
  RdtMonitoringInfo |-> [ l3_monitoring |-> Q("L3MonitoringInfo", "LF", <<1>>) ],
  RdtAllocationInfo |-> [
     l3_cat |-> Q("L3CatInfo", "L10", <<1>>),
     l2_cat |-> Q("L2CatInfo", "L10", <<2>>),
     memory_bandwidth_allocation |-> Q("MemBwAllocationInfo", "L10", <<3>>) ],
  SoCVendorInfo |-> [ get_vendor_brand |-> Q("SoCVendorBrand", "L17", <<1, 2, 3>>),
                      get_vendor_attributes |-> Q("iter", "L17", << >>) ],
  ExtendedStateInfo |-> [ iter |-> Q("iter", "LD", << >>) ],
  SgxInfo |-> [ iter |-> Q("iter", "L12", << >>) ],
  PqosExtendedFeatureInfo |-> [
     get_l3_memory_bandwidth_enforcement_info |->
        Q("L3MemoryBandwidthEnforcementInformation", "L80000020", <<1>>),
     get_l3_slow_memory_bandwidth_enforcement_info |->
        Q("L3MemoryBandwidthEnforcementInformation", "L80000020", <<2>>),
     get_bandwidth_monitoring_event_counters_info |->
        Q("BandwidthMonitoringEventCounters", "L80000020", <<3>>),
     get_assignable_bandwidth_monitoring_counters_info |->
        Q("AssignableBandwidthMonitoringCounterInfo", "L80000020", <<5>>) ] ]

QueriesOf(v) == IF v.t \in DOMAIN SubQueries THEN DOMAIN SubQueries[v.t] ELSE {}

SubPresent(v, q) ==
  CASE q = "l3_monitoring" -> IsSet(v.w[EDX], 1)
    [] q = "l3_cat" -> IsSet(v.w[EBX], 1)
    [] q = "l2_cat" -> IsSet(v.w[EBX], 2)
    [] q = "memory_bandwidth_allocation" -> IsSet(v.w[EBX], 3)
    [] q = "get_vendor_brand" -> WLeq(<<3, 0>>, v.w[EAX])
    [] q = "get_vendor_attributes" -> WLeq(<<4, 0>>, v.w[EAX])
    [] q = "get_l3_memory_bandwidth_enforcement_info" -> IsSet(v.w[EBX], 1)
    [] q = "get_l3_slow_memory_bandwidth_enforcement_info" -> IsSet(v.w[EBX], 2)
    [] q = "get_bandwidth_monitoring_event_counters_info" -> IsSet(v.w[EBX], 3)
    [] q = "get_assignable_bandwidth_monitoring_counters_info" -> IsSet(v.w[EBX], 5)
    [] OTHER -> TRUE

----------------------------------------------------------------------------
(* Iterators.  pos is the next sub-leaf to look at, last the last one that *)
(* exists (as a word), rest the bag of descriptor bytes still to report,   *)
(* x0 / xss the component bitmaps of leaf 0xD.  ended: the end has been     *)
(* reported.  On an unchanged CPU it then stays the end; whether an         *)
(* enumeration resumes on another CPU with more to report is left open.     *)

Iter(o, k, leaf, pos, last, rest, x0, xss) ==
  [t |-> "iter", o |-> o, k |-> k, leaf |-> leaf, pos |-> pos, last |-> last,
   rest |-> rest, x0 |-> x0, xss |-> xss, ended |-> FALSE]
Open(o, k, leaf, pos) == Iter(o, k, leaf, pos, ZeroW, << >>, ZeroW, ZeroW)

\* All bytes of leaf 2 except AL, which is not a descriptor
DescriptorBytes(m) ==
  LET r == Regs(m, "L2", 0)
  IN  Tail(Bytes(r[EAX])) \o Bytes(r[EBX]) \o Bytes(r[ECX]) \o Bytes(r[EDX])
KnownBag(m) == SelectSeq(DescriptorBytes(m), LAMBDA b : b \in Descriptors)

NewIter(o, m, g) ==
  CASE g = "cache_info" -> Iter(o, "desc", "L2", 0, ZeroW, KnownBag(m), ZeroW, ZeroW)
    [] g = "cache_parameters" ->
         Open(o, "cache", IF o.vendor = "Amd" THEN "L8000001D" ELSE "L4", 0)
    [] g = "extended_topology_info" -> Open(o, "topo", "LB", 0)
    [] g = "extended_topology_info_v2" -> Open(o, "topo", "L1F", 0)
    [] g = "deterministic_address_translation_info" ->
         Iter(o, "dat", "L18", 0, Regs(m, "L18", 0)[EAX], << >>, ZeroW, ZeroW)
    [] g = "extended_cpu_topology" -> Open(o, "amdtopo", "L80000026", 0)

SubIter(v, q) ==
  CASE q = "get_vendor_attributes" ->
         Iter(v.o, "attr", "L17", 4, v.w[EAX], << >>, ZeroW, ZeroW)
    [] v.t = "SgxInfo" -> Open(v.o, "sgx", "L12", 2)
    [] v.t = "ExtendedStateInfo" ->
         Iter(v.o, "state", "LD", 2, ZeroW, << >>, v.w[EAX], v.w[ECX1])

AsWord(n) == << n % 65536, n \div 65536 >>

\* The sub-leaf the next item is read from, or -1 if the enumeration is over
RECURSIVE Seek(_, _, _)
Seek(it, m, p) ==
  LET r == Regs(m, it.leaf, p)
  IN CASE it.k = "cache"   -> IF Bits(r[EAX], 0, 4) \in 1..3 THEN p ELSE -1
       [] it.k = "topo"    -> IF Bits(r[ECX], 8, 15) # 0 THEN p ELSE -1
       [] it.k = "amdtopo" -> IF Bits(r[ECX], 8, 15) # 0 THEN p ELSE -1
       [] it.k = "sgx"     -> IF Bits(r[EAX], 0, 3) = 1 THEN p ELSE -1
       [] it.k = "attr"    -> IF WLeq(AsWord(p), it.last) THEN p ELSE -1
       [] it.k = "dat"     -> IF ~WLeq(AsWord(p), it.last) THEN -1
                              ELSE IF Bits(r[EDX], 0, 4) # 0 THEN p
                              ELSE Seek(it, m, p + 1)
       [] it.k = "state"   -> IF p > 31 THEN -1
                              ELSE IF IsSet(it.x0, p) \/ IsSet(it.xss, p) THEN p
                              ELSE Seek(it, m, p + 1)

ItemType(k) == CASE k = "desc"    -> "CacheInfo"
                 [] k = "cache"   -> "CacheParameter"
                 [] k = "topo"    -> "ExtendedTopologyLevel"
                 [] k = "amdtopo" -> "ExtendedCpuTopologyLevel"
                 [] k = "sgx"     -> "EpcSection"
                 [] k = "attr"    -> "CpuIdRaw"
                 [] k = "dat"     -> "DatInfo"
                 [] k = "state"   -> "ExtendedState"

\* The item an iterator reports when it stands at sub-leaf p
Item(it, m, p) ==
  [t |-> ItemType(it.k), o |-> it.o, vendor |-> it.o.vendor,
   w |-> Regs(m, it.leaf, p), sub |-> p]
DescItem(it, d) == [t |-> "CacheInfo", o |-> it.o, vendor |-> it.o.vendor, d |-> d]

RemoveFirst(s, x) ==
  LET i == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
  IN  SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

----------------------------------------------------------------------------
(* Which leaves an operation on behalf of object o may execute CPUID for   *)

MayRead(o, m, w) ==
  \/ w \in {LeafNum["L0"], LeafNum["L80000000"]}
  \/ /\ w[2] # 16384
     /\ AvailNum(o, w)
  \/ /\ w[2] = 16384
     /\ Avail(o, "L1") /\ IsSet(Regs(m, "L1", 0)[ECX], 31)
     /\ w = LeafNum["L40000000"] \/ WLeq(w, Regs(m, "L40000000", 0)[EAX])

----------------------------------------------------------------------------
(* Actions                                                                 *)

Init(first) == cpu = first /\ obj = << >> /\ vw = << >> /\ out = << >>

New(h) == /\ obj' = Put(obj, h, Latch(M))
          /\ out' = Some
          /\ UNCHANGED <<cpu, vw>>

CloneObj(h, h2) == /\ h \in DOMAIN obj
                   /\ obj' = Put(obj, h2, obj[h])
                   /\ out' = Some
                   /\ UNCHANGED <<cpu, vw>>

Get(h, g, x) ==
  /\ h \in DOMAIN obj
  /\ IF Present(obj[h], M, g)
     THEN /\ vw' = Put(vw, x, IF g \in DOMAIN ViewGetters
                              THEN NewView(obj[h], M, g)
                              ELSE NewIter(obj[h], M, g))
          /\ out' = Some
     ELSE vw' = Drop(vw, x) /\ out' = Nothing
  /\ UNCHANGED <<cpu, obj>>

\* The accessors with the indices fs of view x
ReadSome(x, fs) ==
  /\ x \in DOMAIN vw /\ vw[x].t # "iter"
  /\ out' = Values(vw[x], fs, M)
  /\ UNCHANGED <<cpu, obj, vw>>
Read(x) == ReadSome(x, AllFields(vw[x].t))

Sub(x, q, y) ==
  /\ x \in DOMAIN vw /\ q \in QueriesOf(vw[x])
  /\ IF SubPresent(vw[x], q)
     THEN LET d == SubQueries[vw[x].t][q]
          IN  /\ vw' = Put(vw, y, IF d.t = "iter" THEN SubIter(vw[x], q)
                                  ELSE MkView(vw[x].o, d.t, Capture(M, d.slots)))
              /\ out' = Some
     ELSE vw' = Drop(vw, y) /\ out' = Nothing
  /\ UNCHANGED <<cpu, obj>>

\* Advance any iterator but the descriptor iterator
Next(x) ==
  /\ x \in DOMAIN vw /\ vw[x].t = "iter" /\ vw[x].k # "desc"
  /\ LET it == vw[x]
         p  == Seek(it, M, it.pos)
     IN  IF p = -1 THEN out' = None /\ vw' = [vw EXCEPT ![x].ended = TRUE]
         ELSE /\ out' = AllValues(Item(it, M, p), M)
              /\ vw' = [vw EXCEPT ![x].pos = p + 1]
  /\ UNCHANGED <<cpu, obj>>

\* An iterator after n steps, and how many of them reported an item
SX == INSTANCE SequencesExt

StepOf(a, m) ==
  LET p == Seek(a.it, m, a.it.pos)
  IN  IF p = -1 THEN [a EXCEPT !.it.ended = TRUE]
      ELSE [a EXCEPT !.it.pos = p + 1, !.items = @ + 1]
Advance(it, m, n) ==
  SX!FoldLeft(LAMBDA a, i : StepOf(a, m), [it |-> it, items |-> 0], [i \in 1..n |-> i])

\* Skip(x, n) is n times Next(x); the program only counts the items
Skip(x, n) ==
  /\ x \in DOMAIN vw /\ vw[x].t = "iter" /\ vw[x].k # "desc" /\ ~vw[x].ended
  /\ LET a == Advance(vw[x], M, n)
     IN  out' = << Num(a.items) >> /\ vw' = [vw EXCEPT ![x] = a.it]
  /\ UNCHANGED <<cpu, obj>>

\* Having reported its end, an iterator may keep to it on another CPU
NextEnded(x) ==
  /\ x \in DOMAIN vw /\ vw[x].t = "iter" /\ vw[x].ended
  /\ out' = None
  /\ UNCHANGED <<cpu, obj, vw>>

\* The descriptor iterator reports its bag in any order
NextDesc(x, d) ==
  /\ x \in DOMAIN vw /\ vw[x].t = "iter" /\ vw[x].k = "desc"
  /\ \E i \in 1..Len(vw[x].rest) : vw[x].rest[i] = d
  /\ out' = AllValues(DescItem(vw[x], d), M)
  /\ vw' = [vw EXCEPT ![x].rest = RemoveFirst(@, d)]
  /\ UNCHANGED <<cpu, obj>>
NextDescDone(x) ==
  /\ x \in DOMAIN vw /\ vw[x].t = "iter" /\ vw[x].k = "desc"
  /\ vw[x].rest = << >>
  /\ out' = None
  /\ UNCHANGED <<cpu, obj, vw>>

\* Next, and the item is kept in y
NextInto(x, y) ==
  /\ x \in DOMAIN vw /\ vw[x].t = "iter" /\ vw[x].k # "desc" /\ x # y
  /\ LET it == vw[x]
         p  == Seek(it, M, it.pos)
     IN  IF p = -1
         THEN out' = None /\ vw' = Drop([vw EXCEPT ![x].ended = TRUE], y)
         ELSE /\ out' = AllValues(Item(it, M, p), M)
              /\ vw' = Put([vw EXCEPT ![x].pos = p + 1], y, Item(it, M, p))
  /\ UNCHANGED <<cpu, obj>>
NextEndedInto(x, y) ==
  /\ x \in DOMAIN vw /\ vw[x].t = "iter" /\ vw[x].ended
  /\ out' = None /\ vw' = Drop(vw, y)
  /\ UNCHANGED <<cpu, obj>>
NextDescInto(x, d, y) ==
  /\ x \in DOMAIN vw /\ vw[x].t = "iter" /\ vw[x].k = "desc" /\ x # y
  /\ \E i \in 1..Len(vw[x].rest) : vw[x].rest[i] = d
  /\ out' = AllValues(DescItem(vw[x], d), M)
  /\ vw' = Put([vw EXCEPT ![x].rest = RemoveFirst(@, d)], y, DescItem(vw[x], d))
  /\ UNCHANGED <<cpu, obj>>
NextDescDoneInto(x, y) ==
  /\ x \in DOMAIN vw /\ vw[x].t = "iter" /\ vw[x].k = "desc" /\ vw[x].rest = << >>
  /\ out' = None /\ vw' = Drop(vw, y)
  /\ UNCHANGED <<cpu, obj>>

CloneIter(x, y) ==
  /\ x \in DOMAIN vw /\ vw[x].t = "iter"
  /\ vw' = Put(vw, y, vw[x])
  /\ out' = Some
  /\ UNCHANGED <<cpu, obj>>

\* The bare instruction, and whether all four registers are zero
Execute(leaf, sub) ==
  LET r == Regs(M, leaf, sub)
  IN  /\ out' = [i \in 1..4 |-> WNum(r[i])] \o
                << IF r = <<ZeroW, ZeroW, ZeroW, ZeroW>> THEN <<1>> ELSE <<0>> >>
      /\ UNCHANGED <<cpu, obj, vw>>

(* Other ways to use an iterator, on a copy of it: it stays as it is       *)

\* The items that an iterator has left, at most n + 1 of them
RECURSIVE Rest(_, _, _, _)
Rest(it, m, p, n) ==
  LET q == Seek(it, m, p)
  IN  IF q = -1 \/ n < 0 THEN << >>
      ELSE << Item(it, m, q) >> \o Rest(it, m, q + 1, n - 1)

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flatten(Tail(ss))

LeftUpTo(it, m, n) ==
  IF it.ended THEN << >>
  ELSE IF it.k = "desc" THEN [i \in 1..Len(it.rest) |-> DescItem(it, it.rest[i])]
  ELSE Rest(it, m, it.pos, n)
Left(it, m) == LeftUpTo(it, m, 1000)

\* What count(), last(), nth(n) and a fold over all items (also after nth(n))
\* return, and how many items n calls of next() return when it has ended.  The
\* order of descriptors is open.
Consumed(it, m, how, n) ==
  LET left == IF how = "nth" THEN LeftUpTo(it, m, n) ELSE Left(it, m)
  IN  CASE how = "count" -> << Num(Len(left)) >>
        [] how = "last"  -> IF left = << >> THEN None ELSE AllValues(left[Len(left)], m)
        [] how = "nth"   -> IF n >= Len(left) THEN None ELSE AllValues(left[n + 1], m)
        [] how = "after" -> Flatten([i \in 1..(IF n >= Len(left) THEN 0 ELSE Len(left) - n - 1)
                                     |-> AllValues(left[n + 1 + i], m)])
        [] how = "past"  -> << Num(0) >>
        [] how = "fold"  -> Flatten([i \in 1..Len(left) |-> AllValues(left[i], m)])
\* size_hint() brackets the number of items; 2000000 stands for no upper bound
HintOk(it, m, r) ==
  LET n == Len(Left(it, m))
  IN  Len(r) = 1 /\ Len(r[1]) = 2 /\ r[1][1] <= n /\ n <= r[1][2]

Peek(x, how, n) ==
  /\ x \in DOMAIN vw /\ vw[x].t = "iter"
  /\ how \in {"count", "last", "nth", "fold", "after", "past", "hint"}
  /\ how \in {"last", "nth", "fold", "after"} => vw[x].k # "desc"
  /\ out' = IF how = "hint" THEN Some ELSE Consumed(vw[x], M, how, n)
  /\ UNCHANGED <<cpu, obj, vw>>

----------------------------------------------------------------------------
(* What the library publishes apart from CPUs                              *)

\* The entry of the published descriptor table
Entry(h, d, x) ==
  /\ h \in DOMAIN obj
  /\ IF d \in Descriptors
     THEN vw' = Put(vw, x, DescItem([o |-> obj[h]], d)) /\ out' = Some
     ELSE vw' = Drop(vw, x) /\ out' = Nothing
  /\ UNCHANGED <<cpu, obj>>

\* The meaning of a number, and the number of a known meaning
Meaning(of, n) ==
  CASE of = "register" -> StateRegister(n)
    [] of = "level"    -> HierarchyLevel(n)
Convert(of, n) == out' = << Meaning(of, n) >> /\ UNCHANGED <<cpu, obj, vw>>

KnownKinds == [ cache |-> 0..3, topology |-> 0..5, dat |-> 0..5 ]
NumberOf(of, n) == /\ n \in KnownKinds[of]
                   /\ out' = << Num(n) >> /\ UNCHANGED <<cpu, obj, vw>>

----------------------------------------------------------------------------
Migrate(i) == /\ cpu' = i
              /\ out' = << >>
              /\ UNCHANGED <<obj, vw>>
=============================================================================
