------------------------------- MODULE MC_Gate -------------------------------
(***************************************************************************)
(* The gating rules of the getters, over every combination of vendor,      *)
(* advertised ranges and condition bits, restated independently:           *)
(* a table of the smallest ranges and the condition every getter needs.    *)
(* Also: a getter that answers stays within the advertised leaves, and     *)
(* raising a limit never takes an answer away.                             *)
(***************************************************************************)
EXTENDS Integers
CONSTANT Steps        \* "edges": the limits around the leaves; "all": every one
VARIABLES cpu, obj, vw, out
Mach(p) == p          \* the state holds the register table itself
INSTANCE CpuId WITH Machine <- Mach

HL(h, l) == <<l, h>>
Basic == {HL(0, n) : n \in 0..35} \cup {HL(16384, 0), HL(16384, 16), HL(32767, 65535),
         HL(32768, 0), HL(32768, 8), HL(65535, 65535), HL(0, 65535), HL(1, 0)}
Ext   == {HL(32768, n) : n \in 0..41} \cup {HL(0, 0), HL(0, 13), HL(32767, 65535),
         HL(32768, 65535), HL(40960, 0), HL(65535, 65535), HL(0, 65535), HL(16384, 0)}
Few   == {0, 1, 3, 4, 7, 9, 10, 13, 18, 24, 29, 31, 38, 65535}
Pick(ws) == IF Steps = "all" THEN ws ELSE {w \in ws : w[1] \in Few}

Name(v) == CASE v = "Intel" -> GenuineIntel [] v = "Amd" -> AuthenticAMD
             [] v = "Hygon" -> HygonGenuine
             [] OTHER -> [GenuineIntel EXCEPT ![12] = 0]
Pair(s, i) == <<s[i] + 256 * s[i + 1], s[i + 2] + 256 * s[i + 3]>>
Row(eax, ebx, ecx, edx) == << eax \o ebx \o ecx \o edx >>

AllConds == [hv : BOOLEAN, hvmax : {ZeroW, HL(16384, 0), HL(16384, 16)}, sgx : BOOLEAN, svm : BOOLEAN]
\* All of them, or all set, none set and each alone unset
Conds == IF Steps = "all" THEN AllConds
         ELSE LET top == [hv |-> TRUE, hvmax |-> HL(16384, 16), sgx |-> TRUE, svm |-> TRUE]
              IN  {top, [hv |-> FALSE, hvmax |-> ZeroW, sgx |-> FALSE, svm |-> FALSE],
                   [top EXCEPT !.hv = FALSE], [top EXCEPT !.hvmax = ZeroW],
                   [top EXCEPT !.sgx = FALSE], [top EXCEPT !.svm = FALSE]}
Table(v, b, e, k) ==
  [ L0 |-> Row(b, Pair(Name(v), 1), Pair(Name(v), 9), Pair(Name(v), 5)),
    L1 |-> Row(ZeroW, ZeroW, IF k.hv THEN <<0, 32768>> ELSE <<65535, 32767>>, ZeroW),
    L7 |-> Row(ZeroW, IF k.sgx THEN <<4, 0>> ELSE <<65531, 65535>>, ZeroW, ZeroW),
    L40000000 |-> Row(k.hvmax, ZeroW, ZeroW, ZeroW),
    L80000000 |-> Row(e, ZeroW, ZeroW, ZeroW),
    L80000001 |-> Row(ZeroW, ZeroW, IF k.svm THEN <<4, 0>> ELSE <<65531, 65535>>, ZeroW) ]

VARIABLES v, b, e, k
gvars == <<v, b, e, k, cpu, obj, vw, out>>
T == Table(v, b, e, k)

GateInit == /\ v \in {"Intel", "Amd", "Hygon", "Other"}
            /\ b = HL(0, 0) /\ e = HL(0, 0)
            /\ k \in Conds
            /\ cpu = T /\ obj = <<Latch(cpu)>> /\ vw = << >> /\ out = << >>
\* A CPU that advertises a little more, all else unchanged
Above(w, ws) == {x \in ws : WLt(w, x) /\ \A y \in ws : WLt(w, y) => WLeq(x, y)}
GateNext == /\ \/ b' \in Above(b, Pick(Basic)) /\ e' = e
               \/ e' \in Above(e, Pick(Ext)) /\ b' = b
            /\ UNCHANGED <<v, k, vw, out>>
            /\ cpu' = T' /\ obj' = <<Latch(cpu')>>

O == obj[1]
Answers == {g \in Getters : Present(O, cpu, g)}

----------------------------------------------------------------------------
(* The independent restatement: <<getter, smallest basic, smallest         *)
(* extended range>>, -1 if the range does not matter                       *)

Needs == {
  <<"vendor_info", 0, -1>>, <<"feature_info", 1, -1>>, <<"cache_info", 2, -1>>,
  <<"processor_serial", 3, -1>>, <<"monitor_mwait_info", 5, -1>>,
  <<"thermal_power_info", 6, -1>>, <<"extended_feature_info", 7, -1>>,
  <<"direct_cache_access_info", 9, -1>>, <<"performance_monitoring_info", 10, -1>>,
  <<"extended_topology_info", 11, -1>>, <<"extended_state_info", 13, -1>>,
  <<"rdt_monitoring_info", 15, -1>>, <<"rdt_allocation_info", 16, -1>>,
  <<"sgx_info", 18, -1>>, <<"processor_trace_info", 20, -1>>, <<"tsc_info", 21, -1>>,
  <<"processor_frequency_info", 22, -1>>, <<"soc_vendor_info", 23, -1>>,
  <<"deterministic_address_translation_info", 24, -1>>,
  <<"extended_topology_info_v2", 31, -1>>, <<"hypervisor_info", 1, -1>>,
  <<"extended_processor_and_feature_identifiers", -1, 1>>,
  <<"processor_brand_string", -1, 4>>, <<"l1_cache_and_tlb_info", -1, 5>>,
  <<"l2_l3_cache_and_tlb_info", -1, 6>>, <<"advanced_power_mgmt_info", -1, 7>>,
  <<"processor_capacity_feature_info", -1, 8>>, <<"svm_info", -1, 10>>,
  <<"tlb_1gb_page_info", -1, 25>>, <<"performance_optimization_info", -1, 26>>,
  <<"instruction_based_sampling_capabilities", -1, 27>>,
  <<"processor_topology_info", -1, 30>>, <<"memory_encryption_info", -1, 31>>,
  <<"pqos_extended_feature_info", -1, 32>>, <<"extended_feature_identification_2", -1, 33>>,
  <<"extended_performance_monitoring_and_debug", -1, 34>>,
  <<"multi_key_encrypted_memory_capabilities", -1, 35>>, <<"extended_cpu_topology", -1, 38>> }
ASSUME {n[1] : n \in Needs} = Getters \ {"cache_parameters"}

IsAmd == v \in {"Amd", "Hygon"}
AmdHides == {"cache_info", "processor_serial", "direct_cache_access_info",
             "performance_monitoring_info"}
AmdOnly  == {"svm_info", "l1_cache_and_tlb_info"}
ByTable ==
  {n[1] : n \in {x \in Needs :
     /\ x[2] # -1 => WLeq(<<x[2], 0>>, b)
     /\ x[3] # -1 => WLeq(<<x[3], 32768>>, e)
     /\ x[1] \in AmdHides => ~IsAmd
     /\ x[1] \in AmdOnly => IsAmd
     /\ x[1] = "sgx_info" => k.sgx
     /\ x[1] = "svm_info" => k.svm
     /\ x[1] = "hypervisor_info" => k.hv /\ k.hvmax # ZeroW}}
  \cup (IF \/ ~IsAmd /\ WLeq(<<4, 0>>, b)
           \/ IsAmd /\ WLeq(<<29, 32768>>, e)
        THEN {"cache_parameters"} ELSE {})

Exact == \A known \in {Answers} : known = ByTable

\* What a getter that answers captures may be read
Within == \A g \in Answers :
  IF g \in DOMAIN ViewGetters
  THEN \A i \in 1..Len(ViewGetters[g].slots) :
         LET l == LeafNum[ViewGetters[g].slots[i][1]]
         IN  /\ MayRead(O, cpu, l)
             /\ l[2] < 16384 => WLeq(l, b)
             /\ l[2] >= 32768 => (WLeq(l, e) \/ l = <<0, 32768>>)
  ELSE MayRead(O, cpu, LeafNum[NewIter(O, cpu, g).leaf])

\* The leaves the conditions look at may be read as well
Conditions == /\ "sgx_info" \in Answers => MayRead(O, cpu, <<7, 0>>)
              /\ "hypervisor_info" \in Answers => MayRead(O, cpu, <<1, 0>>)
              /\ "svm_info" \in Answers => MayRead(O, cpu, <<1, 32768>>)

\* Nothing else may: neither beyond the ranges nor what AMD reserves
NeverBeyond == \A w \in Pick(Basic) \cup Pick(Ext) :
  MayRead(O, cpu, w) =>
    CASE w \in {<<0, 0>>, <<0, 32768>>} -> TRUE
      [] w[2] < 16384 -> WLeq(w, b) /\ ~(IsAmd /\ w \in AmdReservedNum)
      [] w[2] = 16384 -> k.hv
      [] w[2] > 16384 /\ w[2] < 32768 -> WLeq(w, b)
      [] OTHER -> WLeq(w, e)

Monotone == [][Answers \subseteq Answers']_gvars
GateSpec == GateInit /\ [][GateNext]_gvars
=============================================================================
