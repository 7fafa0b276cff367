------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* What every accessor of every view means: which bits of which of the     *)
(* view's register words it reports.  Transcribed from the vendor manuals  *)
(* (Intel SDM vol. 2A CPUID; AMD APM vol. 3 appendix E), not from the      *)
(* implementation; where the crate's documented behaviour is narrower (AMD *)
(* only flags) that is modelled explicitly.                                *)
(*                                                                         *)
(* A view holds a flat sequence of words w: w[EAX] .. w[EDX] are the first *)
(* sub-leaf it covers, w[EAX1] .. w[EDX1] the second one.                  *)
(*                                                                         *)
(*   B(n, r, i)       flag: bit i of register r                            *)
(*   BA(n, r, i)      the same, but only ever true on an AMD CPU           *)
(*   N(n, r, lo, hi)  number: bits lo..hi                                  *)
(*   N1(n, r, lo, hi) number: bits lo..hi plus one                         *)
(*   W(n, r) W1(n, r) number: the whole register / plus one                *)
(*   A1(n, r, lo, hi) associativity, 8 bit encoding of the AMD L1 leaf     *)
(*   A2(n, r, lo, hi) associativity, 4 bit encoding of the other AMD leaves *)
(*   S(n)             special, defined in module Decode                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

EAX == 1   EBX == 2   ECX == 3   EDX == 4
EAX1 == 5  EBX1 == 6  ECX1 == 7  EDX1 == 8

LOCAL F(k, n, r, lo, hi) == [k |-> k, n |-> n, r |-> r, lo |-> lo, hi |-> hi]
B(n, r, i)       == F("bit",   n, r, i, i)
BA(n, r, i)       == F("amd",   n, r, i, i)
N(n, r, lo, hi)  == F("num",   n, r, lo, hi)
N1(n, r, lo, hi) == F("num1",  n, r, lo, hi)
W(n, r)          == F("word",  n, r, 0, 31)
W1(n, r)         == F("word1", n, r, 0, 31)
A1(n, r, lo, hi) == F("assoc1", n, r, lo, hi)
A2(n, r, lo, hi) == F("assoc2", n, r, lo, hi)
S(n)             == F("spec",  n, 0, 0, 0)

VendorInfoFields == <<
  S("as_str"),
  S("as_string")
>>

CacheInfoFields == <<
  S("num"),
  S("typ")
>>

ProcessorSerialFields == <<
  W("serial_lower", ECX1),
  W("serial_middle", EDX1),
  W("serial_upper", EAX),
  S("serial"),
  S("serial_all")
>>

FeatureInfoFields == <<
  N("extended_family_id", EAX, 20, 27),
  N("extended_model_id", EAX, 16, 19),
  N("base_family_id", EAX, 8, 11),
  N("base_model_id", EAX, 4, 7),
  S("family_id"),
  S("model_id"),
  N("stepping_id", EAX, 0, 3),
  N("brand_index", EBX, 0, 7),
  N("cflush_cache_line_size", EBX, 8, 15),
  N("initial_local_apic_id", EBX, 24, 31),
  N("max_logical_processor_ids", EBX, 16, 23),
  B("has_sse3", ECX, 0),
  B("has_pclmulqdq", ECX, 1),
  B("has_ds_area", ECX, 2),
  B("has_monitor_mwait", ECX, 3),
  B("has_cpl", ECX, 4),
  B("has_vmx", ECX, 5),
  B("has_smx", ECX, 6),
  B("has_eist", ECX, 7),
  B("has_tm2", ECX, 8),
  B("has_ssse3", ECX, 9),
  B("has_cnxtid", ECX, 10),
  B("has_fma", ECX, 12),
  B("has_cmpxchg16b", ECX, 13),
  B("has_pdcm", ECX, 15),
  B("has_pcid", ECX, 17),
  B("has_dca", ECX, 18),
  B("has_sse41", ECX, 19),
  B("has_sse42", ECX, 20),
  B("has_x2apic", ECX, 21),
  B("has_movbe", ECX, 22),
  B("has_popcnt", ECX, 23),
  B("has_tsc_deadline", ECX, 24),
  B("has_aesni", ECX, 25),
  B("has_xsave", ECX, 26),
  B("has_oxsave", ECX, 27),
  B("has_avx", ECX, 28),
  B("has_f16c", ECX, 29),
  B("has_rdrand", ECX, 30),
  B("has_hypervisor", ECX, 31),
  B("has_fpu", EDX, 0),
  B("has_vme", EDX, 1),
  B("has_de", EDX, 2),
  B("has_pse", EDX, 3),
  B("has_tsc", EDX, 4),
  B("has_msr", EDX, 5),
  B("has_pae", EDX, 6),
  B("has_mce", EDX, 7),
  B("has_cmpxchg8b", EDX, 8),
  B("has_apic", EDX, 9),
  B("has_sysenter_sysexit", EDX, 11),
  B("has_mtrr", EDX, 12),
  B("has_pge", EDX, 13),
  B("has_mca", EDX, 14),
  B("has_cmov", EDX, 15),
  B("has_pat", EDX, 16),
  B("has_pse36", EDX, 17),
  B("has_psn", EDX, 18),
  B("has_clflush", EDX, 19),
  B("has_ds", EDX, 21),
  B("has_acpi", EDX, 22),
  B("has_mmx", EDX, 23),
  B("has_fxsave_fxstor", EDX, 24),
  B("has_sse", EDX, 25),
  B("has_sse2", EDX, 26),
  B("has_ss", EDX, 27),
  B("has_htt", EDX, 28),
  B("has_tm", EDX, 29),
  B("has_pbe", EDX, 31)
>>

CacheParameterFields == <<
  S("cache_type"),
  N("level", EAX, 5, 7),
  B("is_self_initializing", EAX, 8),
  B("is_fully_associative", EAX, 9),
  N1("max_cores_for_cache", EAX, 14, 25),
  N1("max_cores_for_package", EAX, 26, 31),
  N1("coherency_line_size", EBX, 0, 11),
  N1("physical_line_partitions", EBX, 12, 21),
  N1("associativity", EBX, 22, 31),
  W1("sets", ECX),
  B("is_write_back_invalidate", EDX, 0),
  B("is_inclusive", EDX, 1),
  B("has_complex_indexing", EDX, 2)
>>

MonitorMwaitInfoFields == <<
  N("smallest_monitor_line", EAX, 0, 15),
  N("largest_monitor_line", EBX, 0, 15),
  B("extensions_supported", ECX, 0),
  B("interrupts_as_break_event", ECX, 1),
  N("supported_c0_states", EDX, 0, 3),
  N("supported_c1_states", EDX, 4, 7),
  N("supported_c2_states", EDX, 8, 11),
  N("supported_c3_states", EDX, 12, 15),
  N("supported_c4_states", EDX, 16, 19),
  N("supported_c5_states", EDX, 20, 23),
  N("supported_c6_states", EDX, 24, 27),
  N("supported_c7_states", EDX, 28, 31)
>>

ThermalPowerInfoFields == <<
  N("dts_irq_threshold", EBX, 0, 3),
  B("has_dts", EAX, 0),
  B("has_turbo_boost", EAX, 1),
  B("has_arat", EAX, 2),
  B("has_pln", EAX, 4),
  B("has_ecmd", EAX, 5),
  B("has_ptm", EAX, 6),
  B("has_hwp", EAX, 7),
  B("has_hwp_notification", EAX, 8),
  B("has_hwp_activity_window", EAX, 9),
  B("has_hwp_energy_performance_preference", EAX, 10),
  B("has_hwp_package_level_request", EAX, 11),
  B("has_hdc", EAX, 13),
  B("has_turbo_boost3", EAX, 14),
  B("has_hwp_capabilities", EAX, 15),
  B("has_hwp_peci_override", EAX, 16),
  B("has_flexible_hwp", EAX, 17),
  B("has_hwp_fast_access_mode", EAX, 18),
  B("has_ignore_idle_processor_hwp_request", EAX, 20),
  B("has_hw_coord_feedback", ECX, 0),
  B("has_energy_bias_pref", ECX, 3)
>>

ExtendedFeaturesFields == <<
  B("has_fsgsbase", EBX, 0),
  B("has_tsc_adjust_msr", EBX, 1),
  B("has_bmi1", EBX, 3),
  B("has_hle", EBX, 4),
  B("has_avx2", EBX, 5),
  B("has_fdp", EBX, 6),
  B("has_smep", EBX, 7),
  B("has_bmi2", EBX, 8),
  B("has_rep_movsb_stosb", EBX, 9),
  B("has_invpcid", EBX, 10),
  B("has_rtm", EBX, 11),
  B("has_rdtm", EBX, 12),
  B("has_fpu_cs_ds_deprecated", EBX, 13),
  B("has_mpx", EBX, 14),
  B("has_rdta", EBX, 15),
  B("has_rdseed", EBX, 18),
  B("has_adx", EBX, 19),
  B("has_smap", EBX, 20),
  B("has_clflushopt", EBX, 23),
  B("has_processor_trace", EBX, 25),
  B("has_sha", EBX, 29),
  B("has_sgx", EBX, 2),
  B("has_avx512f", EBX, 16),
  B("has_avx512dq", EBX, 17),
  B("has_avx512_ifma", EBX, 21),
  B("has_avx512pf", EBX, 26),
  B("has_avx512er", EBX, 27),
  B("has_avx512cd", EBX, 28),
  B("has_avx512bw", EBX, 30),
  B("has_avx512vl", EBX, 31),
  B("has_clwb", EBX, 24),
  B("has_prefetchwt1", ECX, 0),
  B("has_avx512vbmi", ECX, 1),
  B("has_umip", ECX, 2),
  B("has_pku", ECX, 3),
  B("has_ospke", ECX, 4),
  B("has_waitpkg", ECX, 5),
  B("has_av512vbmi2", ECX, 6),
  B("has_avx512vbmi2", ECX, 6),
  B("has_cet_ss", ECX, 7),
  B("has_gfni", ECX, 8),
  B("has_vaes", ECX, 9),
  B("has_vpclmulqdq", ECX, 10),
  B("has_avx512vnni", ECX, 11),
  B("has_avx512bitalg", ECX, 12),
  B("has_tme_en", ECX, 13),
  B("has_avx512vpopcntdq", ECX, 14),
  B("has_la57", ECX, 16),
  B("has_rdpid", ECX, 22),
  B("has_sgx_lc", ECX, 30),
  N("mawau_value", ECX, 17, 21),
  B("has_avx512_4vnniw", EDX, 2),
  B("has_avx512_4fmaps", EDX, 3),
  B("has_avx512_vp2intersect", EDX, 8),
  B("has_amx_bf16", EDX, 22),
  B("has_avx512_fp16", EDX, 23),
  B("has_amx_tile", EDX, 24),
  B("has_amx_int8", EDX, 25),
  B("has_avx_vnni", EAX1, 4),
  B("has_avx512_bf16", EAX1, 5),
  B("has_fzrm", EAX1, 10),
  B("has_fsrs", EAX1, 11),
  B("has_fsrcrs", EAX1, 12),
  B("has_hreset", EAX1, 22),
  B("has_avx_ifma", EAX1, 23),
  B("has_lam", EAX1, 26),
  B("has_msrlist", EAX1, 27),
  B("has_invd_disable_post_bios_done", EAX1, 30),
  B("has_avx_vnni_int8", EDX1, 4),
  B("has_avx_ne_convert", EDX1, 5),
  B("has_avx_vnni_int16", EDX1, 10),
  B("has_prefetchi", EDX1, 14),
  B("has_uiret_uif", EDX1, 17),
  B("has_cet_sss", EDX1, 18),
  B("has_avx10", EDX1, 19)
>>

DirectCacheAccessInfoFields == <<
  W("get_dca_cap_value", EAX)
>>

PerformanceMonitoringInfoFields == <<
  N("version_id", EAX, 0, 7),
  N("number_of_counters", EAX, 8, 15),
  N("counter_bit_width", EAX, 16, 23),
  N("ebx_length", EAX, 24, 31),
  N("fixed_function_counters", EDX, 0, 4),
  N("fixed_function_counters_bit_width", EDX, 5, 12),
  B("has_any_thread_deprecation", EDX, 15),
  B("is_core_cyc_ev_unavailable", EBX, 0),
  B("is_inst_ret_ev_unavailable", EBX, 1),
  B("is_ref_cycle_ev_unavailable", EBX, 2),
  B("is_cache_ref_ev_unavailable", EBX, 3),
  B("is_ll_cache_miss_ev_unavailable", EBX, 4),
  B("is_branch_inst_ret_ev_unavailable", EBX, 5),
  B("is_branch_midpred_ev_unavailable", EBX, 6)
>>

ExtendedTopologyLevelFields == <<
  N("processors", EBX, 0, 15),
  N("level_number", ECX, 0, 7),
  S("level_type"),
  W("x2apic_id", EDX),
  N("shift_right_for_next_apic_id", EAX, 0, 4)
>>

ExtendedStateInfoFields == <<
  B("xcr0_supports_legacy_x87", EAX, 0),
  B("xcr0_supports_sse_128", EAX, 1),
  B("xcr0_supports_avx_256", EAX, 2),
  B("xcr0_supports_mpx_bndregs", EAX, 3),
  B("xcr0_supports_mpx_bndcsr", EAX, 4),
  B("xcr0_supports_avx512_opmask", EAX, 5),
  B("xcr0_supports_avx512_zmm_hi256", EAX, 6),
  B("xcr0_supports_avx512_zmm_hi16", EAX, 7),
  B("xcr0_supports_pkru", EAX, 9),
  B("ia32_xss_supports_pt", ECX1, 8),
  B("ia32_xss_supports_hdc", ECX1, 13),
  W("xsave_area_size_enabled_features", EBX),
  W("xsave_area_size_supported_features", ECX),
  B("has_xsaveopt", EAX1, 0),
  B("has_xsavec", EAX1, 1),
  B("has_xgetbv", EAX1, 2),
  B("has_xsaves_xrstors", EAX1, 3),
  W("xsave_size", EBX1)
>>

ExtendedStateFields == <<
  S("register"),
  W("size", EAX),
  W("offset", EBX),
  S("location"),
  B("is_in_ia32_xss", ECX, 0),
  S("is_in_xcr0"),
  B("is_compacted_format", ECX, 1)
>>

RdtMonitoringInfoFields == <<
  W("rmid_range", EBX),
  B("has_l3_monitoring", EDX, 1)
>>

L3MonitoringInfoFields == <<
  W("conversion_factor", EBX),
  W("maximum_rmid_range", ECX),
  B("has_occupancy_monitoring", EDX, 0),
  B("has_total_bandwidth_monitoring", EDX, 1),
  B("has_local_bandwidth_monitoring", EDX, 2)
>>

RdtAllocationInfoFields == <<
  B("has_l3_cat", EBX, 1),
  B("has_l2_cat", EBX, 2),
  B("has_memory_bandwidth_allocation", EBX, 3)
>>

L3CatInfoFields == <<
  N1("capacity_mask_length", EAX, 0, 4),
  W("isolation_bitmap", EBX),
  N("highest_cos", EDX, 0, 15),
  B("has_code_data_prioritization", ECX, 2)
>>

L2CatInfoFields == <<
  N1("capacity_mask_length", EAX, 0, 4),
  W("isolation_bitmap", EBX),
  N("highest_cos", EDX, 0, 15)
>>

MemBwAllocationInfoFields == <<
  N1("max_hba_throttling", EAX, 0, 11),
  N("highest_cos", EDX, 0, 15),
  B("has_linear_response_delay", ECX, 2)
>>

SgxInfoFields == <<
  B("has_sgx1", EAX, 0),
  B("has_sgx2", EAX, 1),
  B("has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext", EAX, 5),
  B("has_encls_leaves_etrackc_erdinfo_eldbc_elduc", EAX, 6),
  W("miscselect", EBX),
  N("max_enclave_size_non_64bit", EDX, 0, 7),
  N("max_enclave_size_64bit", EDX, 8, 15),
  S("secs_attributes_lower"),
  S("secs_attributes_upper")
>>

EpcSectionFields == <<
  S("physical_base"),
  S("size")
>>

ProcessorTraceInfoFields == <<
  B("has_rtit_cr3_match", EBX, 0),
  B("has_configurable_psb_and_cycle_accurate_mode", EBX, 1),
  B("has_ip_tracestop_filtering", EBX, 2),
  B("has_mtc_timing_packet_coefi_suppression", EBX, 3),
  B("has_ptwrite", EBX, 4),
  B("has_power_event_trace", EBX, 5),
  B("has_topa", ECX, 0),
  B("has_topa_maximum_entries", ECX, 1),
  B("has_single_range_output_scheme", ECX, 2),
  B("has_trace_transport_subsystem", ECX, 3),
  B("has_lip_with_cs_base", ECX, 31),
  N("configurable_address_ranges", EAX1, 0, 2),
  N("supported_mtc_period_encodings", EAX1, 16, 31),
  N("supported_cycle_threshold_value_encodings", EBX1, 0, 15),
  N("supported_psb_frequency_encodings", EBX1, 16, 31)
>>

TscInfoFields == <<
  W("denominator", EAX),
  W("numerator", EBX),
  W("nominal_frequency", ECX),
  S("tsc_frequency")
>>

ProcessorFrequencyInfoFields == <<
  N("processor_base_frequency", EAX, 0, 15),
  N("processor_max_frequency", EBX, 0, 15),
  N("bus_frequency", ECX, 0, 15)
>>

DatInfoFields == <<
  B("has_4k_entries", EBX, 0),
  B("has_2mb_entries", EBX, 1),
  B("has_4mb_entries", EBX, 2),
  B("has_1gb_entries", EBX, 3),
  B("is_fully_associative", EDX, 8),
  N("partitioning", EBX, 8, 10),
  N("ways", EBX, 16, 31),
  W("sets", ECX),
  S("cache_type"),
  N("cache_level", EDX, 5, 7),
  N1("max_addressable_ids", EDX, 14, 25)
>>

SoCVendorInfoFields == <<
  N("get_soc_vendor_id", EBX, 0, 15),
  W("get_project_id", ECX),
  W("get_stepping_id", EDX)
>>

SoCVendorBrandFields == <<
  S("as_str"),
  S("as_string")
>>

HypervisorInfoFields == <<
  S("identify"),
  S("tsc_frequency"),
  S("apic_frequency")
>>

ExtendedProcessorFeatureIdentifiersFields == <<
  W("extended_signature", EAX),
  N("pkg_type", EBX, 28, 31),
  N("brand_id", EBX, 0, 15),
  B("has_lahf_sahf", ECX, 0),
  BA("has_cmp_legacy", ECX, 1),
  BA("has_svm", ECX, 2),
  BA("has_ext_apic_space", ECX, 3),
  BA("has_alt_mov_cr8", ECX, 4),
  B("has_lzcnt", ECX, 5),
  BA("has_sse4a", ECX, 6),
  BA("has_misaligned_sse_mode", ECX, 7),
  B("has_prefetchw", ECX, 8),
  BA("has_osvw", ECX, 9),
  BA("has_ibs", ECX, 10),
  BA("has_xop", ECX, 11),
  BA("has_skinit", ECX, 12),
  BA("has_wdt", ECX, 13),
  BA("has_lwp", ECX, 15),
  BA("has_fma4", ECX, 16),
  BA("has_tbm", ECX, 21),
  BA("has_topology_extensions", ECX, 22),
  BA("has_perf_cntr_extensions", ECX, 23),
  BA("has_nb_perf_cntr_extensions", ECX, 24),
  BA("has_data_access_bkpt_extension", ECX, 26),
  BA("has_perf_tsc", ECX, 27),
  BA("has_perf_cntr_llc_extensions", ECX, 28),
  BA("has_monitorx_mwaitx", ECX, 29),
  BA("has_addr_mask_extension", ECX, 30),
  B("has_syscall_sysret", EDX, 11),
  B("has_execute_disable", EDX, 20),
  BA("has_mmx_extensions", EDX, 22),
  BA("has_fast_fxsave_fxstor", EDX, 25),
  B("has_1gib_pages", EDX, 26),
  B("has_rdtscp", EDX, 27),
  B("has_64bit_mode", EDX, 29),
  BA("has_amd_3dnow_extensions", EDX, 30),
  BA("has_3dnow", EDX, 31)
>>

ProcessorBrandStringFields == <<
  S("as_str")
>>

L1CacheTlbInfoFields == <<
  A1("dtlb_2m_4m_associativity", EAX, 24, 31),
  N("dtlb_2m_4m_size", EAX, 16, 23),
  A1("itlb_2m_4m_associativity", EAX, 8, 15),
  N("itlb_2m_4m_size", EAX, 0, 7),
  A1("dtlb_4k_associativity", EBX, 24, 31),
  N("dtlb_4k_size", EBX, 16, 23),
  A1("itlb_4k_associativity", EBX, 8, 15),
  N("itlb_4k_size", EBX, 0, 7),
  N("dcache_size", ECX, 24, 31),
  A1("dcache_associativity", ECX, 16, 23),
  N("dcache_lines_per_tag", ECX, 8, 15),
  N("dcache_line_size", ECX, 0, 7),
  N("icache_size", EDX, 24, 31),
  A1("icache_associativity", EDX, 16, 23),
  N("icache_lines_per_tag", EDX, 8, 15),
  N("icache_line_size", EDX, 0, 7)
>>

L2And3CacheTlbInfoFields == <<
  A2("dtlb_2m_4m_associativity", EAX, 28, 31),
  N("dtlb_2m_4m_size", EAX, 16, 27),
  A2("itlb_2m_4m_associativity", EAX, 12, 15),
  N("itlb_2m_4m_size", EAX, 0, 11),
  A2("dtlb_4k_associativity", EBX, 28, 31),
  N("dtlb_4k_size", EBX, 16, 27),
  A2("itlb_4k_associativity", EBX, 12, 15),
  N("itlb_4k_size", EBX, 0, 11),
  N("l2cache_line_size", ECX, 0, 7),
  N("l2cache_lines_per_tag", ECX, 8, 11),
  A2("l2cache_associativity", ECX, 12, 15),
  N("l2cache_size", ECX, 16, 31),
  N("l3cache_line_size", EDX, 0, 7),
  N("l3cache_lines_per_tag", EDX, 8, 11),
  A2("l3cache_associativity", EDX, 12, 15),
  N("l3cache_size", EDX, 18, 31)
>>

ApmInfoFields == <<
  B("has_mca_overflow_recovery", EBX, 0),
  B("has_succor", EBX, 1),
  B("has_hwa", EBX, 2),
  W("cpu_pwr_sample_time_ratio", ECX),
  B("has_ts", EDX, 0),
  B("has_freq_id_ctrl", EDX, 1),
  B("has_volt_id_ctrl", EDX, 2),
  B("has_thermtrip", EDX, 3),
  B("has_tm", EDX, 4),
  B("has_100mhz_steps", EDX, 6),
  B("has_hw_pstate", EDX, 7),
  B("has_invariant_tsc", EDX, 8),
  B("has_cpb", EDX, 9),
  B("has_ro_effective_freq_iface", EDX, 10),
  B("has_feedback_iface", EDX, 11),
  B("has_power_reporting_iface", EDX, 12)
>>

ProcessorCapacityAndFeatureInfoFields == <<
  N("physical_address_bits", EAX, 0, 7),
  N("linear_address_bits", EAX, 8, 15),
  N("guest_physical_address_bits", EAX, 16, 23),
  B("has_cl_zero", EBX, 0),
  B("has_inst_ret_cntr_msr", EBX, 1),
  B("has_restore_fp_error_ptrs", EBX, 2),
  B("has_invlpgb", EBX, 3),
  B("has_rdpru", EBX, 4),
  B("has_mcommit", EBX, 8),
  B("has_wbnoinvd", EBX, 9),
  B("has_int_wbinvd", EBX, 13),
  B("has_unsupported_efer_lmsle", EBX, 20),
  B("has_invlpgb_nested", EBX, 21),
  S("perf_tsc_size"),
  N("apic_id_size", ECX, 12, 15),
  S("maximum_logical_processors"),
  N1("num_phys_threads", ECX, 0, 7),
  N("invlpgb_max_pages", EDX, 0, 15),
  N("max_rdpru_id", EDX, 16, 31)
>>

SvmFeaturesFields == <<
  N("revision", EAX, 0, 7),
  W("supported_asids", EBX),
  B("has_nested_paging", EDX, 0),
  B("has_lbr_virtualization", EDX, 1),
  B("has_svm_lock", EDX, 2),
  B("has_nrip", EDX, 3),
  B("has_tsc_rate_msr", EDX, 4),
  B("has_vmcb_clean_bits", EDX, 5),
  B("has_flush_by_asid", EDX, 6),
  B("has_decode_assists", EDX, 7),
  B("has_pause_filter", EDX, 10),
  B("has_pause_filter_threshold", EDX, 12),
  B("has_avic", EDX, 13),
  B("has_vmsave_virtualization", EDX, 15),
  B("has_gif", EDX, 16),
  B("has_gmet", EDX, 17),
  B("has_sss_check", EDX, 19),
  B("has_spec_ctrl", EDX, 20),
  B("has_host_mce_override", EDX, 23),
  B("has_tlb_ctrl", EDX, 24)
>>

Tlb1gbPageInfoFields == <<
  A2("dtlb_l1_1gb_associativity", EAX, 28, 31),
  N("dtlb_l1_1gb_size", EAX, 16, 27),
  A2("itlb_l1_1gb_associativity", EAX, 12, 15),
  N("itlb_l1_1gb_size", EAX, 0, 11),
  A2("dtlb_l2_1gb_associativity", EBX, 28, 31),
  N("dtlb_l2_1gb_size", EBX, 16, 27),
  A2("itlb_l2_1gb_associativity", EBX, 12, 15),
  N("itlb_l2_1gb_size", EBX, 0, 11)
>>

PerformanceOptimizationInfoFields == <<
  B("has_fp128", EAX, 0),
  B("has_movu", EAX, 1),
  B("has_fp256", EAX, 2)
>>

InstructionBasedSamplingCapabilitiesFields == <<
  B("has_feature_flags", EAX, 0),
  B("has_fetch_sampling", EAX, 1),
  B("has_execution_sampling", EAX, 2),
  B("has_read_write_operation_counter", EAX, 3),
  B("has_operation_counter", EAX, 4),
  B("has_branch_target_address_reporting", EAX, 5),
  B("has_operation_counter_extended", EAX, 6),
  B("has_invalid_rip_indication", EAX, 7),
  B("has_fused_branch_micro_op_indication", EAX, 8),
  B("has_l3_miss_filtering", EAX, 11)
>>

ProcessorTopologyInfoFields == <<
  W("x2apic_id", EAX),
  N("core_id", EBX, 0, 7),
  N1("threads_per_core", EBX, 8, 15),
  N("node_id", ECX, 0, 7),
  N1("nodes_per_processor", ECX, 8, 10)
>>

MemoryEncryptionInfoFields == <<
  B("has_sme", EAX, 0),
  B("has_sev", EAX, 1),
  B("has_page_flush_msr", EAX, 2),
  B("has_sev_es", EAX, 3),
  B("has_sev_snp", EAX, 4),
  B("has_vmpl", EAX, 5),
  B("has_hw_enforced_cache_coh", EAX, 10),
  B("has_64bit_mode", EAX, 11),
  B("has_restricted_injection", EAX, 12),
  B("has_alternate_injection", EAX, 13),
  B("has_debug_swap", EAX, 14),
  B("has_prevent_host_ibs", EAX, 15),
  B("has_vte", EAX, 16),
  N("c_bit_position", EBX, 0, 5),
  N("physical_address_reduction", EBX, 6, 11),
  W("max_encrypted_guests", ECX),
  W("min_sev_no_es_asid", EDX)
>>

PqosExtendedFeatureInfoFields == <<
  B("has_l3mbe", EBX, 1),
  B("has_l3smbe", EBX, 2),
  B("has_bmec", EBX, 3),
  B("has_l3rr", EBX, 4),
  B("has_abmc", EBX, 5),
  B("has_sdciae", EBX, 6)
>>

L3MemoryBandwidthEnforcementInformationFields == <<
  W("bandwidth_length", EAX),
  W("cos_max", EDX)
>>

BandwidthMonitoringEventCountersFields == <<
  N("number_events", EBX, 0, 7),
  B("has_l3_cache_lcl_bw_fill_mon", ECX, 0),
  B("has_l3_cache_rmt_bw_fill_mon", ECX, 1),
  B("has_l3_cache_lcl_bw_nt_wr_mon", ECX, 2),
  B("has_l3_cache_rmt_bw_nt_wr_mon", ECX, 3),
  B("has_l3_cache_lcl_slow_bw_fill_mon", ECX, 4),
  B("has_l3_cache_rmt_slow_bw_fill_mon", ECX, 5),
  B("has_l3_cache_vic_mon", ECX, 6)
>>

AssignableBandwidthMonitoringCounterInfoFields == <<
  N("counter_size", EAX, 0, 7),
  B("has_overflow_bit", EAX, 8),
  N("max_abmc", EBX, 0, 15),
  B("has_select_cos", ECX, 0)
>>

ExtendedFeatureIdentification2Fields == <<
  B("has_no_nested_data_bp", EAX, 0),
  B("has_lfence_always_serializing", EAX, 2),
  B("has_smm_pg_cfg_lock", EAX, 3),
  B("has_null_select_clears_base", EAX, 6),
  B("has_upper_address_ignore", EAX, 7),
  B("has_automatic_ibrs", EAX, 8),
  B("has_no_smm_ctl_msr", EAX, 9),
  B("has_prefetch_ctl_msr", EAX, 13),
  B("has_cpuid_user_dis", EAX, 17),
  N("microcode_patch_size", EBX, 0, 11)
>>

ExtendedPerformanceMonitoringDebugFields == <<
  B("has_perf_mon_v2", EAX, 0),
  B("has_lbr_stack", EAX, 1),
  B("has_lbr_and_pmc_freeze", EAX, 2),
  N("num_perf_ctr_core", EBX, 0, 3),
  N("num_lbr_stack_size", EBX, 4, 9),
  N("num_perf_ctr_nb", EBX, 10, 15)
>>

MultiKeyEncryptedMemoryCapabilitiesFields == <<
  B("has_mem_hmk", EAX, 0),
  N("max_mem_hmk_encr_key_id", EBX, 0, 15)
>>

ExtendedCpuTopologyLevelFields == <<
  N("mask_width", EAX, 0, 4),
  B("has_efficiency_ranking_available", EAX, 29),
  B("has_heterogeneous_cores", EAX, 30),
  B("has_asymmetric_topology", EAX, 31),
  N("num_logical_processors", EBX, 0, 15),
  N("pwr_efficiency_ranking", EBX, 16, 23),
  N("native_mode_id", EBX, 24, 27),
  N("core_type", EBX, 28, 31),
  N("input_ecx", ECX, 0, 7),
  S("level_type"),
  W("extended_apic_id", EDX)
>>

CpuIdRawFields == <<
  W("eax", EAX),
  W("ebx", EBX),
  W("ecx", ECX),
  W("edx", EDX)
>>

FieldsOf == [
  VendorInfo |-> VendorInfoFields,
  CacheInfo |-> CacheInfoFields,
  ProcessorSerial |-> ProcessorSerialFields,
  FeatureInfo |-> FeatureInfoFields,
  CacheParameter |-> CacheParameterFields,
  MonitorMwaitInfo |-> MonitorMwaitInfoFields,
  ThermalPowerInfo |-> ThermalPowerInfoFields,
  ExtendedFeatures |-> ExtendedFeaturesFields,
  DirectCacheAccessInfo |-> DirectCacheAccessInfoFields,
  PerformanceMonitoringInfo |-> PerformanceMonitoringInfoFields,
  ExtendedTopologyLevel |-> ExtendedTopologyLevelFields,
  ExtendedStateInfo |-> ExtendedStateInfoFields,
  ExtendedState |-> ExtendedStateFields,
  RdtMonitoringInfo |-> RdtMonitoringInfoFields,
  L3MonitoringInfo |-> L3MonitoringInfoFields,
  RdtAllocationInfo |-> RdtAllocationInfoFields,
  L3CatInfo |-> L3CatInfoFields,
  L2CatInfo |-> L2CatInfoFields,
  MemBwAllocationInfo |-> MemBwAllocationInfoFields,
  SgxInfo |-> SgxInfoFields,
  EpcSection |-> EpcSectionFields,
  ProcessorTraceInfo |-> ProcessorTraceInfoFields,
  TscInfo |-> TscInfoFields,
  ProcessorFrequencyInfo |-> ProcessorFrequencyInfoFields,
  DatInfo |-> DatInfoFields,
  SoCVendorInfo |-> SoCVendorInfoFields,
  SoCVendorBrand |-> SoCVendorBrandFields,
  HypervisorInfo |-> HypervisorInfoFields,
  ExtendedProcessorFeatureIdentifiers |-> ExtendedProcessorFeatureIdentifiersFields,
  ProcessorBrandString |-> ProcessorBrandStringFields,
  L1CacheTlbInfo |-> L1CacheTlbInfoFields,
  L2And3CacheTlbInfo |-> L2And3CacheTlbInfoFields,
  ApmInfo |-> ApmInfoFields,
  ProcessorCapacityAndFeatureInfo |-> ProcessorCapacityAndFeatureInfoFields,
  SvmFeatures |-> SvmFeaturesFields,
  Tlb1gbPageInfo |-> Tlb1gbPageInfoFields,
  PerformanceOptimizationInfo |-> PerformanceOptimizationInfoFields,
  InstructionBasedSamplingCapabilities |-> InstructionBasedSamplingCapabilitiesFields,
  ProcessorTopologyInfo |-> ProcessorTopologyInfoFields,
  MemoryEncryptionInfo |-> MemoryEncryptionInfoFields,
  PqosExtendedFeatureInfo |-> PqosExtendedFeatureInfoFields,
  L3MemoryBandwidthEnforcementInformation |-> L3MemoryBandwidthEnforcementInformationFields,
  BandwidthMonitoringEventCounters |-> BandwidthMonitoringEventCountersFields,
  AssignableBandwidthMonitoringCounterInfo |-> AssignableBandwidthMonitoringCounterInfoFields,
  ExtendedFeatureIdentification2 |-> ExtendedFeatureIdentification2Fields,
  ExtendedPerformanceMonitoringDebug |-> ExtendedPerformanceMonitoringDebugFields,
  MultiKeyEncryptedMemoryCapabilities |-> MultiKeyEncryptedMemoryCapabilitiesFields,
  ExtendedCpuTopologyLevel |-> ExtendedCpuTopologyLevelFields,
  CpuIdRaw |-> CpuIdRawFields
]

=============================================================================
