------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What the display feature prints: the human readable report and the raw  *)
(* dump, as sequences of lines.  A line of the report is a sequence of     *)
(* cells: a title, a subtitle or a remark has one, a table row its label   *)
(* (preceded by a category in one table) and its value.                    *)
(*                                                                         *)
(*   T(text)        title, subtitle or remark                              *)
(*   A(label, n)    the value of accessor n as `label = value'             *)
(*   R(label, n)    table row                                              *)
(*   R3(c, l, n)    table row with a category                              *)
(* Names of accessors that start with $ are synthesised by the report.     *)
(***************************************************************************)
EXTENDS CpuId, Texts

LOCAL T(text)     == [k |-> "T", c |-> "", l |-> text, n |-> ""]
LOCAL A(l, n)     == [k |-> "A", c |-> "", l |-> l, n |-> n]
LOCAL R(l, n)     == [k |-> "R", c |-> "", l |-> l, n |-> n]
LOCAL R3(c, l, n) == [k |-> "R3", c |-> c, l |-> l, n |-> n]

\* The report's sections in order
Sections == <<
  "vendor_info", "feature_info", "cache_info", "processor_serial", "cache_parameters",
  "monitor_mwait_info", "thermal_power_info", "extended_feature_info",
  "direct_cache_access_info", "performance_monitoring_info", "extended_topology_info",
  "extended_state_info", "rdt_monitoring_info", "rdt_allocation_info", "sgx_info",
  "processor_trace_info", "tsc_info", "processor_frequency_info",
  "deterministic_address_translation_info", "soc_vendor_info", "processor_brand_string",
  "l1_cache_and_tlb_info", "l2_l3_cache_and_tlb_info", "advanced_power_mgmt_info",
  "processor_capacity_feature_info", "svm_info", "tlb_1gb_page_info",
  "performance_optimization_info", "instruction_based_sampling_capabilities",
  "processor_topology_info", "memory_encryption_info", "pqos_extended_feature_info",
  "extended_feature_identification_2", "extended_performance_monitoring_and_debug",
  "multi_key_encrypted_memory_capabilities", "extended_cpu_topology" >>

MainParts == [
  feature_info |-> <<
    T("version information (1/eax):"),
    R("base family", "base_family_id"),
    R("base model", "base_model_id"),
    R("stepping", "stepping_id"),
    R("extended family", "extended_family_id"),
    R("extended model", "extended_model_id"),
    R("family", "family_id"),
    R("model", "model_id"),
    T("miscellaneous (1/ebx):"),
    R("processor APIC physical id", "initial_local_apic_id"),
    R("max. cpus", "max_logical_processor_ids"),
    R("CLFLUSH line size", "cflush_cache_line_size"),
    R("brand index", "brand_index"),
    T("feature information (1/edx):"),
    R("fpu", "has_fpu"),
    R("vme", "has_vme"),
    R("de", "has_de"),
    R("pse", "has_pse"),
    R("tsc", "has_tsc"),
    R("msr", "has_msr"),
    R("pae", "has_pae"),
    R("mce", "has_mce"),
    R("cmpxchg8b", "has_cmpxchg8b"),
    R("apic", "has_apic"),
    R("sysenter_sysexit", "has_sysenter_sysexit"),
    R("mtrr", "has_mtrr"),
    R("pge", "has_pge"),
    R("mca", "has_mca"),
    R("cmov", "has_cmov"),
    R("pat", "has_pat"),
    R("pse36", "has_pse36"),
    R("psn", "has_psn"),
    R("clflush", "has_clflush"),
    R("ds", "has_ds"),
    R("acpi", "has_acpi"),
    R("mmx", "has_mmx"),
    R("fxsave_fxstor", "has_fxsave_fxstor"),
    R("sse", "has_sse"),
    R("sse2", "has_sse2"),
    R("ss", "has_ss"),
    R("htt", "has_htt"),
    R("tm", "has_tm"),
    R("pbe", "has_pbe"),
    T("feature information (1/ecx):"),
    R("sse3", "has_sse3"),
    R("pclmulqdq", "has_pclmulqdq"),
    R("ds_area", "has_ds_area"),
    R("monitor_mwait", "has_monitor_mwait"),
    R("cpl", "has_cpl"),
    R("vmx", "has_vmx"),
    R("smx", "has_smx"),
    R("eist", "has_eist"),
    R("tm2", "has_tm2"),
    R("ssse3", "has_ssse3"),
    R("cnxtid", "has_cnxtid"),
    R("fma", "has_fma"),
    R("cmpxchg16b", "has_cmpxchg16b"),
    R("pdcm", "has_pdcm"),
    R("pcid", "has_pcid"),
    R("dca", "has_dca"),
    R("sse41", "has_sse41"),
    R("sse42", "has_sse42"),
    R("x2apic", "has_x2apic"),
    R("movbe", "has_movbe"),
    R("popcnt", "has_popcnt"),
    R("tsc_deadline", "has_tsc_deadline"),
    R("aesni", "has_aesni"),
    R("xsave", "has_xsave"),
    R("oxsave", "has_oxsave"),
    R("avx", "has_avx"),
    R("f16c", "has_f16c"),
    R("rdrand", "has_rdrand"),
    R("hypervisor", "has_hypervisor") >>,
  cache_parameters |-> <<
    T("deterministic cache parameters (0x04):") >>,
  monitor_mwait_info |-> <<
    T("MONITOR/MWAIT (0x05):"),
    R("smallest monitor-line size", "smallest_monitor_line"),
    R("largest monitor-line size", "largest_monitor_line"),
    R("MONITOR/MWAIT exts", "extensions_supported"),
    R("Interrupts as break-event for MWAIT", "interrupts_as_break_event") >>,
  thermal_power_info |-> <<
    T("Thermal and Power Management Features (0x06):"),
    R("digital thermometer", "has_dts"),
    R("Intel Turbo Boost Technology", "has_turbo_boost"),
    R("ARAT always running APIC timer", "has_arat"),
    R("PLN power limit notification", "has_pln"),
    R("ECMD extended clock modulation duty", "has_ecmd"),
    R("PTM package thermal management", "has_ptm"),
    R("HWP base registers", "has_hwp"),
    R("HWP notification", "has_hwp_notification"),
    R("HWP activity window", "has_hwp_activity_window"),
    R("HWP energy performance preference", "has_hwp_energy_performance_preference"),
    R("HWP package level request", "has_hwp_package_level_request"),
    R("HDC base registers", "has_hdc"),
    R("Intel Turbo Boost Max Technology 3.0", "has_turbo_boost3"),
    R("HWP capabilities", "has_hwp_capabilities"),
    R("HWP PECI override", "has_hwp_peci_override"),
    R("flexible HWP", "has_flexible_hwp"),
    R("IA32_HWP_REQUEST MSR fast access mode", "has_hwp_fast_access_mode"),
    R("ignoring idle logical processor HWP req", "has_ignore_idle_processor_hwp_request"),
    R("digital thermometer threshold", "dts_irq_threshold"),
    R("hardware coordination feedback", "has_hw_coord_feedback"),
    R("performance-energy bias capability", "has_energy_bias_pref") >>,
  extended_feature_info |-> <<
    T("Extended feature flags (0x07):"),
    R("FSGSBASE", "has_fsgsbase"),
    R("IA32_TSC_ADJUST MSR", "has_tsc_adjust_msr"),
    R("SGX: Software Guard Extensions", "has_sgx"),
    R("BMI1", "has_bmi1"),
    R("HLE hardware lock elision", "has_hle"),
    R("AVX2: advanced vector extensions 2", "has_avx2"),
    R("FDP_EXCPTN_ONLY", "has_fdp"),
    R("SMEP supervisor mode exec protection", "has_smep"),
    R("BMI2 instructions", "has_bmi2"),
    R("enhanced REP MOVSB/STOSB", "has_rep_movsb_stosb"),
    R("INVPCID instruction", "has_invpcid"),
    R("RTM: restricted transactional memory", "has_rtm"),
    R("RDT-CMT/PQoS cache monitoring", "has_rdtm"),
    R("deprecated FPU CS/DS", "has_fpu_cs_ds_deprecated"),
    R("MPX: intel memory protection extensions", "has_mpx"),
    R("RDT-CAT/PQE cache allocation", "has_rdta"),
    R("AVX512F: AVX-512 foundation instructions", "has_avx512f"),
    R("AVX512-4NNIW: 4NNIW instructions", "has_avx512_4vnniw"),
    R("AVX512-4FMAPS: 4FMAPS instructions", "has_avx512_4fmaps"),
    R("AVX512-VP2INTERSECT: VP2INTERSECT instructions", "has_avx512_vp2intersect"),
    R("AMX_BF16: AMX_BF16 instructions", "has_amx_bf16"),
    R("AVX512_FP16: AVX512_FP16 instructions", "has_avx512_fp16"),
    R("AMX_TILE: Tile Architecture support", "has_amx_tile"),
    R("AMX_INT8: Tile Computational Operation on 8-bit integers", "has_amx_int8"),
    R("AVX512DQ: double & quadword instructions", "has_avx512dq"),
    R("RDSEED instruction", "has_rdseed"),
    R("ADX instructions", "has_adx"),
    R("SMAP: supervisor mode access prevention", "has_smap"),
    R("AVX512IFMA: fused multiply add", "has_avx512_ifma"),
    R("CLFLUSHOPT instruction", "has_clflushopt"),
    R("CLWB instruction", "has_clwb"),
    R("Intel processor trace", "has_processor_trace"),
    R("AVX512PF: prefetch instructions", "has_avx512pf"),
    R("AVX512ER: exponent & reciprocal instrs", "has_avx512er"),
    R("AVX512CD: conflict detection instrs", "has_avx512cd"),
    R("SHA instructions", "has_sha"),
    R("AVX512BW: byte & word instructions", "has_avx512bw"),
    R("AVX512VL: vector length", "has_avx512vl"),
    R("PREFETCHWT1", "has_prefetchwt1"),
    R("UMIP: user-mode instruction prevention", "has_umip"),
    R("PKU protection keys for user-mode", "has_pku"),
    R("OSPKE CR4.PKE and RDPKRU/WRPKRU", "has_ospke"),
    R("AVX512VNNI: vector neural network instructions", "has_avx512vnni"),
    R("BNDLDX/BNDSTX MAWAU value in 64-bit mode", "mawau_value"),
    R("RDPID: read processor ID", "has_rdpid"),
    R("SGX_LC: SGX launch config", "has_sgx_lc"),
    R("AVX_VNNI: AVX vector neural network instructions", "has_avx_vnni"),
    R("AVX512_BF16: AVX512 BF16 instructions", "has_avx512_bf16"),
    R("FZRMK: fast zero-length REP MOVSB256", "has_fzrm"),
    R("FSRM: fast short REP STOSB", "has_fsrs"),
    R("FSRCRS: fast short REP CMPSB, REP SCASB", "has_fsrcrs"),
    R("HRESET: HRESET instruction", "has_hreset"),
    R("CET_SSS: CET_SSS support", "has_cet_sss") >>,
  direct_cache_access_info |-> <<
    T("Direct Cache Access Parameters (0x09):"),
    A("PLATFORM_DCA_CAP MSR bits", "get_dca_cap_value") >>,
  performance_monitoring_info |-> <<
    T("Architecture Performance Monitoring Features (0x0a)"),
    T("Monitoring Hardware Info (0x0a/{eax, edx}):"),
    R("version ID", "version_id"),
    R("number of counters per HW thread", "number_of_counters"),
    R("bit width of counter", "counter_bit_width"),
    R("length of EBX bit vector", "ebx_length"),
    R("number of fixed counters", "fixed_function_counters"),
    R("bit width of fixed counters", "fixed_function_counters_bit_width"),
    R("anythread deprecation", "has_any_thread_deprecation"),
    T("Monitoring Hardware Features (0x0a/ebx):"),
    R("core cycle event not available", "is_core_cyc_ev_unavailable"),
    R("instruction retired event not available", "is_inst_ret_ev_unavailable"),
    R("reference cycles event not available", "is_ref_cycle_ev_unavailable"),
    R("last-level cache ref event not available", "is_cache_ref_ev_unavailable"),
    R("last-level cache miss event not avail", "is_ll_cache_miss_ev_unavailable"),
    R("branch inst retired event not available", "is_branch_inst_ret_ev_unavailable"),
    R("branch mispred retired event not available", "is_branch_midpred_ev_unavailable") >>,
  extended_topology_info |-> <<
    T("x2APIC features / processor topology (0x0b):") >>,
  extended_state_info |-> <<
    T("Extended Register State (0x0d/0):"),
    T("XCR0/IA32_XSS supported states:"),
    R3("XCR0", "x87", "xcr0_supports_legacy_x87"),
    R3("XCR0", "SSE state", "xcr0_supports_sse_128"),
    R3("XCR0", "AVX state", "xcr0_supports_avx_256"),
    R3("XCR0", "MPX BNDREGS", "xcr0_supports_mpx_bndregs"),
    R3("XCR0", "MPX BNDCSR", "xcr0_supports_mpx_bndcsr"),
    R3("XCR0", "AVX-512 opmask", "xcr0_supports_avx512_opmask"),
    R3("XCR0", "AVX-512 ZMM_Hi256", "xcr0_supports_avx512_zmm_hi256"),
    R3("XCR0", "AVX-512 Hi16_ZMM", "xcr0_supports_avx512_zmm_hi16"),
    R3("IA32_XSS", "PT", "ia32_xss_supports_pt"),
    R3("XCR0", "PKRU", "xcr0_supports_pkru"),
    R3("IA32_XSS", "HDC", "ia32_xss_supports_hdc"),
    R("bytes required by fields in XCR0", "xsave_area_size_enabled_features"),
    R("bytes required by XSAVE/XRSTOR area", "xsave_area_size_supported_features"),
    T("XSAVE features (0x0d/1):"),
    R("XSAVEOPT instruction", "has_xsaveopt"),
    R("XSAVEC instruction", "has_xsavec"),
    R("XGETBV instruction", "has_xgetbv"),
    R("XSAVES/XRSTORS instructions", "has_xsaves_xrstors"),
    R("SAVE area size [Bytes]", "xsave_size") >>,
  rdt_monitoring_info |-> <<
    T("Quality of Service Monitoring Resource Type (0x0f/0):"),
    R("Maximum range of RMID", "rmid_range"),
    R("L3 cache QoS monitoring", "has_l3_monitoring") >>,
  rdt_allocation_info |-> <<
    T("Resource Director Technology Allocation (0x10/0)"),
    R("L3 cache allocation technology", "has_l3_cat"),
    R("L2 cache allocation technology", "has_l2_cat"),
    R("memory bandwidth allocation", "has_memory_bandwidth_allocation") >>,
  sgx_info |-> <<
    T("SGX - Software Guard Extensions (0x12/{0,1}):"),
    R("SGX1", "has_sgx1"),
    R("SGX2", "has_sgx2"),
    R("SGX ENCLV E*VIRTCHILD, ESETCONTEXT", "has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext"),
    R("SGX ENCLS ETRACKC, ERDINFO, ELDBC, ELDUC", "has_encls_leaves_etrackc_erdinfo_eldbc_elduc"),
    R("MISCSELECT", "miscselect"),
    R("MaxEnclaveSize_Not64 (log2)", "max_enclave_size_non_64bit"),
    R("MaxEnclaveSize_64 (log2)", "max_enclave_size_64bit") >>,
  processor_trace_info |-> <<
    T("Intel Processor Trace (0x14):"),
    R("IA32_RTIT_CR3_MATCH is accessible", "has_rtit_cr3_match"),
    R("configurable PSB & cycle-accurate", "has_configurable_psb_and_cycle_accurate_mode"),
    R("IP & TraceStop filtering; PT preserve", "has_ip_tracestop_filtering"),
    R("MTC timing packet; suppress COFI-based", "has_mtc_timing_packet_coefi_suppression"),
    R("PTWRITE", "has_ptwrite"),
    R("power event trace", "has_power_event_trace"),
    R("ToPA output scheme", "has_topa"),
    R("ToPA can hold many output entries", "has_topa_maximum_entries"),
    R("single-range output scheme support", "has_single_range_output_scheme"),
    R("output to trace transport", "has_trace_transport_subsystem"),
    R("IP payloads have LIP values & CS", "has_lip_with_cs_base"),
    R("configurable address ranges", "configurable_address_ranges"),
    R("supported MTC periods bitmask", "supported_mtc_period_encodings"),
    R("supported cycle threshold bitmask", "supported_cycle_threshold_value_encodings"),
    R("supported config PSB freq bitmask", "supported_psb_frequency_encodings") >>,
  tsc_info |-> <<
    T("Time Stamp Counter/Core Crystal Clock Information (0x15):"),
    R("TSC/clock ratio", "$ratio"),
    R("nominal core crystal clock", "nominal_frequency") >>,
  processor_frequency_info |-> <<
    T("Processor Frequency Information (0x16):"),
    R("Core Base Frequency (MHz)", "processor_base_frequency"),
    R("Core Maximum Frequency (MHz)", "processor_max_frequency"),
    R("Bus (Reference) Frequency (MHz)", "bus_frequency") >>,
  soc_vendor_info |-> <<
    T("System-on-Chip (SoC) Vendor Info (0x17):"),
    R("Vendor ID", "get_soc_vendor_id"),
    R("Project ID", "get_project_id"),
    R("Stepping ID", "get_stepping_id"),
    R("Vendor Brand", "$brand") >>,
  l1_cache_and_tlb_info |-> <<
    T("L1 TLB 2/4 MiB entries (0x8000_0005/eax):"),
    R("iTLB #entries", "itlb_2m_4m_size"),
    R("iTLB associativity", "itlb_2m_4m_associativity"),
    R("dTLB #entries", "dtlb_2m_4m_size"),
    R("dTLB associativity", "dtlb_2m_4m_associativity"),
    T("L1 TLB 4 KiB entries (0x8000_0005/ebx):"),
    R("iTLB #entries", "itlb_4k_size"),
    R("iTLB associativity", "itlb_4k_associativity"),
    R("dTLB #entries", "dtlb_4k_size"),
    R("dTLB associativity", "dtlb_4k_associativity"),
    T("L1 dCache (0x8000_0005/ecx):"),
    R("line size [Bytes]", "dcache_line_size"),
    R("lines per tag", "dcache_lines_per_tag"),
    R("associativity", "dcache_associativity"),
    R("size [KiB]", "dcache_size"),
    T("L1 iCache (0x8000_0005/edx):"),
    R("line size [Bytes]", "icache_line_size"),
    R("lines per tag", "icache_lines_per_tag"),
    R("associativity", "icache_associativity"),
    R("size [KiB]", "icache_size") >>,
  l2_l3_cache_and_tlb_info |-> <<
    T("L2 TLB 2/4 MiB entries (0x8000_0006/eax):"),
    R("iTLB #entries", "itlb_2m_4m_size"),
    R("iTLB associativity", "itlb_2m_4m_associativity"),
    R("dTLB #entries", "dtlb_2m_4m_size"),
    R("dTLB associativity", "dtlb_2m_4m_associativity"),
    T("L2 TLB 4 KiB entries (0x8000_0006/ebx):"),
    R("iTLB #entries", "itlb_4k_size"),
    R("iTLB associativity", "itlb_4k_associativity"),
    R("dTLB #entries", "dtlb_4k_size"),
    R("dTLB associativity", "dtlb_4k_associativity"),
    T("L2 Cache (0x8000_0006/ecx):"),
    R("line size [Bytes]", "l2cache_line_size"),
    R("lines per tag", "l2cache_lines_per_tag"),
    R("associativity", "l2cache_associativity"),
    R("size [KiB]", "l2cache_size"),
    T("L3 Cache (0x8000_0006/edx):"),
    R("line size [Bytes]", "l3cache_line_size"),
    R("lines per tag", "l3cache_lines_per_tag"),
    R("associativity", "l3cache_associativity"),
    R("size [KiB]", "$l3kib") >>,
  advanced_power_mgmt_info |-> <<
    T("RAS Capability (0x8000_0007/ebx):"),
    R("MCA overflow recovery", "has_mca_overflow_recovery"),
    R("SUCCOR", "has_succor"),
    R("HWA: hardware assert", "has_hwa"),
    T("Advanced Power Management (0x8000_0007/ecx):"),
    A("Ratio of Compute Unit Power Acc. sample period to TSC", "cpu_pwr_sample_time_ratio"),
    T("Advanced Power Management (0x8000_0007/edx):"),
    R("TS: temperature sensing diode", "has_ts"),
    R("FID: frequency ID control", "has_freq_id_ctrl"),
    R("VID: voltage ID control", "has_volt_id_ctrl"),
    R("TTP: thermal trip", "has_thermtrip"),
    R("TM: thermal monitor", "has_tm"),
    R("100 MHz multiplier control", "has_100mhz_steps"),
    R("hardware P-State control", "has_hw_pstate"),
    R("Invariant TSC", "has_invariant_tsc"),
    R("CPB: core performance boost", "has_cpb"),
    R("read-only effective frequency interface", "has_ro_effective_freq_iface"),
    R("processor feedback interface", "has_feedback_iface"),
    R("APM power reporting", "has_power_reporting_iface") >>,
  processor_capacity_feature_info |-> <<
    T("Physical Address and Linear Address Size (0x8000_0008/eax):"),
    R("maximum physical address [Bits]", "physical_address_bits"),
    R("maximum linear (virtual) address [Bits]", "linear_address_bits"),
    R("maximum guest physical address [Bits]", "guest_physical_address_bits"),
    T("Extended Feature Extensions ID (0x8000_0008/ebx):"),
    R("CLZERO", "has_cl_zero"),
    R("instructions retired count", "has_inst_ret_cntr_msr"),
    R("always save/restore error pointers", "has_restore_fp_error_ptrs"),
    R("RDPRU", "has_rdpru"),
    R("INVLPGB", "has_invlpgb"),
    R("MCOMMIT", "has_mcommit"),
    R("WBNOINVD", "has_wbnoinvd"),
    R("WBNOINVD/WBINVD interruptible", "has_int_wbinvd"),
    R("EFER.LMSLE unsupported", "has_unsupported_efer_lmsle"),
    R("INVLPGB with nested paging", "has_invlpgb_nested"),
    T("Size Identifiers (0x8000_0008/ecx):"),
    R("Logical processors", "num_phys_threads"),
    R("APIC core ID size", "apic_id_size"),
    R("Max. logical processors", "maximum_logical_processors"),
    R("Perf. TSC size [Bits]", "perf_tsc_size"),
    T("Size Identifiers (0x8000_0008/edx):"),
    R("RDPRU max. input value", "max_rdpru_id"),
    R("INVLPGB max. #pages", "invlpgb_max_pages") >>,
  svm_info |-> <<
    T("SVM Secure Virtual Machine (0x8000_000a/eax):"),
    A("Revision", "revision"),
    T("SVM Secure Virtual Machine (0x8000_000a/edx):"),
    R("nested paging", "has_nested_paging"),
    R("LBR virtualization", "has_lbr_virtualization"),
    R("SVM lock", "has_svm_lock"),
    R("NRIP", "has_nrip"),
    R("MSR based TSC rate control", "has_tsc_rate_msr"),
    R("VMCB clean bits support", "has_vmcb_clean_bits"),
    R("flush by ASID", "has_flush_by_asid"),
    R("decode assists", "has_decode_assists"),
    R("pause intercept filter", "has_pause_filter"),
    R("pause filter threshold", "has_pause_filter_threshold"),
    R("AVIC: virtual interrupt controller", "has_avic"),
    R("virtualized VMLOAD/VMSAVE", "has_vmsave_virtualization"),
    R("GIF: virtual global interrupt flag", "has_gif"),
    R("GMET: guest mode execute trap", "has_gmet"),
    R("SPEC_CTRL virtualization", "has_spec_ctrl"),
    R("Supervisor shadow-stack restrictions", "has_sss_check"),
    R("#MC intercept", "has_host_mce_override"),
    R("INVLPGB/TLBSYNC virtualization", "has_tlb_ctrl") >>,
  tlb_1gb_page_info |-> <<
    T("TLB 1-GiB Pages Info (0x8000_0019):"),
    R("L1 iTLB #entries", "itlb_l1_1gb_size"),
    R("L1 iTLB associativity", "itlb_l1_1gb_associativity"),
    R("L1 dTLB #entries", "dtlb_l1_1gb_size"),
    R("L1 dTLB associativity", "dtlb_l1_1gb_associativity"),
    R("L2 iTLB #entries", "itlb_l2_1gb_size"),
    R("L2 iTLB associativity", "itlb_l2_1gb_associativity"),
    R("L2 dTLB #entries", "dtlb_l2_1gb_size"),
    R("L2 dTLB associativity", "dtlb_l2_1gb_associativity") >>,
  performance_optimization_info |-> <<
    T("Performance Optimization Info (0x8000_001a):"),
    R("128-bits width the internal FP/SIMD", "has_fp128"),
    R("MOVU SSE are efficient more than MOVL/MOVH", "has_movu"),
    R("256-bits width the internal FP/SIMD", "has_fp256") >>,
  instruction_based_sampling_capabilities |-> <<
    T("Instruction-Based Sampling Capabilities (0x8000_001b):"),
    R("IBS feature flags valid", "has_feature_flags"),
    R("IBS fetch sampling supporte", "has_fetch_sampling"),
    R("IBS execution sampling supported", "has_execution_sampling"),
    R("Read write of op counter supported", "has_read_write_operation_counter"),
    R("Op counting mode supported", "has_operation_counter"),
    R("Branch target address reporting supported", "has_branch_target_address_reporting"),
    R("IbsOpCurCnt and IbsOpMaxCnt extend by 7 bits", "has_operation_counter_extended"),
    R("Invalid RIP indication supported", "has_invalid_rip_indication"),
    R("Fused branch micro-op indication supported", "has_fused_branch_micro_op_indication"),
    R("L3 Miss Filtering for IBS supported", "has_l3_miss_filtering") >>,
  processor_topology_info |-> <<
    T("Processor Topology Info (0x8000_001e):"),
    R("x2APIC ID", "x2apic_id"),
    R("Core ID", "core_id"),
    R("Threads per core", "threads_per_core"),
    R("Node ID", "node_id"),
    R("Nodes per processor", "nodes_per_processor") >>,
  memory_encryption_info |-> <<
    T("Memory Encryption Support (0x8000_001f):"),
    R("SME: Secure Memory Encryption", "has_sme"),
    R("SEV: Secure Encrypted Virtualization", "has_sev"),
    R("Page Flush MSR", "has_page_flush_msr"),
    R("SEV-ES: Encrypted State", "has_sev_es"),
    R("SEV Secure Nested Paging", "has_sev_snp"),
    R("VM Permission Levels", "has_vmpl"),
    R("Hardware cache coherency across encryption domains", "has_hw_enforced_cache_coh"),
    R("SEV guests only with 64-bit host", "has_64bit_mode"),
    R("Restricted injection", "has_restricted_injection"),
    R("Alternate injection", "has_alternate_injection"),
    R("Full debug state swap for SEV-ES guests", "has_debug_swap"),
    R("Disallowing IBS use by the host supported", "has_prevent_host_ibs"),
    R("Virtual Transparent Encryption", "has_vte"),
    R("C-bit position in page-table", "c_bit_position"),
    R("Physical address bit reduction", "physical_address_reduction"),
    R("Max. simultaneouslys encrypted guests", "max_encrypted_guests"),
    R("Minimum ASID value for SEV guest", "min_sev_no_es_asid") >>,
  pqos_extended_feature_info |-> <<
    T("Platform Quality of Service (0x8000_0020/0):"),
    R("Memory Bandwidth Enforcement", "has_l3mbe"),
    R("Slow Memory Bandwidth Enforcement", "has_l3smbe"),
    R("Bandwidth Monitoring Event Configuration", "has_bmec"),
    R("L3 Range Reservation", "has_l3rr"),
    R("Assignable Bandwidth Monitoring Counters", "has_abmc"),
    R("Smart Data Cache Injection (SDCI) Allocation Enforcement", "has_sdciae") >>,
  extended_feature_identification_2 |-> <<
    T("Extended Feature Identification (0x8000_0021):"),
    R("Processor ignores nested data breakpoints", "has_no_nested_data_bp"),
    R("LFENCE is always dispatch serializing", "has_lfence_always_serializing"),
    R("SMM paging configuration lock supported", "has_smm_pg_cfg_lock"),
    R("Null segment selector loads also clear the destination segment register base and limit", "has_null_select_clears_base"),
    R("Upper Address Ignore is supported", "has_upper_address_ignore"),
    R("Automatic IBRS", "has_automatic_ibrs"),
    R("SMM_CTL MSR (C001_0116h) is not supporte", "has_no_smm_ctl_msr"),
    R("Prefetch control MSR supporte", "has_prefetch_ctl_msr"),
    R("CPUID disable for non-privileged softwar", "has_cpuid_user_dis"),
    R("The size of the Microcode patch in 16-byte multiples", "microcode_patch_size") >>,
  extended_performance_monitoring_and_debug |-> <<
    T("Extended Performance Monitoring and Debug (0x8000_0022):"),
    R("Performance Monitoring Version 2 supported", "has_perf_mon_v2"),
    R("Last Branch Record Stack supported", "has_lbr_stack"),
    R("LbrAndPmcFreeze", "has_lbr_and_pmc_freeze"),
    R("Number of Core Performance Counters", "num_perf_ctr_core"),
    R("Number of Last Branch Record Stack entries", "num_lbr_stack_size"),
    R("Number of Northbridge Performance Monitor Counters", "num_perf_ctr_nb") >>,
  multi_key_encrypted_memory_capabilities |-> <<
    T("Multi-Key Encrypted Memory Capabilities (0x8000_0023):"),
    R("Secure Host Multi-Key Memory (MEM-HMK) Encryption Mode Supported", "has_mem_hmk"),
    R("MaxMemHmkEncrKeyID", "max_mem_hmk_encr_key_id") >> ]

QueryParts == [
  l3_monitoring |-> <<
    T("L3 Cache Quality of Service Monitoring (0x0f/1):"),
    R("Conversion factor from IA32_QM_CTR to bytes", "conversion_factor"),
    R("Maximum range of RMID", "maximum_rmid_range"),
    R("L3 occupancy monitoring", "has_occupancy_monitoring"),
    R("L3 total bandwidth monitoring", "has_total_bandwidth_monitoring"),
    R("L3 local bandwidth monitoring", "has_local_bandwidth_monitoring") >>,
  l3_cat |-> <<
    T("L3 Cache Allocation Technology (0x10/1):"),
    R("length of capacity bit mask", "capacity_mask_length"),
    R("Bit-granular map of isolation/contention", "isolation_bitmap"),
    R("code and data prioritization", "has_code_data_prioritization"),
    R("highest COS number", "highest_cos") >>,
  l2_cat |-> <<
    T("L2 Cache Allocation Technology (0x10/2):"),
    R("length of capacity bit mask", "capacity_mask_length"),
    R("Bit-granular map of isolation/contention", "isolation_bitmap"),
    R("highest COS number", "highest_cos") >>,
  memory_bandwidth_allocation |-> <<
    T("Memory Bandwidth Allocation (0x10/3):"),
    R("maximum throttling value", "max_hba_throttling"),
    R("delay values are linear", "has_linear_response_delay"),
    R("highest COS number", "highest_cos") >>,
  get_l3_memory_bandwidth_enforcement_info |-> <<
    T("L3 Memory Bandwidth Enforcement Information (0x8000_0020/1):"),
    R("Bandwidth Length", "bandwidth_length"),
    R("COS Number", "cos_max") >>,
  get_l3_slow_memory_bandwidth_enforcement_info |-> <<
    T("L3 Slow Memory Bandwidth Enforcement Information (0x8000_0020/2):"),
    R("Bandwidth Length", "bandwidth_length"),
    R("COS Number", "cos_max") >>,
  get_bandwidth_monitoring_event_counters_info |-> <<
    T("Bandwidth Monitoring Event Counters Information (0x8000_0020/3):"),
    R("Number of configurable bandwidth events", "number_events"),
    R("Reads to local DRAM memory", "has_l3_cache_lcl_bw_fill_mon"),
    R("Reads to remote DRAM memory", "has_l3_cache_rmt_bw_fill_mon"),
    R("Non-temporal writes to local memory", "has_l3_cache_lcl_bw_nt_wr_mon"),
    R("Non-temporal writes to remote memory", "has_l3_cache_rmt_bw_nt_wr_mon"),
    R("Reads to local memory identified as 'Slow Memory'", "has_l3_cache_lcl_slow_bw_fill_mon"),
    R("Reads to remote memory identified as 'Slow Memory'", "has_l3_cache_rmt_slow_bw_fill_mon"),
    R("Dirty victim writes to all types of memory{u201d}.", "has_l3_cache_vic_mon") >>,
  get_assignable_bandwidth_monitoring_counters_info |-> <<
    T("Assignable Bandwidth Monitoring Counters Information (0x8000_0020/5):"),
    R("Indicates that QM_CTR bit 61 is an overflow bit", "has_overflow_bit"),
    R("QM_CTR counter width, offset from 24 bits", "counter_size"),
    R("Maximum supported ABMC counter ID", "max_abmc"),
    R("Bandwidth counters can be configured", "has_select_cos") >> ]

CacheParts == <<
  R("cache type", "cache_type"),
  R("cache level", "level"),
  R("self-initializing cache level", "is_self_initializing"),
  R("fully associative cache", "is_fully_associative"),
  R("threads sharing this cache", "max_cores_for_cache"),
  R("processor cores on this die", "max_cores_for_package"),
  R("system coherency line size", "coherency_line_size"),
  R("physical line partitions", "physical_line_partitions"),
  R("ways of associativity", "associativity"),
  R("WBINVD/INVD acts on lower caches", "is_write_back_invalidate"),
  R("inclusive to lower caches", "is_inclusive"),
  R("complex cache indexing", "has_complex_indexing"),
  R("number of sets", "sets"),
  R("(size synth.)", "$size") >>

TopologyParts == <<
  R("level type", "level_type"),
  R("bit width of level", "shift_right_for_next_apic_id"),
  R("number of logical processors at level", "processors"),
  R("x2apic id of current processor", "x2apic_id") >>

StateParts == <<
  R("save state size [Bytes]", "size"),
  R("save state byte offset", "offset"),
  R("supported in IA32_XSS or XCR0", "location"),
  R("64-byte alignment in compacted XSAVE", "is_compacted_format") >>

EpcParts == <<
  R("physical base address", "physical_base"),
  R("size", "size") >>

DatParts == <<
  R("number of sets", "sets"),
  R("4 KiB page size entries", "has_4k_entries"),
  R("2 MiB page size entries", "has_2mb_entries"),
  R("4 MiB page size entries", "has_4mb_entries"),
  R("1 GiB page size entries", "has_1gb_entries"),
  R("partitioning", "partitioning"),
  R("ways of associativity", "ways"),
  R("translation cache type", "cache_type"),
  R("translation cache level", "cache_level"),
  R("fully associative", "is_fully_associative"),
  R("maximum number of addressible IDs", "max_addressable_ids"),
  R("maximum number of addressible IDs", "max_addressable_ids") >>

LevelParts == <<
  R("Mask Width", "mask_width"),
  R("Efficiency Ranking Available", "has_efficiency_ranking_available"),
  R("Heterogeneous Cores", "has_heterogeneous_cores"),
  R("Asymmetric Topology", "has_asymmetric_topology"),
  R("Number of logical processors at the current hierarchy level", "num_logical_processors"),
  R("Static efficiency ranking between cores of a specific core type", "pwr_efficiency_ranking"),
  R("Native Mode Id", "native_mode_id"),
  R("Core Type", "core_type"),
  R("Level Type", "level_type"),
  R("Extended APIC ID of the logical processo", "extended_apic_id") >>

----------------------------------------------------------------------------
(* Values as text                                                          *)

FieldByName == [t \in DOMAIN FieldsOf |->
  [n \in {FieldsOf[t][i].n : i \in 1..Len(FieldsOf[t])} |->
     LET i == CHOOSE i \in 1..Len(FieldsOf[t]) : FieldsOf[t][i].n = n
     IN  FieldsOf[t][i]]]

Acc(v, n, m) == Value(v, FieldByName[v.t][n], m)

ShowSpecial(t, n, x) ==
  CASE t = "CacheParameter" -> CacheTypeText(x)
    [] t = "ExtendedTopologyLevel" -> TopologyText(x)
    [] t = "ExtendedCpuTopologyLevel" -> HierarchyText(x)
    [] t = "ExtendedState" /\ n = "register" -> RegisterText(x)
    [] t = "ExtendedState" /\ n = "location" -> LocationText(x)
    [] t = "DatInfo" -> DatText(x)
    [] t \in {"VendorInfo", "ProcessorBrandString", "SoCVendorBrand"} -> TextOf(x)
    [] OTHER -> Decimal(x)                       \* numbers

\* An AMD only flag shows like any other
Show(v, n, m) ==
  CASE n = "$size" ->
         LET a(k) == Acc(v, k, m)
             p == Times(Times(Times(a("sets"), a("associativity")[1]),
                              a("physical_line_partitions")[1]), a("coherency_line_size")[1])
         IN  Decimal(Sat64(p))
    [] n = "$ratio" -> Decimal(Acc(v, "numerator", m)) \o " / " \o Decimal(Acc(v, "denominator", m))
    [] n = "$l3kib" -> Decimal(Norm(Times(Acc(v, "l3cache_size", m), 512)))
    [] n = "$brand" ->
         IF ~SubPresent(v, "get_vendor_brand") THEN ""
         ELSE LET d == SubQueries[v.t]["get_vendor_brand"]
              IN  TextOf(Acc(MkView(v.o, d.t, Capture(m, d.slots)), "as_str", m))
    [] OTHER ->
         LET f == FieldByName[v.t][n]
             x == Value(v, f, m)
         IN CASE f.k \in {"bit", "amd"} -> IF x = <<1>> THEN "yes" ELSE "no"
              [] f.k \in {"num", "num1", "word", "word1"} -> Decimal(x)
              [] f.k \in {"assoc1", "assoc2"} -> AssocText(x)
              [] f.k = "spec" -> ShowSpecial(v.t, n, x)

PartLine(v, p, m) ==
  CASE p.k = "T"  -> << p.l >>
    [] p.k = "A"  -> << p.l \o " = " \o Show(v, p.n, m) >>
    [] p.k = "R"  -> << p.l, Show(v, p.n, m) >>
    [] p.k = "R3" -> << p.c, p.l, Show(v, p.n, m) >>
Flat(v, parts, m) == [i \in 1..Len(parts) |-> PartLine(v, parts[i], m)]

----------------------------------------------------------------------------
(* Enumerated sections                                                     *)

ItemLines(v, i, m) ==                              \* i: how many came before
  CASE v.t = "CacheParameter" ->
         << << "L" \o Show(v, "level", m) \o " Cache:" >> >> \o Flat(v, CacheParts, m)
    [] v.t = "ExtendedTopologyLevel" ->
         << << "level " \o Show(v, "level_number", m) \o ":" >> >> \o Flat(v, TopologyParts, m)
    [] v.t = "ExtendedState" ->
         << << Show(v, "register", m) \o " features (0x0d/" \o ToString(v.sub) \o "):" >> >>
         \o Flat(v, StateParts, m)
    [] v.t = "EpcSection" ->
         << << "Enclave Page Cache (0x12/" \o ToString(i + 2) \o ")" >> >> \o Flat(v, EpcParts, m)
    [] v.t = "DatInfo" ->
         << << "Deterministic Address Translation Structure (0x18/" \o ToString(i) \o "):" >> >>
         \o Flat(v, DatParts, m)
    [] v.t = "CpuIdRaw" ->
         << << "0x17 " \o HexNum(i + 4) \o ": eax = " \o HexWord(v.w[EAX]) \o " ebx = " \o HexWord(v.w[EBX])
               \o " ecx = " \o HexWord(v.w[ECX]) \o " edx = " \o HexWord(v.w[EDX]) >> >>
    [] v.t = "ExtendedCpuTopologyLevel" ->
         << << "Extended CPU Topology (0x8000_0026/" \o ToString(i) \o "):" >> >> \o Flat(v, LevelParts, m)

RECURSIVE IterLines(_, _, _, _)
IterLines(it, pos, i, m) ==
  LET p == Seek(it, m, pos)
  IN  IF p = -1 THEN << >>
      ELSE ItemLines(Item(it, m, p), i, m) \o IterLines(it, p + 1, i + 1, m)
All(it, m) == IterLines(it, it.pos, 0, m)

\* In any order: one line per descriptor byte
DescLines(bag) == [i \in 1..Len(bag) |-> << HexNum(bag[i]), DescText[bag[i]] >>]

QueryLines(v, q, m) ==
  IF ~SubPresent(v, q) THEN << >>
  ELSE LET d == SubQueries[v.t][q]
       IN  Flat(MkView(v.o, d.t, Capture(m, d.slots)), QueryParts[q], m)

CStates(v, m) ==
  << << "number of CX sub C-states using MWAIT:" >>,
     << "C0", "C1", "C2", "C3", "C4", "C5", "C6", "C7" >>,
     [i \in 1..8 |-> Show(v, "supported_c" \o ToString(i - 1) \o "_states", m)] >>

\* What follows the flat part of a section
Remainder(v, g, m) ==
  CASE g = "monitor_mwait_info" -> CStates(v, m)
    [] g = "extended_state_info" -> All(SubIter(v, "iter"), m)
    [] g = "sgx_info" -> All(SubIter(v, "iter"), m)
    [] g = "rdt_monitoring_info" -> QueryLines(v, "l3_monitoring", m)
    [] g = "rdt_allocation_info" ->
         QueryLines(v, "l3_cat", m) \o QueryLines(v, "l2_cat", m)
         \o QueryLines(v, "memory_bandwidth_allocation", m)
    [] g = "soc_vendor_info" ->
         IF SubPresent(v, "get_vendor_attributes") THEN All(SubIter(v, "get_vendor_attributes"), m)
         ELSE << >>
    [] g = "pqos_extended_feature_info" ->
         QueryLines(v, "get_l3_memory_bandwidth_enforcement_info", m)
         \o QueryLines(v, "get_l3_slow_memory_bandwidth_enforcement_info", m)
         \o QueryLines(v, "get_bandwidth_monitoring_event_counters_info", m)
         \o QueryLines(v, "get_assignable_bandwidth_monitoring_counters_info", m)
    [] OTHER -> << >>

SectionLines(o, m, g) ==
  IF ~Present(o, m, g) THEN << >>
  ELSE IF g \in DOMAIN IterGetters
  THEN LET it == NewIter(o, m, g)
       IN CASE g = "cache_info" ->
                 << << "Cache and TLB information (0x02):" >> >> \o DescLines(it.rest)
            [] g \in DOMAIN MainParts ->
                 << << MainParts[g][1].l >> >> \o All(it, m)
            [] OTHER -> All(it, m)
  ELSE LET v == NewView(o, m, g)
       IN CASE g = "vendor_info" ->
                 << << "vendor_id (0x00) = \"" \o TextOf(Acc(v, "as_str", m)) \o "\"" >> >>
            [] g = "processor_serial" ->
                 << << "processor serial number (0x03) = \"" \o Hex8(v.w[EAX]) \o "-"
                       \o Hex8(v.w[EDX1]) \o "-" \o Hex8(v.w[ECX1]) \o "\"" >> >>
            [] g = "processor_brand_string" ->
                 << << "Processor Brand String = \"" \o TextOf(Acc(v, "as_str", m)) \o "\"" >> >>
            [] OTHER -> Flat(v, MainParts[g], m) \o Remainder(v, g, m)

RECURSIVE SectionsFrom(_, _, _)
SectionsFrom(o, m, i) ==
  IF i > Len(Sections) THEN << >>
  ELSE SectionLines(o, m, Sections[i]) \o SectionsFrom(o, m, i + 1)

ReportLines(o, m) == << << "CpuId" >> >> \o SectionsFrom(o, m, 1)

\* The lines from..to list descriptors, in any order
DescFrom(o, m) == 2 + Len(SectionLines(o, m, "vendor_info"))
                  + Len(SectionLines(o, m, "feature_info"))
DescRange(o, m) ==
  LET n == Len(SectionLines(o, m, "cache_info"))
  IN  [from |-> DescFrom(o, m) + 1, to |-> DescFrom(o, m) + n - 1]

----------------------------------------------------------------------------
(* The raw dump: every leaf of the three ranges, sub-leaf 0, as            *)
(* << leaf, sub-leaf, eax, ebx, ecx, edx >>                                *)

Succ(w) == IF w[1] = 65535 THEN << 0, w[2] + 1 >> ELSE << w[1] + 1, w[2] >>

UpperDigit == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F" >>
RECURSIVE Upper(_, _)
Upper(x, n) == IF n = 0 THEN "" ELSE Upper(x \div 16, n - 1) \o UpperDigit[(x % 16) + 1]
RECURSIVE UpperInt(_)
UpperInt(x) == IF x < 16 THEN UpperDigit[x + 1] ELSE UpperInt(x \div 16) \o UpperDigit[(x % 16) + 1]
LeafName(w) == "L" \o (IF w[2] = 0 THEN UpperInt(w[1]) ELSE UpperInt(w[2]) \o Upper(w[1], 4))

LeafAt(m, w) == Regs(m, LeafName(w), 0)
RECURSIVE RangeDump(_, _, _)
RangeDump(m, w, last) ==
  IF ~WLeq(w, last) THEN << >>
  ELSE << << w, ZeroW >> \o LeafAt(m, w) >> \o RangeDump(m, Succ(w), last)
RawDump(m) == RangeDump(m, ZeroW, LeafAt(m, ZeroW)[EAX])
              \o RangeDump(m, << 0, 16384 >>, LeafAt(m, << 0, 16384 >>)[EAX])
              \o RangeDump(m, << 0, 32768 >>, LeafAt(m, << 0, 32768 >>)[EAX])

----------------------------------------------------------------------------
(* Actions                                                                 *)

PrintReport(h) == /\ h \in DOMAIN obj
                  /\ out' = ReportLines(obj[h], M)
                  /\ UNCHANGED <<cpu, obj, vw>>
PrintRaw == /\ out' = RawDump(M)
            /\ UNCHANGED <<cpu, obj, vw>>
\* The program is asked for a format that there is not
Refuse == out' = << >> /\ UNCHANGED <<cpu, obj, vw>>
=============================================================================
