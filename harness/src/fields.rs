//! The accessors of every view, in the order of spec/Fields.tla (cross-checked
//! by TLC: spec/Trace.tla compares the names printed by `meta`).

use crate::enc::Enc;
use crate::{guard, Rdr};
use raw_cpuid::*;
use serde_json::Value;

pub trait Fields {
    const NAME: &'static str;
    const NAMES: &'static [&'static str];
    fn values(&self) -> Vec<Vec<i64>>;
    /// The display texts, by what they are the text of.
    fn texts(&self) -> Vec<Value> {
        vec![]
    }
    fn same(&self, _other: &Self) -> Option<bool> {
        None
    }
}

/// Equality where there is one (found by method resolution: `Yes` is tried
/// before `No`).
struct Cmp<'a, T>(&'a T);
trait Yes<T> {
    fn eq_if(&self, other: &T) -> Option<bool>;
}
impl<T: PartialEq> Yes<T> for Cmp<'_, T> {
    fn eq_if(&self, other: &T) -> Option<bool> {
        Some(self.0 == other)
    }
}
trait No<T> {
    fn eq_if(&self, other: &T) -> Option<bool>;
}
impl<T> No<T> for &Cmp<'_, T> {
    fn eq_if(&self, _: &T) -> Option<bool> {
        None
    }
}

fn shown(name: &str, d: impl std::fmt::Display) -> Value {
    let mut t = crate::text::text(&d.to_string());
    t["of"] = name.into();
    t
}

macro_rules! fields {
    (generic $t:ident, $name:literal, [$(($f:literal, $($e:tt)+)),* $(,)?]) => {
        impl<R: CpuIdReader> Fields for $t<R> {
            const NAME: &'static str = $name;
            const NAMES: &'static [&'static str] = &[$($f),*];
            #[allow(deprecated)]
            fn values(&self) -> Vec<Vec<i64>> {
                vec![$(guard(|| Enc::enc(&self.$($e)+))),*]
            }
        }
    };
    ($t:ty, $name:literal, [$(($f:literal, $($e:tt)+)),* $(,)?] $(, $v:ident => [$(($tn:literal, $te:expr)),* $(,)?])?) => {
        impl Fields for $t {
            const NAME: &'static str = $name;
            const NAMES: &'static [&'static str] = &[$($f),*];
            #[allow(deprecated)]
            fn values(&self) -> Vec<Vec<i64>> {
                vec![$(guard(|| Enc::enc(&self.$($e)+))),*]
            }
            fn same(&self, other: &Self) -> Option<bool> {
                (&Cmp(self)).eq_if(other)
            }
            $(fn texts(&self) -> Vec<Value> {
                let $v = self;
                vec![$(shown($tn, $te)),*]
            })?
        }
    };
}

fields!(VendorInfo, "VendorInfo", [
    ("as_str", as_str()),
    ("as_string", as_string()),
], v => [
    ("self", v),
]);
fields!(CacheInfo, "CacheInfo", [
    ("num", num),
    ("typ", typ),
], v => [
    ("self", v),
    ("desc", v.desc()),
]);
fields!(
    ProcessorSerial,
    "ProcessorSerial",
    [
        ("serial_lower", serial_lower()),
        ("serial_middle", serial_middle()),
        ("serial_upper", serial_upper()),
        ("serial", serial()),
        ("serial_all", serial_all()),
    ]
);
fields!(
    FeatureInfo,
    "FeatureInfo",
    [
        ("extended_family_id", extended_family_id()),
        ("extended_model_id", extended_model_id()),
        ("base_family_id", base_family_id()),
        ("base_model_id", base_model_id()),
        ("family_id", family_id()),
        ("model_id", model_id()),
        ("stepping_id", stepping_id()),
        ("brand_index", brand_index()),
        ("cflush_cache_line_size", cflush_cache_line_size()),
        ("initial_local_apic_id", initial_local_apic_id()),
        ("max_logical_processor_ids", max_logical_processor_ids()),
        ("has_sse3", has_sse3()),
        ("has_pclmulqdq", has_pclmulqdq()),
        ("has_ds_area", has_ds_area()),
        ("has_monitor_mwait", has_monitor_mwait()),
        ("has_cpl", has_cpl()),
        ("has_vmx", has_vmx()),
        ("has_smx", has_smx()),
        ("has_eist", has_eist()),
        ("has_tm2", has_tm2()),
        ("has_ssse3", has_ssse3()),
        ("has_cnxtid", has_cnxtid()),
        ("has_fma", has_fma()),
        ("has_cmpxchg16b", has_cmpxchg16b()),
        ("has_pdcm", has_pdcm()),
        ("has_pcid", has_pcid()),
        ("has_dca", has_dca()),
        ("has_sse41", has_sse41()),
        ("has_sse42", has_sse42()),
        ("has_x2apic", has_x2apic()),
        ("has_movbe", has_movbe()),
        ("has_popcnt", has_popcnt()),
        ("has_tsc_deadline", has_tsc_deadline()),
        ("has_aesni", has_aesni()),
        ("has_xsave", has_xsave()),
        ("has_oxsave", has_oxsave()),
        ("has_avx", has_avx()),
        ("has_f16c", has_f16c()),
        ("has_rdrand", has_rdrand()),
        ("has_hypervisor", has_hypervisor()),
        ("has_fpu", has_fpu()),
        ("has_vme", has_vme()),
        ("has_de", has_de()),
        ("has_pse", has_pse()),
        ("has_tsc", has_tsc()),
        ("has_msr", has_msr()),
        ("has_pae", has_pae()),
        ("has_mce", has_mce()),
        ("has_cmpxchg8b", has_cmpxchg8b()),
        ("has_apic", has_apic()),
        ("has_sysenter_sysexit", has_sysenter_sysexit()),
        ("has_mtrr", has_mtrr()),
        ("has_pge", has_pge()),
        ("has_mca", has_mca()),
        ("has_cmov", has_cmov()),
        ("has_pat", has_pat()),
        ("has_pse36", has_pse36()),
        ("has_psn", has_psn()),
        ("has_clflush", has_clflush()),
        ("has_ds", has_ds()),
        ("has_acpi", has_acpi()),
        ("has_mmx", has_mmx()),
        ("has_fxsave_fxstor", has_fxsave_fxstor()),
        ("has_sse", has_sse()),
        ("has_sse2", has_sse2()),
        ("has_ss", has_ss()),
        ("has_htt", has_htt()),
        ("has_tm", has_tm()),
        ("has_pbe", has_pbe()),
    ]
);
fields!(CacheParameter, "CacheParameter", [
    ("cache_type", cache_type()),
    ("level", level()),
    ("is_self_initializing", is_self_initializing()),
    ("is_fully_associative", is_fully_associative()),
    ("max_cores_for_cache", max_cores_for_cache()),
    ("max_cores_for_package", max_cores_for_package()),
    ("coherency_line_size", coherency_line_size()),
    ("physical_line_partitions", physical_line_partitions()),
    ("associativity", associativity()),
    ("sets", sets()),
    ("is_write_back_invalidate", is_write_back_invalidate()),
    ("is_inclusive", is_inclusive()),
    ("has_complex_indexing", has_complex_indexing()),
], v => [
    ("cache_type", v.cache_type()),
]);
fields!(
    MonitorMwaitInfo,
    "MonitorMwaitInfo",
    [
        ("smallest_monitor_line", smallest_monitor_line()),
        ("largest_monitor_line", largest_monitor_line()),
        ("extensions_supported", extensions_supported()),
        ("interrupts_as_break_event", interrupts_as_break_event()),
        ("supported_c0_states", supported_c0_states()),
        ("supported_c1_states", supported_c1_states()),
        ("supported_c2_states", supported_c2_states()),
        ("supported_c3_states", supported_c3_states()),
        ("supported_c4_states", supported_c4_states()),
        ("supported_c5_states", supported_c5_states()),
        ("supported_c6_states", supported_c6_states()),
        ("supported_c7_states", supported_c7_states()),
    ]
);
fields!(
    ThermalPowerInfo,
    "ThermalPowerInfo",
    [
        ("dts_irq_threshold", dts_irq_threshold()),
        ("has_dts", has_dts()),
        ("has_turbo_boost", has_turbo_boost()),
        ("has_arat", has_arat()),
        ("has_pln", has_pln()),
        ("has_ecmd", has_ecmd()),
        ("has_ptm", has_ptm()),
        ("has_hwp", has_hwp()),
        ("has_hwp_notification", has_hwp_notification()),
        ("has_hwp_activity_window", has_hwp_activity_window()),
        (
            "has_hwp_energy_performance_preference",
            has_hwp_energy_performance_preference()
        ),
        (
            "has_hwp_package_level_request",
            has_hwp_package_level_request()
        ),
        ("has_hdc", has_hdc()),
        ("has_turbo_boost3", has_turbo_boost3()),
        ("has_hwp_capabilities", has_hwp_capabilities()),
        ("has_hwp_peci_override", has_hwp_peci_override()),
        ("has_flexible_hwp", has_flexible_hwp()),
        ("has_hwp_fast_access_mode", has_hwp_fast_access_mode()),
        (
            "has_ignore_idle_processor_hwp_request",
            has_ignore_idle_processor_hwp_request()
        ),
        ("has_hw_coord_feedback", has_hw_coord_feedback()),
        ("has_energy_bias_pref", has_energy_bias_pref()),
    ]
);
fields!(
    ExtendedFeatures,
    "ExtendedFeatures",
    [
        ("has_fsgsbase", has_fsgsbase()),
        ("has_tsc_adjust_msr", has_tsc_adjust_msr()),
        ("has_bmi1", has_bmi1()),
        ("has_hle", has_hle()),
        ("has_avx2", has_avx2()),
        ("has_fdp", has_fdp()),
        ("has_smep", has_smep()),
        ("has_bmi2", has_bmi2()),
        ("has_rep_movsb_stosb", has_rep_movsb_stosb()),
        ("has_invpcid", has_invpcid()),
        ("has_rtm", has_rtm()),
        ("has_rdtm", has_rdtm()),
        ("has_fpu_cs_ds_deprecated", has_fpu_cs_ds_deprecated()),
        ("has_mpx", has_mpx()),
        ("has_rdta", has_rdta()),
        ("has_rdseed", has_rdseed()),
        ("has_adx", has_adx()),
        ("has_smap", has_smap()),
        ("has_clflushopt", has_clflushopt()),
        ("has_processor_trace", has_processor_trace()),
        ("has_sha", has_sha()),
        ("has_sgx", has_sgx()),
        ("has_avx512f", has_avx512f()),
        ("has_avx512dq", has_avx512dq()),
        ("has_avx512_ifma", has_avx512_ifma()),
        ("has_avx512pf", has_avx512pf()),
        ("has_avx512er", has_avx512er()),
        ("has_avx512cd", has_avx512cd()),
        ("has_avx512bw", has_avx512bw()),
        ("has_avx512vl", has_avx512vl()),
        ("has_clwb", has_clwb()),
        ("has_prefetchwt1", has_prefetchwt1()),
        ("has_avx512vbmi", has_avx512vbmi()),
        ("has_umip", has_umip()),
        ("has_pku", has_pku()),
        ("has_ospke", has_ospke()),
        ("has_waitpkg", has_waitpkg()),
        ("has_av512vbmi2", has_av512vbmi2()),
        ("has_avx512vbmi2", has_avx512vbmi2()),
        ("has_cet_ss", has_cet_ss()),
        ("has_gfni", has_gfni()),
        ("has_vaes", has_vaes()),
        ("has_vpclmulqdq", has_vpclmulqdq()),
        ("has_avx512vnni", has_avx512vnni()),
        ("has_avx512bitalg", has_avx512bitalg()),
        ("has_tme_en", has_tme_en()),
        ("has_avx512vpopcntdq", has_avx512vpopcntdq()),
        ("has_la57", has_la57()),
        ("has_rdpid", has_rdpid()),
        ("has_sgx_lc", has_sgx_lc()),
        ("mawau_value", mawau_value()),
        ("has_avx512_4vnniw", has_avx512_4vnniw()),
        ("has_avx512_4fmaps", has_avx512_4fmaps()),
        ("has_avx512_vp2intersect", has_avx512_vp2intersect()),
        ("has_amx_bf16", has_amx_bf16()),
        ("has_avx512_fp16", has_avx512_fp16()),
        ("has_amx_tile", has_amx_tile()),
        ("has_amx_int8", has_amx_int8()),
        ("has_avx_vnni", has_avx_vnni()),
        ("has_avx512_bf16", has_avx512_bf16()),
        ("has_fzrm", has_fzrm()),
        ("has_fsrs", has_fsrs()),
        ("has_fsrcrs", has_fsrcrs()),
        ("has_hreset", has_hreset()),
        ("has_avx_ifma", has_avx_ifma()),
        ("has_lam", has_lam()),
        ("has_msrlist", has_msrlist()),
        (
            "has_invd_disable_post_bios_done",
            has_invd_disable_post_bios_done()
        ),
        ("has_avx_vnni_int8", has_avx_vnni_int8()),
        ("has_avx_ne_convert", has_avx_ne_convert()),
        ("has_avx_vnni_int16", has_avx_vnni_int16()),
        ("has_prefetchi", has_prefetchi()),
        ("has_uiret_uif", has_uiret_uif()),
        ("has_cet_sss", has_cet_sss()),
        ("has_avx10", has_avx10()),
    ]
);
fields!(
    DirectCacheAccessInfo,
    "DirectCacheAccessInfo",
    [("get_dca_cap_value", get_dca_cap_value()),]
);
fields!(
    PerformanceMonitoringInfo,
    "PerformanceMonitoringInfo",
    [
        ("version_id", version_id()),
        ("number_of_counters", number_of_counters()),
        ("counter_bit_width", counter_bit_width()),
        ("ebx_length", ebx_length()),
        ("fixed_function_counters", fixed_function_counters()),
        (
            "fixed_function_counters_bit_width",
            fixed_function_counters_bit_width()
        ),
        ("has_any_thread_deprecation", has_any_thread_deprecation()),
        ("is_core_cyc_ev_unavailable", is_core_cyc_ev_unavailable()),
        ("is_inst_ret_ev_unavailable", is_inst_ret_ev_unavailable()),
        ("is_ref_cycle_ev_unavailable", is_ref_cycle_ev_unavailable()),
        ("is_cache_ref_ev_unavailable", is_cache_ref_ev_unavailable()),
        (
            "is_ll_cache_miss_ev_unavailable",
            is_ll_cache_miss_ev_unavailable()
        ),
        (
            "is_branch_inst_ret_ev_unavailable",
            is_branch_inst_ret_ev_unavailable()
        ),
        (
            "is_branch_midpred_ev_unavailable",
            is_branch_midpred_ev_unavailable()
        ),
    ]
);
fields!(ExtendedTopologyLevel, "ExtendedTopologyLevel", [
    ("processors", processors()),
    ("level_number", level_number()),
    ("level_type", level_type()),
    ("x2apic_id", x2apic_id()),
    ("shift_right_for_next_apic_id", shift_right_for_next_apic_id()),
], v => [
    ("level_type", v.level_type()),
]);
fields!(generic ExtendedStateInfo, "ExtendedStateInfo", [
    ("xcr0_supports_legacy_x87", xcr0_supports_legacy_x87()),
    ("xcr0_supports_sse_128", xcr0_supports_sse_128()),
    ("xcr0_supports_avx_256", xcr0_supports_avx_256()),
    ("xcr0_supports_mpx_bndregs", xcr0_supports_mpx_bndregs()),
    ("xcr0_supports_mpx_bndcsr", xcr0_supports_mpx_bndcsr()),
    ("xcr0_supports_avx512_opmask", xcr0_supports_avx512_opmask()),
    ("xcr0_supports_avx512_zmm_hi256", xcr0_supports_avx512_zmm_hi256()),
    ("xcr0_supports_avx512_zmm_hi16", xcr0_supports_avx512_zmm_hi16()),
    ("xcr0_supports_pkru", xcr0_supports_pkru()),
    ("ia32_xss_supports_pt", ia32_xss_supports_pt()),
    ("ia32_xss_supports_hdc", ia32_xss_supports_hdc()),
    ("xsave_area_size_enabled_features", xsave_area_size_enabled_features()),
    ("xsave_area_size_supported_features", xsave_area_size_supported_features()),
    ("has_xsaveopt", has_xsaveopt()),
    ("has_xsavec", has_xsavec()),
    ("has_xgetbv", has_xgetbv()),
    ("has_xsaves_xrstors", has_xsaves_xrstors()),
    ("xsave_size", xsave_size()),
]);
fields!(ExtendedState, "ExtendedState", [
    ("register", register()),
    ("size", size()),
    ("offset", offset()),
    ("location", location()),
    ("is_in_ia32_xss", is_in_ia32_xss()),
    ("is_in_xcr0", is_in_xcr0()),
    ("is_compacted_format", is_compacted_format()),
], v => [
    ("register", v.register()),
    ("location", v.location()),
]);
fields!(generic RdtMonitoringInfo, "RdtMonitoringInfo", [
    ("rmid_range", rmid_range()),
    ("has_l3_monitoring", has_l3_monitoring()),
]);
fields!(
    L3MonitoringInfo,
    "L3MonitoringInfo",
    [
        ("conversion_factor", conversion_factor()),
        ("maximum_rmid_range", maximum_rmid_range()),
        ("has_occupancy_monitoring", has_occupancy_monitoring()),
        (
            "has_total_bandwidth_monitoring",
            has_total_bandwidth_monitoring()
        ),
        (
            "has_local_bandwidth_monitoring",
            has_local_bandwidth_monitoring()
        ),
    ]
);
fields!(generic RdtAllocationInfo, "RdtAllocationInfo", [
    ("has_l3_cat", has_l3_cat()),
    ("has_l2_cat", has_l2_cat()),
    ("has_memory_bandwidth_allocation", has_memory_bandwidth_allocation()),
]);
fields!(
    L3CatInfo,
    "L3CatInfo",
    [
        ("capacity_mask_length", capacity_mask_length()),
        ("isolation_bitmap", isolation_bitmap()),
        ("highest_cos", highest_cos()),
        (
            "has_code_data_prioritization",
            has_code_data_prioritization()
        ),
    ]
);
fields!(
    L2CatInfo,
    "L2CatInfo",
    [
        ("capacity_mask_length", capacity_mask_length()),
        ("isolation_bitmap", isolation_bitmap()),
        ("highest_cos", highest_cos()),
    ]
);
fields!(
    MemBwAllocationInfo,
    "MemBwAllocationInfo",
    [
        ("max_hba_throttling", max_hba_throttling()),
        ("highest_cos", highest_cos()),
        ("has_linear_response_delay", has_linear_response_delay()),
    ]
);
fields!(generic SgxInfo, "SgxInfo", [
    ("has_sgx1", has_sgx1()),
    ("has_sgx2", has_sgx2()),
    ("has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext", has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext()),
    ("has_encls_leaves_etrackc_erdinfo_eldbc_elduc", has_encls_leaves_etrackc_erdinfo_eldbc_elduc()),
    ("miscselect", miscselect()),
    ("max_enclave_size_non_64bit", max_enclave_size_non_64bit()),
    ("max_enclave_size_64bit", max_enclave_size_64bit()),
    ("secs_attributes_lower", secs_attributes().0),
    ("secs_attributes_upper", secs_attributes().1),
]);
fields!(
    EpcSection,
    "EpcSection",
    [("physical_base", physical_base()), ("size", size()),]
);
fields!(
    ProcessorTraceInfo,
    "ProcessorTraceInfo",
    [
        ("has_rtit_cr3_match", has_rtit_cr3_match()),
        (
            "has_configurable_psb_and_cycle_accurate_mode",
            has_configurable_psb_and_cycle_accurate_mode()
        ),
        ("has_ip_tracestop_filtering", has_ip_tracestop_filtering()),
        (
            "has_mtc_timing_packet_coefi_suppression",
            has_mtc_timing_packet_coefi_suppression()
        ),
        ("has_ptwrite", has_ptwrite()),
        ("has_power_event_trace", has_power_event_trace()),
        ("has_topa", has_topa()),
        ("has_topa_maximum_entries", has_topa_maximum_entries()),
        (
            "has_single_range_output_scheme",
            has_single_range_output_scheme()
        ),
        (
            "has_trace_transport_subsystem",
            has_trace_transport_subsystem()
        ),
        ("has_lip_with_cs_base", has_lip_with_cs_base()),
        ("configurable_address_ranges", configurable_address_ranges()),
        (
            "supported_mtc_period_encodings",
            supported_mtc_period_encodings()
        ),
        (
            "supported_cycle_threshold_value_encodings",
            supported_cycle_threshold_value_encodings()
        ),
        (
            "supported_psb_frequency_encodings",
            supported_psb_frequency_encodings()
        ),
    ]
);
fields!(
    TscInfo,
    "TscInfo",
    [
        ("denominator", denominator()),
        ("numerator", numerator()),
        ("nominal_frequency", nominal_frequency()),
        ("tsc_frequency", tsc_frequency()),
    ]
);
fields!(
    ProcessorFrequencyInfo,
    "ProcessorFrequencyInfo",
    [
        ("processor_base_frequency", processor_base_frequency()),
        ("processor_max_frequency", processor_max_frequency()),
        ("bus_frequency", bus_frequency()),
    ]
);
fields!(DatInfo, "DatInfo", [
    ("has_4k_entries", has_4k_entries()),
    ("has_2mb_entries", has_2mb_entries()),
    ("has_4mb_entries", has_4mb_entries()),
    ("has_1gb_entries", has_1gb_entries()),
    ("is_fully_associative", is_fully_associative()),
    ("partitioning", partitioning()),
    ("ways", ways()),
    ("sets", sets()),
    ("cache_type", cache_type()),
    ("cache_level", cache_level()),
    ("max_addressable_ids", max_addressable_ids()),
], v => [
    ("cache_type", v.cache_type()),
]);
fields!(generic SoCVendorInfo, "SoCVendorInfo", [
    ("get_soc_vendor_id", get_soc_vendor_id()),
    ("get_project_id", get_project_id()),
    ("get_stepping_id", get_stepping_id()),
]);
fields!(SoCVendorBrand, "SoCVendorBrand", [
    ("as_str", as_str()),
    ("as_string", as_string()),
], v => [
    ("self", v),
]);
fields!(generic HypervisorInfo, "HypervisorInfo", [
    ("identify", identify()),
    ("tsc_frequency", tsc_frequency()),
    ("apic_frequency", apic_frequency()),
]);
fields!(
    ExtendedProcessorFeatureIdentifiers,
    "ExtendedProcessorFeatureIdentifiers",
    [
        ("extended_signature", extended_signature()),
        ("pkg_type", pkg_type()),
        ("brand_id", brand_id()),
        ("has_lahf_sahf", has_lahf_sahf()),
        ("has_cmp_legacy", has_cmp_legacy()),
        ("has_svm", has_svm()),
        ("has_ext_apic_space", has_ext_apic_space()),
        ("has_alt_mov_cr8", has_alt_mov_cr8()),
        ("has_lzcnt", has_lzcnt()),
        ("has_sse4a", has_sse4a()),
        ("has_misaligned_sse_mode", has_misaligned_sse_mode()),
        ("has_prefetchw", has_prefetchw()),
        ("has_osvw", has_osvw()),
        ("has_ibs", has_ibs()),
        ("has_xop", has_xop()),
        ("has_skinit", has_skinit()),
        ("has_wdt", has_wdt()),
        ("has_lwp", has_lwp()),
        ("has_fma4", has_fma4()),
        ("has_tbm", has_tbm()),
        ("has_topology_extensions", has_topology_extensions()),
        ("has_perf_cntr_extensions", has_perf_cntr_extensions()),
        ("has_nb_perf_cntr_extensions", has_nb_perf_cntr_extensions()),
        (
            "has_data_access_bkpt_extension",
            has_data_access_bkpt_extension()
        ),
        ("has_perf_tsc", has_perf_tsc()),
        (
            "has_perf_cntr_llc_extensions",
            has_perf_cntr_llc_extensions()
        ),
        ("has_monitorx_mwaitx", has_monitorx_mwaitx()),
        ("has_addr_mask_extension", has_addr_mask_extension()),
        ("has_syscall_sysret", has_syscall_sysret()),
        ("has_execute_disable", has_execute_disable()),
        ("has_mmx_extensions", has_mmx_extensions()),
        ("has_fast_fxsave_fxstor", has_fast_fxsave_fxstor()),
        ("has_1gib_pages", has_1gib_pages()),
        ("has_rdtscp", has_rdtscp()),
        ("has_64bit_mode", has_64bit_mode()),
        ("has_amd_3dnow_extensions", has_amd_3dnow_extensions()),
        ("has_3dnow", has_3dnow()),
    ]
);
fields!(
    ProcessorBrandString,
    "ProcessorBrandString",
    [("as_str", as_str()),]
);
fields!(L1CacheTlbInfo, "L1CacheTlbInfo", [
    ("dtlb_2m_4m_associativity", dtlb_2m_4m_associativity()),
    ("dtlb_2m_4m_size", dtlb_2m_4m_size()),
    ("itlb_2m_4m_associativity", itlb_2m_4m_associativity()),
    ("itlb_2m_4m_size", itlb_2m_4m_size()),
    ("dtlb_4k_associativity", dtlb_4k_associativity()),
    ("dtlb_4k_size", dtlb_4k_size()),
    ("itlb_4k_associativity", itlb_4k_associativity()),
    ("itlb_4k_size", itlb_4k_size()),
    ("dcache_size", dcache_size()),
    ("dcache_associativity", dcache_associativity()),
    ("dcache_lines_per_tag", dcache_lines_per_tag()),
    ("dcache_line_size", dcache_line_size()),
    ("icache_size", icache_size()),
    ("icache_associativity", icache_associativity()),
    ("icache_lines_per_tag", icache_lines_per_tag()),
    ("icache_line_size", icache_line_size()),
], v => [
    ("dtlb_2m_4m_associativity", v.dtlb_2m_4m_associativity()),
    ("itlb_2m_4m_associativity", v.itlb_2m_4m_associativity()),
    ("dtlb_4k_associativity", v.dtlb_4k_associativity()),
    ("itlb_4k_associativity", v.itlb_4k_associativity()),
    ("dcache_associativity", v.dcache_associativity()),
    ("icache_associativity", v.icache_associativity()),
]);
fields!(L2And3CacheTlbInfo, "L2And3CacheTlbInfo", [
    ("dtlb_2m_4m_associativity", dtlb_2m_4m_associativity()),
    ("dtlb_2m_4m_size", dtlb_2m_4m_size()),
    ("itlb_2m_4m_associativity", itlb_2m_4m_associativity()),
    ("itlb_2m_4m_size", itlb_2m_4m_size()),
    ("dtlb_4k_associativity", dtlb_4k_associativity()),
    ("dtlb_4k_size", dtlb_4k_size()),
    ("itlb_4k_associativity", itlb_4k_associativity()),
    ("itlb_4k_size", itlb_4k_size()),
    ("l2cache_line_size", l2cache_line_size()),
    ("l2cache_lines_per_tag", l2cache_lines_per_tag()),
    ("l2cache_associativity", l2cache_associativity()),
    ("l2cache_size", l2cache_size()),
    ("l3cache_line_size", l3cache_line_size()),
    ("l3cache_lines_per_tag", l3cache_lines_per_tag()),
    ("l3cache_associativity", l3cache_associativity()),
    ("l3cache_size", l3cache_size()),
], v => [
    ("dtlb_2m_4m_associativity", v.dtlb_2m_4m_associativity()),
    ("itlb_2m_4m_associativity", v.itlb_2m_4m_associativity()),
    ("dtlb_4k_associativity", v.dtlb_4k_associativity()),
    ("itlb_4k_associativity", v.itlb_4k_associativity()),
    ("l2cache_associativity", v.l2cache_associativity()),
    ("l3cache_associativity", v.l3cache_associativity()),
]);
fields!(
    ApmInfo,
    "ApmInfo",
    [
        ("has_mca_overflow_recovery", has_mca_overflow_recovery()),
        ("has_succor", has_succor()),
        ("has_hwa", has_hwa()),
        ("cpu_pwr_sample_time_ratio", cpu_pwr_sample_time_ratio()),
        ("has_ts", has_ts()),
        ("has_freq_id_ctrl", has_freq_id_ctrl()),
        ("has_volt_id_ctrl", has_volt_id_ctrl()),
        ("has_thermtrip", has_thermtrip()),
        ("has_tm", has_tm()),
        ("has_100mhz_steps", has_100mhz_steps()),
        ("has_hw_pstate", has_hw_pstate()),
        ("has_invariant_tsc", has_invariant_tsc()),
        ("has_cpb", has_cpb()),
        ("has_ro_effective_freq_iface", has_ro_effective_freq_iface()),
        ("has_feedback_iface", has_feedback_iface()),
        ("has_power_reporting_iface", has_power_reporting_iface()),
    ]
);
fields!(
    ProcessorCapacityAndFeatureInfo,
    "ProcessorCapacityAndFeatureInfo",
    [
        ("physical_address_bits", physical_address_bits()),
        ("linear_address_bits", linear_address_bits()),
        ("guest_physical_address_bits", guest_physical_address_bits()),
        ("has_cl_zero", has_cl_zero()),
        ("has_inst_ret_cntr_msr", has_inst_ret_cntr_msr()),
        ("has_restore_fp_error_ptrs", has_restore_fp_error_ptrs()),
        ("has_invlpgb", has_invlpgb()),
        ("has_rdpru", has_rdpru()),
        ("has_mcommit", has_mcommit()),
        ("has_wbnoinvd", has_wbnoinvd()),
        ("has_int_wbinvd", has_int_wbinvd()),
        ("has_unsupported_efer_lmsle", has_unsupported_efer_lmsle()),
        ("has_invlpgb_nested", has_invlpgb_nested()),
        ("perf_tsc_size", perf_tsc_size()),
        ("apic_id_size", apic_id_size()),
        ("maximum_logical_processors", maximum_logical_processors()),
        ("num_phys_threads", num_phys_threads()),
        ("invlpgb_max_pages", invlpgb_max_pages()),
        ("max_rdpru_id", max_rdpru_id()),
    ]
);
fields!(
    SvmFeatures,
    "SvmFeatures",
    [
        ("revision", revision()),
        ("supported_asids", supported_asids()),
        ("has_nested_paging", has_nested_paging()),
        ("has_lbr_virtualization", has_lbr_virtualization()),
        ("has_svm_lock", has_svm_lock()),
        ("has_nrip", has_nrip()),
        ("has_tsc_rate_msr", has_tsc_rate_msr()),
        ("has_vmcb_clean_bits", has_vmcb_clean_bits()),
        ("has_flush_by_asid", has_flush_by_asid()),
        ("has_decode_assists", has_decode_assists()),
        ("has_pause_filter", has_pause_filter()),
        ("has_pause_filter_threshold", has_pause_filter_threshold()),
        ("has_avic", has_avic()),
        ("has_vmsave_virtualization", has_vmsave_virtualization()),
        ("has_gif", has_gif()),
        ("has_gmet", has_gmet()),
        ("has_sss_check", has_sss_check()),
        ("has_spec_ctrl", has_spec_ctrl()),
        ("has_host_mce_override", has_host_mce_override()),
        ("has_tlb_ctrl", has_tlb_ctrl()),
    ]
);
fields!(Tlb1gbPageInfo, "Tlb1gbPageInfo", [
    ("dtlb_l1_1gb_associativity", dtlb_l1_1gb_associativity()),
    ("dtlb_l1_1gb_size", dtlb_l1_1gb_size()),
    ("itlb_l1_1gb_associativity", itlb_l1_1gb_associativity()),
    ("itlb_l1_1gb_size", itlb_l1_1gb_size()),
    ("dtlb_l2_1gb_associativity", dtlb_l2_1gb_associativity()),
    ("dtlb_l2_1gb_size", dtlb_l2_1gb_size()),
    ("itlb_l2_1gb_associativity", itlb_l2_1gb_associativity()),
    ("itlb_l2_1gb_size", itlb_l2_1gb_size()),
], v => [
    ("dtlb_l1_1gb_associativity", v.dtlb_l1_1gb_associativity()),
    ("itlb_l1_1gb_associativity", v.itlb_l1_1gb_associativity()),
    ("dtlb_l2_1gb_associativity", v.dtlb_l2_1gb_associativity()),
    ("itlb_l2_1gb_associativity", v.itlb_l2_1gb_associativity()),
]);
fields!(
    PerformanceOptimizationInfo,
    "PerformanceOptimizationInfo",
    [
        ("has_fp128", has_fp128()),
        ("has_movu", has_movu()),
        ("has_fp256", has_fp256()),
    ]
);
fields!(
    InstructionBasedSamplingCapabilities,
    "InstructionBasedSamplingCapabilities",
    [
        ("has_feature_flags", has_feature_flags()),
        ("has_fetch_sampling", has_fetch_sampling()),
        ("has_execution_sampling", has_execution_sampling()),
        (
            "has_read_write_operation_counter",
            has_read_write_operation_counter()
        ),
        ("has_operation_counter", has_operation_counter()),
        (
            "has_branch_target_address_reporting",
            has_branch_target_address_reporting()
        ),
        (
            "has_operation_counter_extended",
            has_operation_counter_extended()
        ),
        ("has_invalid_rip_indication", has_invalid_rip_indication()),
        (
            "has_fused_branch_micro_op_indication",
            has_fused_branch_micro_op_indication()
        ),
        ("has_l3_miss_filtering", has_l3_miss_filtering()),
    ]
);
fields!(
    ProcessorTopologyInfo,
    "ProcessorTopologyInfo",
    [
        ("x2apic_id", x2apic_id()),
        ("core_id", core_id()),
        ("threads_per_core", threads_per_core()),
        ("node_id", node_id()),
        ("nodes_per_processor", nodes_per_processor()),
    ]
);
fields!(
    MemoryEncryptionInfo,
    "MemoryEncryptionInfo",
    [
        ("has_sme", has_sme()),
        ("has_sev", has_sev()),
        ("has_page_flush_msr", has_page_flush_msr()),
        ("has_sev_es", has_sev_es()),
        ("has_sev_snp", has_sev_snp()),
        ("has_vmpl", has_vmpl()),
        ("has_hw_enforced_cache_coh", has_hw_enforced_cache_coh()),
        ("has_64bit_mode", has_64bit_mode()),
        ("has_restricted_injection", has_restricted_injection()),
        ("has_alternate_injection", has_alternate_injection()),
        ("has_debug_swap", has_debug_swap()),
        ("has_prevent_host_ibs", has_prevent_host_ibs()),
        ("has_vte", has_vte()),
        ("c_bit_position", c_bit_position()),
        ("physical_address_reduction", physical_address_reduction()),
        ("max_encrypted_guests", max_encrypted_guests()),
        ("min_sev_no_es_asid", min_sev_no_es_asid()),
    ]
);
fields!(generic PqosExtendedFeatureInfo, "PqosExtendedFeatureInfo", [
    ("has_l3mbe", has_l3mbe()),
    ("has_l3smbe", has_l3smbe()),
    ("has_bmec", has_bmec()),
    ("has_l3rr", has_l3rr()),
    ("has_abmc", has_abmc()),
    ("has_sdciae", has_sdciae()),
]);
fields!(
    L3MemoryBandwidthEnforcementInformation,
    "L3MemoryBandwidthEnforcementInformation",
    [
        ("bandwidth_length", bandwidth_length()),
        ("cos_max", cos_max()),
    ]
);
fields!(
    BandwidthMonitoringEventCounters,
    "BandwidthMonitoringEventCounters",
    [
        ("number_events", number_events()),
        (
            "has_l3_cache_lcl_bw_fill_mon",
            has_l3_cache_lcl_bw_fill_mon()
        ),
        (
            "has_l3_cache_rmt_bw_fill_mon",
            has_l3_cache_rmt_bw_fill_mon()
        ),
        (
            "has_l3_cache_lcl_bw_nt_wr_mon",
            has_l3_cache_lcl_bw_nt_wr_mon()
        ),
        (
            "has_l3_cache_rmt_bw_nt_wr_mon",
            has_l3_cache_rmt_bw_nt_wr_mon()
        ),
        (
            "has_l3_cache_lcl_slow_bw_fill_mon",
            has_l3_cache_lcl_slow_bw_fill_mon()
        ),
        (
            "has_l3_cache_rmt_slow_bw_fill_mon",
            has_l3_cache_rmt_slow_bw_fill_mon()
        ),
        ("has_l3_cache_vic_mon", has_l3_cache_vic_mon()),
    ]
);
fields!(
    AssignableBandwidthMonitoringCounterInfo,
    "AssignableBandwidthMonitoringCounterInfo",
    [
        ("counter_size", counter_size()),
        ("has_overflow_bit", has_overflow_bit()),
        ("max_abmc", max_abmc()),
        ("has_select_cos", has_select_cos()),
    ]
);
fields!(
    ExtendedFeatureIdentification2,
    "ExtendedFeatureIdentification2",
    [
        ("has_no_nested_data_bp", has_no_nested_data_bp()),
        (
            "has_lfence_always_serializing",
            has_lfence_always_serializing()
        ),
        ("has_smm_pg_cfg_lock", has_smm_pg_cfg_lock()),
        ("has_null_select_clears_base", has_null_select_clears_base()),
        ("has_upper_address_ignore", has_upper_address_ignore()),
        ("has_automatic_ibrs", has_automatic_ibrs()),
        ("has_no_smm_ctl_msr", has_no_smm_ctl_msr()),
        ("has_prefetch_ctl_msr", has_prefetch_ctl_msr()),
        ("has_cpuid_user_dis", has_cpuid_user_dis()),
        ("microcode_patch_size", microcode_patch_size()),
    ]
);
fields!(
    ExtendedPerformanceMonitoringDebug,
    "ExtendedPerformanceMonitoringDebug",
    [
        ("has_perf_mon_v2", has_perf_mon_v2()),
        ("has_lbr_stack", has_lbr_stack()),
        ("has_lbr_and_pmc_freeze", has_lbr_and_pmc_freeze()),
        ("num_perf_ctr_core", num_perf_ctr_core()),
        ("num_lbr_stack_size", num_lbr_stack_size()),
        ("num_perf_ctr_nb", num_perf_ctr_nb()),
    ]
);
fields!(
    MultiKeyEncryptedMemoryCapabilities,
    "MultiKeyEncryptedMemoryCapabilities",
    [
        ("has_mem_hmk", has_mem_hmk()),
        ("max_mem_hmk_encr_key_id", max_mem_hmk_encr_key_id()),
    ]
);
fields!(ExtendedCpuTopologyLevel, "ExtendedCpuTopologyLevel", [
    ("mask_width", mask_width()),
    ("has_efficiency_ranking_available", has_efficiency_ranking_available()),
    ("has_heterogeneous_cores", has_heterogeneous_cores()),
    ("has_asymmetric_topology", has_asymmetric_topology()),
    ("num_logical_processors", num_logical_processors()),
    ("pwr_efficiency_ranking", pwr_efficiency_ranking()),
    ("native_mode_id", native_mode_id()),
    ("core_type", core_type()),
    ("input_ecx", input_ecx()),
    ("level_type", level_type()),
    ("extended_apic_id", extended_apic_id()),
], v => [
    ("level_type", v.level_type()),
]);
fields!(
    CpuIdResult,
    "CpuIdRaw",
    [("eax", eax), ("ebx", ebx), ("ecx", ecx), ("edx", edx),]
);

pub fn meta() -> Vec<(&'static str, &'static [&'static str])> {
    fn m<T: Fields>() -> (&'static str, &'static [&'static str]) {
        (T::NAME, T::NAMES)
    }
    vec![
        m::<VendorInfo>(),
        m::<CacheInfo>(),
        m::<ProcessorSerial>(),
        m::<FeatureInfo>(),
        m::<CacheParameter>(),
        m::<MonitorMwaitInfo>(),
        m::<ThermalPowerInfo>(),
        m::<ExtendedFeatures>(),
        m::<DirectCacheAccessInfo>(),
        m::<PerformanceMonitoringInfo>(),
        m::<ExtendedTopologyLevel>(),
        m::<ExtendedStateInfo<Rdr>>(),
        m::<ExtendedState>(),
        m::<RdtMonitoringInfo<Rdr>>(),
        m::<L3MonitoringInfo>(),
        m::<RdtAllocationInfo<Rdr>>(),
        m::<L3CatInfo>(),
        m::<L2CatInfo>(),
        m::<MemBwAllocationInfo>(),
        m::<SgxInfo<Rdr>>(),
        m::<EpcSection>(),
        m::<ProcessorTraceInfo>(),
        m::<TscInfo>(),
        m::<ProcessorFrequencyInfo>(),
        m::<DatInfo>(),
        m::<SoCVendorInfo<Rdr>>(),
        m::<SoCVendorBrand>(),
        m::<HypervisorInfo<Rdr>>(),
        m::<ExtendedProcessorFeatureIdentifiers>(),
        m::<ProcessorBrandString>(),
        m::<L1CacheTlbInfo>(),
        m::<L2And3CacheTlbInfo>(),
        m::<ApmInfo>(),
        m::<ProcessorCapacityAndFeatureInfo>(),
        m::<SvmFeatures>(),
        m::<Tlb1gbPageInfo>(),
        m::<PerformanceOptimizationInfo>(),
        m::<InstructionBasedSamplingCapabilities>(),
        m::<ProcessorTopologyInfo>(),
        m::<MemoryEncryptionInfo>(),
        m::<PqosExtendedFeatureInfo<Rdr>>(),
        m::<L3MemoryBandwidthEnforcementInformation>(),
        m::<BandwidthMonitoringEventCounters>(),
        m::<AssignableBandwidthMonitoringCounterInfo>(),
        m::<ExtendedFeatureIdentification2>(),
        m::<ExtendedPerformanceMonitoringDebug>(),
        m::<MultiKeyEncryptedMemoryCapabilities>(),
        m::<ExtendedCpuTopologyLevel>(),
        m::<CpuIdResult>(),
    ]
}

/// The published conversions from numbers.
pub fn meaning(of: &str, n: i64) -> Vec<i64> {
    match of {
        "register" => Enc::enc(&ExtendedRegisterType::from(n as u32)),
        "level" => Enc::enc(&HierarchyLevelType::from(n as u8)),
        _ => panic!("tool error: no such conversion {of}"),
    }
}

/// The numbers of the published enumerations.
pub fn number(of: &str, n: i64) -> u32 {
    match (of, n) {
        ("cache", 0) => CacheType::Null as u32,
        ("cache", 1) => CacheType::Data as u32,
        ("cache", 2) => CacheType::Instruction as u32,
        ("cache", 3) => CacheType::Unified as u32,
        ("topology", 0) => TopologyType::Invalid as u32,
        ("topology", 1) => TopologyType::SMT as u32,
        ("topology", 2) => TopologyType::Core as u32,
        ("topology", 3) => TopologyType::Module as u32,
        ("topology", 4) => TopologyType::Tile as u32,
        ("topology", 5) => TopologyType::Die as u32,
        ("dat", 0) => DatType::Null as u32,
        ("dat", 1) => DatType::DataTLB as u32,
        ("dat", 2) => DatType::InstructionTLB as u32,
        ("dat", 3) => DatType::UnifiedTLB as u32,
        ("dat", 4) => DatType::LoadOnly as u32,
        ("dat", 5) => DatType::StoreOnly as u32,
        _ => panic!("tool error: no such number {of} {n}"),
    }
}
