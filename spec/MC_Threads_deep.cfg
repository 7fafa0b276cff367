CONSTANT Asked1 = {"cache_parameters", "rdt_allocation_info", "hypervisor_info", "sgx_info"}
         Asked2 = {"cache_parameters", "cache_info", "feature_info"}
VIEW WithoutOut
SPECIFICATION ThreadsSpec
INVARIANTS Separate Common Free
PROPERTIES Answered1 Answered2
CHECK_DEADLOCK FALSE
