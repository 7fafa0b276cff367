CONSTANT Asked = {"feature_info", "hypervisor_info", "sgx_info", "cache_parameters", "rdt_monitoring_info", "svm_info"}
         Objs = {1, 2}
         Used = {1, 2, 3}
VIEW WithoutOut
SPECIFICATION LifeSpec
INVARIANTS Latched Inherits Snapshot Steady
PROPERTIES Stable Untouched Answered
CHECK_DEADLOCK FALSE
