CONSTANT Steps = "all"
SPECIFICATION GateSpec
INVARIANTS Exact Within Conditions NeverBeyond
PROPERTY Monotone
CHECK_DEADLOCK FALSE
