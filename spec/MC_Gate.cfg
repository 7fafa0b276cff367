CONSTANT Steps = "edges"
SPECIFICATION GateSpec
INVARIANTS Exact Within Conditions NeverBeyond
PROPERTY Monotone
CHECK_DEADLOCK FALSE
