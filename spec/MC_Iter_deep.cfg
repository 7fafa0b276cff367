CONSTANT Max = 3
SPECIFICATION IterSpec
INVARIANTS Right Ahead
CONSTRAINT Bound
PROPERTIES Fused Independent Ends
CHECK_DEADLOCK FALSE
