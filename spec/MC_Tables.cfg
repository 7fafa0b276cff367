INIT Init
NEXT Next
INVARIANTS Local WellFormed AmdOnly
CHECK_DEADLOCK FALSE
