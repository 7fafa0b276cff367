INIT Init
NEXT Next
INVARIANTS Intel Amd Other Ranges Agree
CHECK_DEADLOCK FALSE
