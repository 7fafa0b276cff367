SPECIFICATION PSpec
INVARIANT Agree
CHECK_DEADLOCK FALSE
