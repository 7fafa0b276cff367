CONSTANTS Edge = TRUE
          Small = 14
INIT Init
NEXT Next
INVARIANTS SmallOk EdgeOk
CHECK_DEADLOCK FALSE
