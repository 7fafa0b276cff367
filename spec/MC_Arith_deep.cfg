CONSTANTS Edge = TRUE
          Small = 90
INIT Init
NEXT Next
INVARIANTS SmallOk EdgeOk
CHECK_DEADLOCK FALSE
