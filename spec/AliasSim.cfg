CONSTANTS MaxSteps = 4
 MaxObjs = 4
 Emit = TRUE
 WriteThrough = FALSE
INIT Init
NEXT Next
INVARIANT NoInterference
CHECK_DEADLOCK FALSE
