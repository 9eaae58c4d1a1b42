CONSTANTS MaxSteps = 2
 MaxObjs = 3
 Emit = TRUE
 WriteThrough = FALSE
INIT Init
NEXT Next
INVARIANT NoInterference
CHECK_DEADLOCK FALSE
