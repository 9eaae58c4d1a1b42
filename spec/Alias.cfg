CONSTANTS MaxSteps = 5
 MaxObjs = 4
 Emit = FALSE
 WriteThrough = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANT NoInterference
CHECK_DEADLOCK FALSE
