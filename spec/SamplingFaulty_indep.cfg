CONSTANTS
 MaxW = 1
 Fault = "indep"
 Emit = FALSE
INIT Init
NEXT Next
INVARIANTS Exact Possible Complete Proper
CHECK_DEADLOCK FALSE
