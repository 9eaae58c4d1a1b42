CONSTANTS
 MaxW = 2
 Fault = "none"
 Emit = FALSE
INIT Init
NEXT Next
INVARIANTS Exact Possible Complete Proper
CHECK_DEADLOCK FALSE
