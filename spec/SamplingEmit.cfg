CONSTANTS
 MaxW = 1
 Fault = "none"
 Emit = TRUE
INIT Init
NEXT Next
INVARIANTS Exact Possible Complete Proper
CHECK_DEADLOCK FALSE
