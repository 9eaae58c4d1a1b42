CONSTANTS N = 1
 Fault = "none"
 Emit = TRUE
INIT Init
NEXT Next
VIEW ViewSmall
INVARIANTS Sound InRange
CHECK_DEADLOCK FALSE
