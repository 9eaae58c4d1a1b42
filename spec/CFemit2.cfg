CONSTANTS N = 2
 Fault = "none"
 Emit = TRUE
INIT Init
NEXT Next
VIEW ViewSmall
INVARIANTS Sound InRange
CHECK_DEADLOCK FALSE
