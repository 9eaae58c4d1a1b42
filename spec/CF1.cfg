CONSTANTS N = 1
 Fault = "none"
 Emit = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS Sound InRange TypeOK NormWellDefined
CHECK_DEADLOCK FALSE
