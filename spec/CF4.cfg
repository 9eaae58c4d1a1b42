CONSTANTS N = 4
 Fault = "none"
 Emit = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS Sound InRange TypeOK NormWellDefined
CHECK_DEADLOCK FALSE
