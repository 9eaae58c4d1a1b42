CONSTANTS MaxN = 6
 MaxSweeps = 3
 Emit = FALSE
 Fault = "stale-left"
SPECIFICATION Spec
INVARIANTS Fresh Centred Covered
PROPERTY Terminates
CHECK_DEADLOCK FALSE
