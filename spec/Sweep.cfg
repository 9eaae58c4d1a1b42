CONSTANTS MaxN = 6
 MaxSweeps = 3
 Emit = FALSE
 Fault = ""
SPECIFICATION Spec
INVARIANTS Fresh Centred Covered
PROPERTY Terminates
CHECK_DEADLOCK FALSE
