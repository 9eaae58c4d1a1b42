CONSTANTS MaxN = 5
 MaxSweeps = 3
 Emit = TRUE
 Fault = ""
SPECIFICATION Spec
INVARIANTS Fresh Centred Covered
CHECK_DEADLOCK FALSE
