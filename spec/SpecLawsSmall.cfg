CONSTANTS Seeds = 1
 MaxSites = 2
 Dims = {1, 2}
 Faulty = FALSE
INIT Init
NEXT Next
INVARIANTS Arithmetic Involutions Products Legs Chains States RanksOK
CHECK_DEADLOCK FALSE
