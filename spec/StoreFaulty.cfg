CONSTANTS Files = {1, 2}
 Groups = {1, 2}
 MaxSteps = 5
 MaxObjs = 4
 Fault = "merge"
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
