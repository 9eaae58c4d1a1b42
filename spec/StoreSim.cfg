CONSTANTS Files = {1, 2}
 Groups = {1, 2}
 MaxSteps = 6
 MaxObjs = 5
 Fault = "none"
 Emit = TRUE
INIT Init
NEXT Next
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
