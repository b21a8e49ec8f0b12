CONSTANTS Depth = 5
 Wide = TRUE
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
