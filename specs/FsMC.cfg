CONSTANTS Depth = 5
 Wide = FALSE
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
