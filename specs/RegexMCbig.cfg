CONSTANTS
 Depth = 2
 MaxLen = 3
INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
