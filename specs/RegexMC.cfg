CONSTANTS
 Depth = 1
 MaxLen = 4
INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
