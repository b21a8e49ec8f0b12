CONSTANTS First = 0
 End = 2400
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
