CONSTANTS First = 1965
 End = 2040
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
