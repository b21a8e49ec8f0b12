CONSTANTS
 Depth = 11
 MaxSk = 4
 Kinds = {"fs"}
INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
