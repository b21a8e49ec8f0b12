INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Rows3 = FALSE
INVARIANTS Exhaustion Redundancy FirstMatch
