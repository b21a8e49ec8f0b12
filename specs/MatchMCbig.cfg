INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Rows3 = TRUE
INVARIANTS Exhaustion Redundancy FirstMatch
