CONSTANT N = 7
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
