SPECIFICATION Spec
INVARIANTS Once Pending
PROPERTIES Complete Only NoReturn Grows
CONSTANT Len1 = 2
CHECK_DEADLOCK FALSE
