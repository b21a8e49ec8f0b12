SPECIFICATION Spec
INVARIANTS Once Pending
PROPERTIES Complete Only NoReturn Grows
CONSTANT Len1 = 3
CHECK_DEADLOCK FALSE
