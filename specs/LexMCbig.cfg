SPECIFICATION Spec
INVARIANT Right
CONSTANTS MaxLen = 2
 Second = "r1"
CHECK_DEADLOCK FALSE
