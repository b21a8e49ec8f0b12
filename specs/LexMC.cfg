SPECIFICATION Spec
INVARIANT Right
CONSTANTS MaxLen = 2
 Second = "leaf"
CHECK_DEADLOCK FALSE
