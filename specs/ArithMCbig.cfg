CONSTANTS Base = 8
WI = 5
SPECIFICATION Spec
VIEW View
INVARIANT InRange
CHECK_DEADLOCK FALSE
