CONSTANTS Base = 4
WI = 4
SPECIFICATION Spec
VIEW View
INVARIANT InRange
CHECK_DEADLOCK FALSE
