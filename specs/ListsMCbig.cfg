CONSTANTS N = 2
Depth = 4
SPECIFICATION Spec
VIEW View
INVARIANT Windows
PROPERTY Frame
CHECK_DEADLOCK FALSE
