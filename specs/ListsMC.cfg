CONSTANTS N = 2
Depth = 3
SPECIFICATION Spec
VIEW View
INVARIANT Windows
PROPERTY Frame
CHECK_DEADLOCK FALSE
