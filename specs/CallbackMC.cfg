CONSTANTS
  Depth = 7
  RestoreRoots = TRUE
  RestoreJump = TRUE
  CompareBase = TRUE
SPECIFICATION Spec
INVARIANT Agree
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
