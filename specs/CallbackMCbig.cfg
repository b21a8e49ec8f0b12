CONSTANTS
  Depth = 10
  RestoreRoots = TRUE
  RestoreJump = TRUE
  CompareBase = TRUE
SPECIFICATION Spec
INVARIANT Agree
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
