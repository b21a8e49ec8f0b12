CONSTANTS K = 6
 Depth = 90
 Weak = TRUE
 Gen = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
