CONSTANTS K = 6
 Depth = 90
 Weak = FALSE
 Gen = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
