CONSTANTS MaxKey = 9
 NSlots = 3
 Depth = 40
 SetOps = TRUE
 Gen = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
