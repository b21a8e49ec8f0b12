CONSTANTS MaxKey = 3
 NSlots = 2
 Depth = 9
 SetOps = TRUE
 Gen = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK Listing SetLaws
PROPERTY OneSlot
CHECK_DEADLOCK FALSE
