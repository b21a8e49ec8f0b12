CONSTANTS MaxKey = 2
 NSlots = 2
 Depth = 9
 SetOps = FALSE
 Gen = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK Listing
CONSTRAINT Small
PROPERTY OneSlot
CHECK_DEADLOCK FALSE
