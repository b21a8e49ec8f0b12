CONSTANTS K = 2
 Depth = 4
 Weak = TRUE
 Gen = FALSE
SPECIFICATION Spec
INVARIANTS WellFormed ReapInvisible
CONSTRAINT Small
CHECK_DEADLOCK FALSE
