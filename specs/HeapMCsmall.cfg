CONSTANTS K = 2
 Depth = 3
 Weak = TRUE
 Gen = FALSE
SPECIFICATION Spec
INVARIANTS WellFormed ReapInvisible
CONSTRAINT Small
CHECK_DEADLOCK FALSE
