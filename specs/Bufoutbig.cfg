SPECIFICATION Spec
INVARIANTS Positions OutRefines FlushComplete InRefines
CONSTANTS B = 3
MaxLen = 8
MaxN = 7
MaxOps = 7
Side = "out"
ResetMax = TRUE
KeepPos = TRUE
CHECK_DEADLOCK FALSE
