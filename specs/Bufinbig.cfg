SPECIFICATION Spec
INVARIANTS Positions OutRefines FlushComplete InRefines
CONSTANTS B = 3
MaxLen = 8
MaxN = 7
MaxOps = 10
Side = "in"
ResetMax = TRUE
KeepPos = TRUE
CHECK_DEADLOCK FALSE
