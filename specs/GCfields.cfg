CONSTANTS N = 3
 NF = 2
 R = 2
 Weak = FALSE
 Barrier = TRUE
 RefTab = TRUE
 AllocBlack = TRUE
 WeakDarken = TRUE
 WeakDead = TRUE
SPECIFICATION Spec
INVARIANTS NoDangling WeakOk Remembered SweepInv DeadOk GrayProtected
PROPERTY Invisible
CHECK_DEADLOCK FALSE
