SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Derivable Viable NoConflict Tree Ends
CHECK_DEADLOCK FALSE
VIEW Seen
