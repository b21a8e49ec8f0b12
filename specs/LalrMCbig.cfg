SPECIFICATION Spec
CONSTANT N = 7
INVARIANTS Derivable Viable NoConflict Tree Ends
CHECK_DEADLOCK FALSE
VIEW Seen
