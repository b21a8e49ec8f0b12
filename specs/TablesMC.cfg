CONSTANT MaxHeap = 2
SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANT Once
PROPERTIES Frame Memo
CHECK_DEADLOCK FALSE
