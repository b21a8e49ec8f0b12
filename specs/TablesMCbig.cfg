CONSTANT MaxHeap = 3
SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANT Once
PROPERTIES Frame Memo
CHECK_DEADLOCK FALSE
