SPECIFICATION Spec
CONSTANT MaxHeap = 3
CONSTRAINTS Bounded Depth
VIEW View
INVARIANTS WellFormed CanonIdem EqEquiv
PROPERTY RoundTrip
CHECK_DEADLOCK FALSE
