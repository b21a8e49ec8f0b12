SPECIFICATION Spec
CONSTANT MaxHeap = 2
CONSTRAINT Bounded
VIEW View
INVARIANTS WellFormed CanonIdem EqEquiv
PROPERTY RoundTrip
CHECK_DEADLOCK FALSE
