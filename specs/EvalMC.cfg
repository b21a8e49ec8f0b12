INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Deep = FALSE
INVARIANTS Terminates Agrees StoreOk
