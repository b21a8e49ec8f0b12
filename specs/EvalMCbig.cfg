INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE
INVARIANTS Terminates Agrees StoreOk
