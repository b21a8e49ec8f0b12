CONSTANTS Base = 4096
WI = 63
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
