CONSTANTS Base = 4096
 Alphabet = {32, 48, 49, 119, 120, 126, 46, 101}
 MaxLen = 4
 Codes = {0, 1, 7, 10, 13, 31, 32, 34, 39, 48, 55, 63, 65, 92, 94, 97, 110, 120, 126, 127, 128, 254, 255}
INIT Init
NEXT Next
INVARIANTS Scanners Texts
CHECK_DEADLOCK FALSE
