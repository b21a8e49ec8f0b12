CONSTANTS
 F = {"a", "alien"}
 K = {"x", "y"}
 V = {"1", "2"}
 P = {1, 2}
 Depth = 5
 MaxTabs = 3
INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
