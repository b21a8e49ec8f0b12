CONSTANTS
 F = {"a", "alien"}
 K = {"x", "y"}
 V = {"1"}
 P = {1, 2}
 Depth = 6
 MaxTabs = 3
INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
