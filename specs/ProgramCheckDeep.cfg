SPECIFICATION Spec
CONSTANTS
    NCodes = 2
    MaxLen = 5
    MinLen = 1
    RoundWeight = 0
    Gates = {"s", "h", "cnot"}
INVARIANTS TypeOK OffIsForgotten Commute Consistent RoundFixes
CHECK_DEADLOCK FALSE
