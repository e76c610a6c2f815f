SPECIFICATION Spec
CONSTANTS
    MaxN = 4
    MaxE = 5
INVARIANT Same
CHECK_DEADLOCK FALSE
