SPECIFICATION Spec
CONSTANTS
    MaxN = 3
    MaxE = 5
INVARIANT Same
CHECK_DEADLOCK FALSE
