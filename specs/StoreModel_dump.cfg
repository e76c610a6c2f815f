SPECIFICATION Spec
CONSTANTS
    Fault = "dump"
    MaxOps = 5
    MaxThings = 4
INVARIANT Quiet
CHECK_DEADLOCK FALSE
