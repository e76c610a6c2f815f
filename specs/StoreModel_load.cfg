SPECIFICATION Spec
CONSTANTS
    Fault = "load"
    MaxOps = 5
    MaxThings = 4
INVARIANT Quiet
CHECK_DEADLOCK FALSE
