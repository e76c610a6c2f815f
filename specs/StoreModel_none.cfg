SPECIFICATION Spec
CONSTANTS
    Fault = "none"
    MaxOps = 5
    MaxThings = 4
INVARIANT Quiet
CHECK_DEADLOCK FALSE
