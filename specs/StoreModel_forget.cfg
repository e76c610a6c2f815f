SPECIFICATION Spec
CONSTANTS
    Fault = "forget"
    MaxOps = 5
    MaxThings = 4
INVARIANT Quiet
CHECK_DEADLOCK FALSE
