SPECIFICATION Spec
CONSTANTS
    Fault = "copy"
    MaxOps = 5
    MaxThings = 4
INVARIANT Quiet
CHECK_DEADLOCK FALSE
