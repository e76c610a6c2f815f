SPECIFICATION Spec
CONSTANTS
    Fault = "unvar"
    MaxOps = 5
    MaxThings = 4
INVARIANT Quiet
CHECK_DEADLOCK FALSE
