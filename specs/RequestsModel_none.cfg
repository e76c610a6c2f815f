SPECIFICATION Spec
CONSTANTS
    Fault = "none"
    MaxLen = 6
INVARIANTS Quiet Functional
CHECK_DEADLOCK FALSE
